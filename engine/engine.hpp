#pragma once
#include "state.hpp"
#include <functional>
#include <unordered_set>

struct Leaf { uint16_t w; uint32_t off; uint32_t size; bool ok; };
struct TypeInfo { std::vector<Leaf> leaves; uint64_t size; };

struct Edge { int pc; std::vector<std::pair<int, int>> moves; };  // dst slot, src operand
struct LPClause { bool isCatch; uint64_t ti; bool filter = false; std::vector<uint64_t> fl; };
struct DInst;
struct Engine;
enum BRes { B_DONE, B_PUSHED, B_STOP, B_RETRY, B_UNWIND };  // B_STOP: state finished; B_RETRY: re-execute / blocked
typedef BRes (*BFn)(Engine&, State&, const DInst&, std::vector<Val>& a, std::vector<Val>& res);

enum DK : uint8_t { D_BIN, D_ICMP, D_FCMP, D_FNEG, D_CAST, D_SELECT, D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_LP, D_RESUME, D_UNREACH, D_ALLOCA, D_LOAD, D_STORE, D_GEP, D_MOVE, D_INSELT, D_EXTELT, D_RMW, D_CMPX, D_FENCE, D_UNSUP, D_NOP };
struct GepT { int op; uint64_t scale; uint16_t w; };
struct DInst {
  DK k; uint16_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1; int ndst = 0; bool inv = false;
  std::vector<int> ops;         // operand ids: >=0 register, <0 constant ~i
  const TypeInfo* ty = nullptr;
  std::vector<Edge> edges;
  std::vector<std::pair<uint64_t, int>> cases;  // switch
  std::vector<GepT> g; int64_t goff = 0;
  const llvm::Function* callee = nullptr; DFunc* dcallee = nullptr; BFn bfn = nullptr; int calleeOp = 0; std::string cname;
  std::vector<int> argN; std::vector<uint64_t> byval; bool varargs = false;
  std::vector<LPClause> cl; bool cleanup = false;
  const llvm::Instruction* I = nullptr; int blk = 0;
  bool atomic = false; int fixedArgs = 0;
};
struct DFunc {
  const llvm::Function* F; std::vector<DInst> code; int nregs = 0; std::vector<int> argSlot, argN; std::vector<Val> consts;
  std::vector<uint8_t> blkHit; std::vector<const llvm::BasicBlock*> blks; bool decoded = false; bool runtime = false;
};

struct Violation { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> widths; std::vector<int> sched; std::vector<std::string> log; };

struct Options {
  std::string entry; std::map<std::string, int64_t> params; double timeLimit = 60; int maxViol = 1; uint64_t mallocCap = 512; int preemptBound = -1;
  uint64_t seed = 1; int samples = 8; std::string replay; uint64_t maxInstrPath = 20000000; int loadIte = 256, storeIte = 24; std::string search = "dfs"; std::string grant = "all"; bool trace = false; int maxMem = 6000;
};

struct Engine {
  llvm::Module* M; const llvm::DataLayout* DL; Solver S; Options O;
  std::unordered_map<llvm::Type*, TypeInfo*> tcache;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr; std::unordered_map<uint64_t, const llvm::Function*> faddr;
  std::unordered_map<std::string, uint64_t> extAddr; std::unordered_map<uint64_t, std::string> addrName;
  std::unordered_map<const llvm::Function*, DFunc*> dfs;
  std::unordered_map<uint64_t, int> tiIds; std::vector<uint64_t> tiList;
  std::unordered_map<uint64_t, std::vector<uint64_t>> tiBases;
  std::vector<State*> work; State* initState = nullptr;
  std::vector<Violation> viols; std::map<std::string, uint64_t> covers; std::map<std::string, uint64_t> unsup; std::map<std::string, uint64_t> assumes;
  uint64_t nPaths = 0, nForks = 0, nInstr = 0, nKilled = 0, nAssert = 0, nDecide = 0, nSwitches = 0, nMT = 0, stateIds = 0, nChecks = 0, nIncomplete = 0; double t0 = 0;
  std::vector<std::string> samples; uint64_t sampleSeen = 0; uint64_t rng = 1;
  std::map<std::string, E> symCache; std::unordered_set<std::string> nameset;
  std::vector<u128> replayVals; bool replaying = false; std::vector<int> replaySched; size_t dummy = 0;
  bool stopAll = false;

  const TypeInfo* ti(llvm::Type* t);
  void flatten(llvm::Type* t, uint64_t off, std::vector<Leaf>& out);
  DFunc* getF(const llvm::Function* F);
  void decode(DFunc* d);
  void constVals(const llvm::Constant* c, std::vector<Val>& out);
  uint64_t addrOfGlobal(const llvm::GlobalValue* g);
  uint64_t externalObj(const std::string& name, uint64_t size);
  void writeInit(Obj* o, uint64_t off, const llvm::Constant* c);
  void initGlobals(State& s);
  void run();
  void runState(State* s);
  std::string finishJSON(bool complete);

  // symbolic helpers
  E toE(const Val& v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
  Val fromE(E e) { Val v; if (e->op == CONST && e->width <= 64) { v.c = (uint64_t)e->c; } else v.e = e; return v; }
  // decide truth of cond, forking if both are feasible; returns -1 if state must stop
  int decide(State& s, E cond);
  bool concretize(State& s, Val& v, unsigned w);   // false -> state dead
  void addPC(State& s, E cond) { if (cond->op == CONST) return; auto n = std::make_shared<PCNode>(); n->parent = s.pc; n->cond = cond; n->depth = s.pc ? s.pc->depth + 1 : 1; s.pc = n; }
  bool inPC(State& s, E cond, bool& val);
  E newVar(State& s, const std::string& nm, unsigned w, uint64_t umin = 0, uint64_t umax = 0);
  void violation(State& s, const std::string& kind, const std::string& msg, const ModelP& m);
  void unsupported(State& s, const std::string& what);
  std::string where(State& s); std::vector<std::string> backtrace(State& s);
  void endPath(State& s);
  State* fork(State& s) { State* n = new State(s); n->id = ++stateIds; nForks++; return n; }

  // memory
  uint64_t alloc(State& s, uint64_t size, OKind k, int ak) { Obj* o = s.mem.add(size, k); o->allocKind = ak; if (k == K_HEAP || k == K_STACK) o->uninit.assign(size, 1); return addrOf(o->id); }
  bool freeObj(State& s, uint64_t addr, int ak);
  // resolves p for an n byte access; returns 1 ok (id/off concrete), 2 symbolic offset (offE, lo, hi, step), 0 stop
  struct Acc { uint64_t id, off; E offE = nullptr; uint64_t lo, hi, step; };
  int resolve(State& s, const Val& p, uint64_t n, bool wr, Acc& a, bool noite = false);
  Val loadC(State& s, const Obj* o, uint64_t off, const Leaf& l);
  void storeC(State& s, Obj* o, uint64_t off, const Val& v, unsigned w, unsigned size);
  bool load(State& s, const Val& p, const TypeInfo* t, std::vector<Val>& out, bool atomic);
  bool store(State& s, const Val& p, const TypeInfo* t, const Val* v, bool atomic);
  Val byteAt(State& s, const Obj* o, uint64_t off);
  bool raceCheck(State& s, uint64_t id, uint64_t off, uint64_t n, bool wr, bool atomic);
  bool memcopy(State& s, const Val& d, const Val& src, uint64_t n);
  bool memfill(State& s, const Val& d, const Val& b, uint64_t n);
  bool concreteLen(State& s, Val& n, std::initializer_list<std::pair<const Val*, bool>> ptrs);
  bool readCStr(State& s, uint64_t a, std::string& out);

  // control
  void setRes(State& s, const DInst& d, const std::vector<Val>& r);
  void advance(State& s, const DInst& d);
  void takeEdge(State& s, Frame* f, const Edge& e);
  bool pushCall(State& s, DFunc* f, const std::vector<Val>& args, RetHook h = H_NONE, uint64_t ha = 0);
  bool popFrame(State& s);
  bool doReturn(State& s, std::vector<Val>& rv);
  bool unwind(State& s, uint64_t exc);   // false -> state stops
  bool throwStd(State& s, const char* tiName);
  bool throwObj(State& s, uint64_t obj, uint64_t ti, uint64_t dtor);
  bool typeMatch(State& s, uint64_t thrown, uint64_t caught);
  void destroyExc(State& s, uint64_t obj);
  bool step(State& s);  // one instruction; false -> stop this state
  // threads
  int newThread(State& s);
  bool schedule(State& s, bool forced);
  bool syncPoint(State& s);       // true -> go on with this thread now; false -> switched (instruction to be retried later)
  void vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
  void vcTick(Thread& t) { if ((int)t.vc.size() <= t.id) t.vc.resize(t.id + 1, 0); t.vc[t.id]++; }
  void acquire(State& s, uint64_t key) { vcJoin(s.T().vc, s.syncVC[key]); }
  void release(State& s, uint64_t key) { vcJoin(s.syncVC[key], s.T().vc); vcTick(s.T()); }
  bool enabled(State& s, int t);
  int envChoice(State& s, int lo, int hi, const char* name);  // engine nondeterminism, forks; -1 stop
};
BFn findBuiltin(const std::string& name, const llvm::Function* F);
extern bool gTrace;
