// symx: solver based symbolic execution of LLVM bitcode.
//   symx --prepare out.bc --entries e1,e2 [--strip file] in.bc...     link, strip modelled functions, optimise
//   symx --entry e [--param k=v] [--time s] ... prog.bc               explore
#include "engine.hpp"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <fstream>
#include <sstream>
using namespace llvm;

static bool stripBody(const std::string& n, const std::vector<std::string>& pats) {
  for (auto& p : pats) { if (p.empty()) continue; if (p.back() == '*' ? n.compare(0, p.size() - 1, p, 0, p.size() - 1) == 0 : n == p) return true; }
  return false;
}
int main(int argc, char** argv) {
  CX = new Ctx; std::vector<std::string> files; std::string prepare, entries, strip; Options O; std::string olevel = "1"; int64_t inl = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--prepare") prepare = nxt(); else if (a == "--entries") entries = nxt(); else if (a == "--strip") strip = nxt(); else if (a == "-O") olevel = nxt(); else if (a == "--inline") inl = std::stoll(nxt());
    else if (a == "--entry") O.entry = nxt(); else if (a == "--time") O.timeLimit = std::stod(nxt()); else if (a == "--max-viol") O.maxViol = std::stoi(nxt()); else if (a == "--cap") O.mallocCap = std::stoull(nxt()); else if (a == "--preempt") O.preemptBound = std::stoi(nxt()); else if (a == "--seed") O.seed = std::stoull(nxt()); else if (a == "--samples") O.samples = std::stoi(nxt());
    else if (a == "--param") { std::string kv = nxt(); size_t e = kv.find('='); O.params[kv.substr(0, e)] = std::stoll(kv.substr(e + 1)); }
    else if (a == "--search") O.search = nxt(); else if (a == "--max-instr") O.maxInstrPath = std::stoull(nxt()); else if (a == "--load-ite") O.loadIte = std::stoi(nxt()); else if (a == "--store-ite") O.storeIte = std::stoi(nxt()); else if (a == "--replay") O.replay = nxt(); else if (a == "--trace") O.trace = true; else files.push_back(a);
  }
  LLVMContext C; SMDiagnostic err;
  if (!prepare.empty()) {
    std::unique_ptr<Module> M;
    std::vector<std::string> pats; { std::ifstream f(strip); std::string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') pats.push_back(l); }
    for (auto& f : files) {
      auto m = parseIRFile(f, err, C); if (!m) { err.print("symx", errs()); return 3; }
      if (!M) { for (auto& F : *m) if (!F.isDeclaration() && stripBody(F.getName().str(), pats)) { F.deleteBody(); F.setComdat(nullptr); } M = std::move(m); }
      else if (Linker::linkModules(*M, std::move(m), Linker::OverrideFromSrc)) { errs() << "link failed\n"; return 3; }
    }
    std::set<std::string> keep; { std::stringstream ss(entries); std::string e; while (std::getline(ss, e, ',')) keep.insert(e); }
    bool all = entries.empty();
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    for (auto& F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr("frame-pointer"); }
    ModulePassManager MPM;
    MPM.addPass(InternalizePass([&](const GlobalValue& g) { std::string n = g.getName().str(); if (n.compare(0, 5, "llvm.") == 0) return true; return all ? n.compare(0, 2, "h_") == 0 : keep.count(n) > 0; }));
    MPM.addPass(GlobalDCEPass());
    if (olevel != "0") MPM.addPass(PB.buildPerModuleDefaultPipeline(olevel == "2" ? OptimizationLevel::O2 : OptimizationLevel::O1));
    MPM.addPass(GlobalDCEPass());
    MPM.run(*M, MAM);
    std::error_code ec; raw_fd_ostream os(prepare, ec); WriteBitcodeToFile(*M, os); os.close();
    for (auto& F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage() && F.getName().starts_with("h_")) outs() << F.getName() << "\n";
    return 0;
  }
  auto M = parseIRFile(files.at(0), err, C); if (!M) { err.print("symx", errs()); return 3; }
  Engine en; en.M = M.get(); en.DL = &M->getDataLayout(); en.O = O;
  if (!O.replay.empty()) {
    en.replaying = true; std::ifstream f(O.replay); std::string l;
    while (std::getline(f, l)) {
      std::stringstream ss(l); std::string k; ss >> k;
      if (k == "in") { std::string name, v; ss >> name >> v; u128 x = 0; for (size_t i = 2; i < v.size(); i++) { char c = v[i]; x = x * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } en.replayVals.push_back(x); }
      else if (k == "env") { int x; while (ss >> x) en.replaySched.push_back(x); }
    }
  }
  en.run();
  return 0;
}
