#!/usr/bin/env python3
"""Decide one property by symbolic execution of the current code in /repo.

  bin/check.py C08 [--tier quick|thorough]

The harness of the property (harness/cNN*.cpp) and the sources of /repo it uses
are compiled to LLVM bitcode, every job line of the harness is explored by the
engine (build/engine/symx), and every counterexample is replayed against the
natively compiled code before it is reported.
Job lines in a harness:
  //@ srcs: src/...cpp            sources of /repo to link
  //@ cflags: ...                 extra flags (both builds)
  //@ ub: add,mul,shift,...       undefined-behaviour checks compiled in
  //@ bound: text                 stated bound, copied to the evidence
  //@ outside: text               what lies outside the bound
  //@ job <quick|thorough|both> <entry> [key=value...]
     reserved keys: time cap preempt search max_instr must=a,b samples maxviol load_ite store_ite; the rest are harness parameters
"""
import argparse, concurrent.futures as cf, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SYMX = V + '/build/engine/symx'
EIGEN = '/usr/include/eigen3'
BC = ('-std=c++17 -O1 -Xclang -disable-llvm-passes -emit-llvm -c -g1 -fno-vectorize -fno-slp-vectorize -DEIGEN_DONT_VECTORIZE '
      '-ffp-contract=off -D_GLIBCXX_EXTERN_TEMPLATE=0 -fopenmp -w -ftemplate-backtrace-limit=4').split()
NAT = '-std=c++17 -O1 -g1 -fopenmp -w -fno-omit-frame-pointer -fsanitize=address -fno-sanitize-recover=all -DEIGEN_DONT_VECTORIZE -ffp-contract=off -rdynamic'.split()
UBMAP = {'add': 'signed-integer-overflow', 'overflow': 'signed-integer-overflow', 'shift': 'shift', 'div': 'integer-divide-by-zero', 'bounds': 'array-bounds', 'enum': 'enum', 'bool': 'bool', 'unreachable': 'unreachable', 'return': 'return', 'floatcast': 'float-cast-overflow'}
SCHED_KINDS = {'race', 'deadlock', 'thread', 'mutex'}
RES = {'time', 'cap', 'preempt', 'search', 'max_instr', 'must', 'samples', 'maxviol', 'load_ite', 'store_ite', 'native'}
procs = set(); plock = threading.Lock()

def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=cwd, start_new_session=True)
    with plock: procs.add(p)
    try:
        o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, _ = p.communicate(); return 124, o
    finally:
        with plock: procs.discard(p)

def killall():
    with plock:
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass

def parse(files):
    H = {'srcs': [], 'cflags': [], 'ub': [], 'bound': [], 'outside': [], 'assume': [], 'jobs': []}
    for f in files:
        for l in open(f):
            if not l.startswith('//@'): continue
            l = l[3:].strip()
            if l.startswith('job '):
                t = l.split(); j = {'tier': t[1], 'entry': t[2], 'opt': {}, 'par': {}, 'file': f}
                for kv in t[3:]:
                    k, v = kv.split('=', 1)
                    (j['opt'] if k in RES else j['par'])[k] = v
                H['jobs'].append(j)
            else:
                k, v = l.split(':', 1); k = k.strip(); v = v.strip()
                if k in ('srcs', 'cflags'): H[k] += v.split()
                elif k == 'ub': H[k] += v.replace(',', ' ').split()
                else: H[k].append(v)
    return H

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--entry'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--no-native', action='store_true'); ap.add_argument('-v', action='store_true'); ap.add_argument('--budget', type=float)
    A = ap.parse_args(); P = A.prop; t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if A.tier == 'thorough' else 'quick'
    budget = A.budget or (560.0 if tier == 'quick' else 2.5 * 3600)
    files = sorted(glob.glob(f'{V}/harness/{P.lower()}[_.]*cpp'))
    if not files: print('no harness for', P); return 2
    rc, o = sh(['bash', V + '/engine/build.sh'], 1700)
    if rc: print('engine build failed\n' + o[-2000:]); return 2
    H = parse(files)
    os.makedirs(V + '/build/run', exist_ok=True)
    W = tempfile.mkdtemp(prefix=P + '_', dir=V + '/build/run')
    shutil.rmtree(f'{V}/build/replay/{P}', ignore_errors=True)
    try: return run(P, tier, seed, budget, H, files, W, A, t0)
    finally:
        killall()
        if not A.keep: shutil.rmtree(W, ignore_errors=True)

def compile_bc(src, out, inc, extra): return sh(['clang++-18', *BC, *inc, *extra, src, '-o', out], 400)

def run(P, tier, seed, budget, H, files, W, A, t0):
    inc_bc = [f'-I{V}/models/include', f'-I{V}/harness', f'-I{REPO}/include', '-isystem', EIGEN]
    inc_nat = [f'-I{V}/models/native', f'-I{V}/harness', f'-I{REPO}/include', '-isystem', EIGEN]
    ub = [UBMAP.get(u, u) for u in H['ub']]
    ubbc = [f'-fsanitize={",".join(ub)}', f'-fsanitize-trap={",".join(ub)}'] if ub else []
    ubnat = [f'-fsanitize={",".join(ub)}'] if ub else []
    pool = cf.ThreadPoolExecutor(8); bcs = []; futs = []
    for i, f in enumerate(files): bcs.append(f'{W}/h{i}.bc'); futs.append(pool.submit(compile_bc, f, bcs[-1], inc_bc, ['-I' + W] + H['cflags'] + ubbc))
    for i, s in enumerate(H['srcs']): bcs.append(f'{W}/s{i}.bc'); futs.append(pool.submit(compile_bc, f'{REPO}/{s}', bcs[-1], inc_bc, H['cflags'] + ubbc))
    bcs.append(f'{W}/rt.bc'); futs.append(pool.submit(compile_bc, f'{V}/models/runtime.cpp', bcs[-1], inc_bc, []))
    jobs = [j for j in H['jobs'] if (j['tier'] == tier or j['tier'] == 'both') and (not A.entry or j['entry'] == A.entry)]
    if not jobs: jobs = [j for j in H['jobs'] if not A.entry or j['entry'] == A.entry]
    # native build, in the background
    def native(tag='', more=()):
        objs = [f'{W}/n{tag}.{i}.o' for i in range(len(files) + len(H['srcs']) + 1)]; cs = []
        with cf.ThreadPoolExecutor(4) as np:
            for o, s in zip(objs, files + [f'{REPO}/{s}' for s in H['srcs']] + [V + '/models/native.cpp']):
                cs.append(np.submit(sh, [*(['clang++-18', '-O0'] if s.endswith('/math.cpp') else ['g++']), *[f for f in NAT if f not in ('-O1', '-fopenmp') or not s.endswith('/math.cpp')], *more, *inc_nat, *H['cflags'], *ubnat, '-c', s, '-o', o], 600))
            for c in cs:
                if c.result()[0]: return c.result()
        return sh(['g++', *NAT, *ubnat, *objs, '-o', W + '/native' + tag, '-ldl', '-lpthread', '-lz'], 300)
    nat = None if A.no_native else pool.submit(native)
    for f in futs:
        rc, o = f.result()
        if rc: print('COMPILE ERROR\n' + o[:4000]); return 2
    rc, o = sh([SYMX, '--prepare', W + '/p.bc', '--strip', V + '/models/strip.txt', '--entries', ','.join(sorted({j['entry'] for j in jobs})), *bcs], 300)
    if rc: print('PREPARE ERROR\n' + o[:3000]); return 2
    t_comp = time.time() - t0
    results = []
    def one(j):
        o = j['opt']; left = budget - (time.time() - t0); T = float(o.get('time', 60 if tier == 'quick' else 900)); T = max(5.0, min(T, left))
        cmd = [SYMX, '--entry', j['entry'], '--time', str(T), '--seed', str(seed), '--max-viol', o.get('maxviol', '4'), '--samples', o.get('samples', '6')]
        for k in ('cap', 'preempt', 'search', 'max_instr', 'load_ite', 'store_ite'):
            if k in o: cmd += ['--' + k.replace('_', '-'), o[k]]
        for k, v in j['par'].items(): cmd += ['--param', f'{k}={v}']
        t = time.time(); rc, out = sh(cmd + [W + '/p.bc'], T + 60); r = None
        for l in reversed(out.splitlines()):
            if l.startswith('{"entry"'):
                try: r = json.loads(l)
                except Exception: pass
                break
        return j, r, rc, out, time.time() - t
    jf = [pool.submit(one, j) for j in jobs]
    known = load_known(P); confirmed = []; disc = []; khits = []; errors = []; traces = 0; mism = []
    vdir = f'{V}/build/replay/{P}'; vn = 0
    hard = []
    def native_run(rf, j, threads=None, timeout=25, tag=''):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0', OMP_DYNAMIC='false')
        if threads: env['OMP_THREAD_LIMIT'] = str(threads)
        elif 0 < int(j['par'].get('omp_thread_limit', 0)) < 1000: env['OMP_THREAD_LIMIT'] = j['par']['omp_thread_limit']
        cpus = sorted(os.sched_getaffinity(0))[:int(j['par'].get('omp_procs', 0))]   # the machine of the job: as many processors
        pre = ['taskset', '-c', ','.join(map(str, cpus))] if cpus and shutil.which('taskset') else []
        return sh(pre + [W + '/native' + tag, j['entry'], rf] + [f'{k}={v}' for k, v in j['par'].items()], timeout, env)
    def write_replay(path, j, inputs, envs, extra):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(f'# property {P} entry {j["entry"]} params {json.dumps(j["par"])}\n')
            for n, v, w in inputs: f.write(f'in {n.replace(chr(32), chr(95))} {v}\n')
            if envs: f.write('env ' + ' '.join(map(str, envs)) + '\n')
            for l in extra: f.write('# ' + l.replace('\n', ' ') + '\n')
    for fu in cf.as_completed(jf):
        j, r, rc, out, dt = fu.result()
        if r is None: errors.append(f'{j["entry"]} {j["par"]}: engine ended with {rc}: {out[-400:]}'); continue
        results.append((j, r))
        if A.v: print(f'  {j["entry"]} {j["par"]} complete={r["complete"]} paths={r["paths"]} pending={r["pending"]} queries={r["queries"]} solver={r["solver_s"]:.1f}s wall={dt:.1f}s covers={r["covers"]} unsup={r["unsupported"]} away={r["assumed_away"]} viol={[(v["kind"], v["msg"], v["where"]) for v in r["violations"]]}', flush=True)
        for v in r['violations']:
            vn += 1; path = f'{vdir}/{j["entry"]}_{vn}.replay'
            write_replay(path, j, v['inputs'], v['env'], [f'{v["kind"]}: {v["msg"]}', 'at ' + v['where']] + v['stack'] + v['log'])
            k = match_known(known, j, v)
            if k: khits.append(k); continue
            # replay
            how = None; note = ''
            if nat is not None:
                nrc, nout = nat.result()
                if nrc: errors.append('native build failed: ' + nout[-1500:])
                else:
                    for th in ([None] if not v['env'] else [None, 1, 2, 3]):
                        rrc, rout = native_run(path, j, th)
                        if rrc == 124 and v['kind'] != 'nontermination' and v['kind'] != 'deadlock': note = 'native run timed out'
                        if rrc not in (0, 77, 78, 98, 99): how = f'native run (threads={th}): exit {rrc}: ' + first_line(rout); break
                        note = f'native exit {rrc} ' + first_line(rout)
            if how is None and v['kind'] == 'memory' and nat is not None and not nat.result()[0]:
                if not hard: hard.append(native('_a', ['-D_GLIBCXX_ASSERTIONS']))   # out-of-bounds accesses that skip over the ASan red zones
                if not hard[0][0]:
                    rrc, rout = native_run(path, j, tag='_a')
                    if rrc not in (0, 77, 78, 98, 99, 124): how = f'native run with library assertions: exit {rrc}: ' + first_line(rout)
            if how is None and (v['kind'] in SCHED_KINDS or v['env']):
                erc, eout = sh([SYMX, '--entry', j['entry'], '--replay', path, '--time', '60', '--max-viol', '1'] + (['--cap', j['opt']['cap']] if 'cap' in j['opt'] else []) + sum([['--param', f'{k}={x}'] for k, x in j['par'].items()], []) + [W + '/p.bc'], 90)
                try:
                    e = json.loads([l for l in eout.splitlines() if l.startswith('{"entry"')][-1])
                    if e['violations'] and e['violations'][0]['kind'] == v['kind']: how = 'schedule replayed step by step on the compiled code in the interpreter'
                except Exception as x: note += f' engine replay failed {x}'
            if how: confirmed.append((j, v, path, how))
            else: disc.append((j, v, path, note))
        if confirmed and not A.v: break
    if confirmed and not A.v: killall()
    # must labels
    for j, r in results:
        miss = [m for m in j['opt'].get('must', '').split(',') if m and not r['covers'].get(m)]
        if not miss or r['violations']: continue
        if r['complete'] and not r['unsupported']:
            path = f'{vdir}/{j["entry"]}_unreached.txt'; os.makedirs(vdir, exist_ok=True)
            open(path, 'w').write(f'entry {j["entry"]} params {j["par"]}: explored completely ({r["paths"]} paths) and no input within the bounds reaches: {miss}\n')
            confirmed.append((j, {'kind': 'unreachable', 'msg': 'behaviour that must be possible is not: ' + ','.join(miss), 'where': '', 'inputs': []}, path, 'complete exploration'))
        else: errors.append(f'{j["entry"]} {j["par"]}: exploration incomplete and never reached {miss}') if not r['paths'] else None
    # traces validated natively
    if nat is not None and not confirmed:
        nrc, nout = nat.result()
        if nrc: errors.append('native build failed: ' + nout[-1500:])
        else:
            work = []
            for j, r in results:
                if j['opt'].get('native') == '0': continue
                for n, s in enumerate(r['samples']): work.append((j, s, n))
            def val(x):
                j, s, n = x; p = f'{W}/s_{j["entry"]}_{abs(hash(str(j["par"])))}_{n}.replay'; write_replay(p, j, s['inputs'], s['env'], [])
                rrc, rout = native_run(p, j)
                obs = [int(t, 16) for l in rout.splitlines() if l.startswith('OK') for t in l.split()[1:]]
                ok = rrc == 0 and (s['undef'] > 0 or s['env'] or obs == [int(t, 16) for t in s['observed']])
                return ok, j, s, rrc, rout
            for ok, j, s, rrc, rout in pool.map(val, work):
                if ok: traces += 1
                elif rrc not in (0, 77, 78, 98, 99, 124) and not s['env']:
                    vn += 1; path = f'{vdir}/{j["entry"]}_{vn}.replay'; write_replay(path, j, s['inputs'], s['env'], ['native run fails', rout[-2000:]])
                    v = {'kind': 'native', 'msg': first_line(rout), 'where': '', 'inputs': s['inputs']}
                    k = match_known(known, j, v)
                    if k: khits.append(k)
                    else: confirmed.append((j, v, path, f'native run of a solver-chosen input: exit {rrc}'))
                elif s['undef'] == 0 and not s['env']: mism.append(f'{j["entry"]} {j["par"]}: native exit {rrc}, inputs {s["inputs"]}, engine observed {s["observed"]}, native {rout[-300:]}')
                elif A.v: print('  (undef/env sample differs)', j['entry'], s['inputs'], rrc, rout[-200:])
    # evidence
    tot = lambda k: sum(r[k] for _, r in results)
    fns = {}
    for _, r in results:
        for n, c in r['functions']: fns[n] = max(fns.get(n, 0), c)
    ev = {'property': P, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
          'coverage': {'states': tot('paths'), 'transitions': tot('forks') + tot('decisions'), 'traces_validated_against_impl': traces,
            'samples': [{'entry': j['entry'], 'params': j['par'], 'inputs': s['inputs'][:40], 'observed': s['observed'][:20], 'path_conditions': s['pc']} for j, r in results for s in r['samples'][:2]][:24],
            'explored_completely': all(r['complete'] and not r['unsupported'] for _, r in results) and not errors,
            'instructions_interpreted': tot('instructions'), 'assertions_decided': tot('asserts'), 'memory_and_arithmetic_checks': tot('checks'),
            'solver_queries': tot('queries'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'), 'solver_cache_hits': tot('query_cache_hits'), 'solver_s': round(tot('solver_s'), 2),
            'solver': 'z3 (quantifier-free bit-vectors and IEEE floats)', 'compile_s': round(t_comp, 1),
            'jobs': [{'entry': j['entry'], 'params': j['par'], 'complete': r['complete'] and not r['unsupported'], 'paths': r['paths'], 'pending_paths': r['pending'], 'queries': r['queries'], 'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall_s'], 2), 'schedule_choices': r['schedule_choices'], 'reached': r['covers'], 'outside_model': r['unsupported'], 'assumed_away': r['assumed_away']} for j, r in results],
            'functions_encoded': sorted([f'{n} ({c} lines)' for n, c in fns.items()]),
            'bounds': H['bound'], 'outside_bounds': H['outside'], 'model_mismatches': mism[:5], 'errors': errors[:5]},
          'assumptions': H['assume'] + ['clang 18 -O1 bitcode stands for the code; libstdc++ parts that live in the shared library are replaced by models/runtime.cpp', 'memory is sequentially consistent; a data race is reported as such'],
          'violations': [{'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'replay': p, 'confirmed_by': h} for j, v, p, h in confirmed]}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{P}.json', 'w'), indent=1)
    for k in sorted(set(khits)): print(f'KNOWN-FINDING: property={P} {k}')
    for j, v, p, h in confirmed[:4]:
        print(f'VIOLATION property={P} replay={p}'); print(f'  {v["kind"]}: {v["msg"]} at {v["where"]}'); print(f'  {j["entry"]} {j["par"]} inputs: ' + ' '.join(f'{n}={x}' for n, x, *_ in v['inputs'][:30])); print('  confirmed by ' + h)
    for j, v, p, n in disc: print(f'DISCREPANCY {j["entry"]} {j["par"]} {v["kind"]}: {v["msg"]} at {v["where"]} not reproduced ({n}) {p} ' + ' '.join(f'{a}={x}' for a, x, *_ in v['inputs'][:30]))
    for m in mism[:5]: print('MODEL MISMATCH ' + m)
    for e in errors[:5]: print('ERROR ' + e)
    n = len(results)
    print(f'{P} {tier}: {n} jobs, {tot("paths")} paths, {tot("queries")} queries, solver {tot("solver_s"):.1f}s, {traces} traces replayed natively, complete={ev["coverage"]["explored_completely"]}, {time.time()-t0:.1f}s')
    if confirmed: return 1
    if disc or mism or errors: return 2
    return 0

def first_line(o):
    for l in o.splitlines():
        if 'ERROR:' in l or 'FAIL' in l or 'EXCEPTION' in l or 'runtime error' in l or 'terminate' in l or 'ssert' in l: return l[:200]
    return o.strip()[:120]

def load_known(P):
    p = V + '/known_findings.json'
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == P]

def match_known(known, j, v):
    for k in known:
        m = k['match']
        if m.get('entry') not in (None, j['entry']): continue
        if m.get('kind') not in (None, v['kind']): continue
        if m.get('msg') and m['msg'] not in v['msg']: continue
        if m.get('where') and m['where'] not in v['where']: continue
        if m.get('inputs') and not all(any(n == a and int(x, 16) == b for n, x, *_ in v['inputs']) for a, b in m['inputs'].items()): continue
        return k['what']
    return None

if __name__ == '__main__': sys.exit(main())
