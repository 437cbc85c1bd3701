#!/usr/bin/env python3
"""Runs the solver-based check of one property: python3 run_check.py <ID> [--tier quick|thorough]

1. compiles the harness and the current sources of /repo to LLVM bitcode,
2. lets pisym execute the entries symbolically and decide every assertion with the SMT solver,
3. replays every counterexample (and a sample of the explored paths) against a native build of
   the same harness and sources; only a reproduced counterexample is reported.
Exit 0: held, 1: violated (VIOLATION line), 2: no verdict."""
import json, os, re, shutil, subprocess, sys, time, glob, threading
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, HERE)
from checks import CHECKS

CLANG = '/usr/bin/clang++-18'
BCFLAGS = ('-std=c++17 -O1 -Xclang -disable-llvm-passes -gline-tables-only -ffp-contract=off -fno-access-control -w '
           '-D_GLIBCXX_EXTERN_TEMPLATE=0 -DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_PARALLELIZE -DSYM_ENGINE=1 '
           '-fno-vectorize -fno-slp-vectorize -fno-builtin-memcmp -fno-unroll-loops').split()
NFLAGS = '-std=c++17 -g1 -fno-access-control -w -ffp-contract=off -DEIGEN_DONT_PARALLELIZE'.split()


def log(*a):
    print(*a, flush=True)


class Incomplete(Exception):
    pass


def run(cmd, timeout=600, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace', **k)
    return p.returncode, p.stdout


def ensure_engine():
    rc, out = run(['make', '-s', '-j8', '-C', HERE + '/engine', 'B=' + HERE + '/build'], timeout=1500)
    if rc:
        raise Incomplete('engine does not build:\n' + out[-3000:])


def gen_headers(gen):
    os.makedirs(gen, exist_ok=True)
    sql = open(REPO + '/pairinteraction/databases/quantum_defects.sql').read()
    s = open(REPO + '/pairinteraction/EmbeddedDatabase.hpp.in').read().replace('@QUANTUM_DEFECT_DATABASE_CONTENT@', sql)
    open(gen + '/EmbeddedDatabase.hpp', 'w').write(s)
    s = open(REPO + '/pairinteraction/version.hpp.in').read()
    open(gen + '/version.hpp', 'w').write(re.sub(r'@\w+@', '0', s))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for i, a in enumerate(sys.argv):
        if a == '--tier':
            tier = sys.argv[i + 1]
        if a == '--entries':
            only = sys.argv[i + 1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    C = CHECKS[pid]
    t0 = time.time()
    work = f'{HERE}/build/work/{pid}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + '/out')
    rep = f'{HERE}/build/replay/{pid}'
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    state = {'violations': [], 'known': [], 'note': '', 'validated': 0, 'mismatch': []}
    res, rc = None, 2
    try:
        res = check(pid, C, tier, work, rep, state, only)
        rc = 1 if state['violations'] else 0
    except Incomplete as e:
        state['note'] = str(e)
        rc = 1 if state['violations'] else 2
    except subprocess.TimeoutExpired as e:
        state['note'] = 'time limit: ' + str(e)[:500]
        rc = 1 if state['violations'] else 2
    if res is None and os.path.exists(work + '/out/result.json'):
        res = json.load(open(work + '/out/result.json'))
    evidence(pid, C, tier, seed, res, state, time.time() - t0, rc)
    for k in state['known']:
        log(k)
    if rc == 2:
        log(f'NO VERDICT for {pid}: {state["note"]}')
    if rc == 0:
        log(f'OK {pid} ({tier}): {res["paths"]} paths, {res["queries"]} queries, {res["asserts"]} assertions, '
            f'{state["validated"]} paths replayed natively, {time.time() - t0:.1f} s')
    sys.stdout.flush()
    os._exit(rc)


def include_flags(C, work):
    inc = ['-I' + HERE + '/rt', '-I' + REPO, '-I' + REPO + '/pairinteraction', '-I' + work + '/gen', '-I' + HERE + '/rt/stub',
           '-isystem', '/usr/include/eigen3']
    return inc + C.get('flags', [])


def check(pid, C, tier, work, rep, state, only):
    deadline = time.time() + (840 if tier == 'quick' else C.get('tmo', (300, 3000))[1] + 600)
    ensure_engine()
    gen_headers(work + '/gen')
    inc = include_flags(C, work) + [f'-DTIER={0 if tier == "quick" else 1}']
    harness = f'{HERE}/harness/{pid}.cpp'
    srcs = [REPO + '/' + s for s in C.get('src', [])] + [f'{HERE}/harness/{s}' for s in C.get('extra', [])]
    C['_h'], C['_s'] = harness, srcs
    # ---------------------------------------------------------------- bitcode
    jobs = [(harness, work + '/harness.bc'), (HERE + '/rt/shim.cpp', work + '/shim.bc')]
    jobs += [(HERE + '/rt/' + s, work + '/' + s.replace('.cpp', '.bc')) for s in C.get('shim', [])]
    for s in srcs:
        jobs.append((s, work + '/' + os.path.basename(s).replace('.cpp', '.bc')))
    procs = [(subprocess.Popen([CLANG] + BCFLAGS + ([] if s.endswith('/rt/shim.cpp') else C.get('bcflags', [])) + inc + ['-emit-llvm', '-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True), s) for s, o in jobs]
    for p, s in procs:
        out = p.communicate(timeout=600)[0]
        if p.returncode:
            raise Incomplete(f'{s} does not compile:\n{out[-3000:]}')
    entries = []
    text = open(harness).read()
    for m in re.finditer(r'extern "C" void (entry_\w+)\(\)', text):
        entries.append(m.group(1))
    if tier == 'quick':
        entries = [e for e in entries if not e.startswith('entry_T_')]
    if only:
        entries = [e for e in entries if e in only]
    allent = entries
    shimfns = re.findall(r'\b(pisym_\w+)\(', open(HERE + '/rt/shim.cpp').read())
    keep = ','.join(allent + sorted(set(shimfns)) + [r[1] for r in C.get('redirect', [])])
    rc, out = run(['llvm-link-18', '-o', work + '/link.bc'] + (['--override=' + o for _, o in jobs if os.path.basename(o) in C.get('override', [])]) +
                  [o for _, o in jobs if os.path.basename(o) not in C.get('override', [])])
    if rc:
        raise Incomplete('llvm-link: ' + out[-2000:])
    rc, out = run(['opt-18', '-passes=internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)',
                   '-internalize-public-api-list=' + keep, work + '/link.bc', '-o', work + '/prog.bc'])
    if rc:
        raise Incomplete('opt: ' + out[-2000:])
    with open(work + '/redirects', 'w') as f:
        f.write('_ZNSt13_Bvector_baseISaIbEE11_M_allocateEm pisym_bvec_alloc\n')
        f.write('_ZN3fmt2v97vformatB5cxx11ENS0_17basic_string_viewIcEENS0_17basic_format_argsINS0_20basic_format_contextINS0_8appenderEcEEEE pisym_vformat\n')
        for a, b in C.get('redirect', []):
            f.write(f'{a} {b}\n')
    # ---------------------------------------------------------------- native build (in parallel)
    nat = {}

    def native():
        try:
            nat['rc'], nat['out'] = build_native(C, work, inc, harness, srcs)
        except Exception as e:  # noqa
            nat['rc'], nat['out'] = 1, str(e)
    th = threading.Thread(target=native, daemon=True)
    th.start()
    # ---------------------------------------------------------------- symbolic execution
    tmo = C.get('tmo', (300, 3000))[0 if tier == 'quick' else 1]
    cmd = [HERE + '/build/pisym', work + '/prog.bc', '--out', work + '/out', '--entries', ','.join(entries), '--timeout', str(tmo),
           '--jobs', str(C.get('jobs', 8)), '--redirects', work + '/redirects'] + C.get('engine', [])
    rc, out = run(cmd, timeout=tmo + 120)
    if not os.path.exists(work + '/out/result.json'):
        raise Incomplete(f'engine failed (rc {rc}): {out[-1500:]}')
    res = json.load(open(work + '/out/result.json'))
    th.join(max(1, deadline - time.time()))
    if nat.get('rc', 1):
        raise Incomplete('native build failed: ' + nat.get('out', '')[-3000:])
    # ---------------------------------------------------------------- counterexamples
    known = load_known(pid)
    viols = sorted(glob.glob(work + '/out/viol.*'), key=os.path.getmtime)
    viols = [v for v in viols if not v.endswith('.tmp')]
    unrep = []
    for v in viols:
        head = dict(re.findall(r'^# (\w+) (.*)$', open(v).read(), re.M))
        ok, how = replay(C, work, v, head)
        if not ok:
            unrep.append((v, head, how))
            continue
        k = [x for x in known if x['entry'] == head['entry'] and re.search(x['match'], head['msg'])]
        if k:
            line = f'KNOWN-FINDING: property={pid} {k[0]["text"]}'
            if line not in state['known']:
                state['known'].append(line)
            continue
        dst = f'{rep}/{os.path.basename(v)}'
        shutil.copy(v, dst)
        with open(dst, 'a') as f:
            f.write(f'# native: {how}\n# rerun: python3 {HERE}/run_check.py {pid} (then build/work/{pid}/replay {head["entry"]} <this file>)\n')
        state['violations'].append(dst)
        if len(state['violations']) == 1:
            log(f'VIOLATION property={pid} replay={dst}')
            log(f'  {head["kind"]}: {head["msg"]}\n  at {head["where"][:600]}\n  native replay: {how}')
    if unrep and not state['violations']:
        v, head, how = unrep[0]
        raise Incomplete(f'counterexample of {head["entry"]} was not reproduced natively: {head["kind"]}: {head["msg"]} at {head["where"][:400]}; native: {how}; file {v}')
    if state['violations']:
        return res
    if res['errors']:
        raise Incomplete('engine: ' + res['errmsg'])
    if res['timeout'] or res['killed']:
        raise Incomplete(f'exploration did not finish within {tmo} s')
    if res['qunk']:
        pass
    for l, n in res['labels'].items():
        if n == 0 and not state['known']:
            raise Incomplete(f'witness "{l}" was not reached: the check would be vacuous')
    for e in entries:
        if res['entry_paths'].get(e, 0) == 0 and not state['known']:
            raise Incomplete(f'entry {e} completed no path')
    # ---------------------------------------------------------------- validate explored paths natively
    for s in sorted(glob.glob(work + '/out/sample.*')):
        if s.endswith('.tmp') or time.time() > deadline:
            continue
        ent = os.path.basename(s).split('.')[1]
        c, o = run_native(work, ent, s, 60)
        if c == 0:
            state['validated'] += 1
        else:
            state['mismatch'].append([os.path.basename(s), c, o[-300:]])
    if state['mismatch'] and os.environ.get('PISYM_DEBUG'):
        log('MISMATCH', json.dumps(state['mismatch'][:3], indent=1))
    return res


def build_native(C, work, inc, harness, srcs):
    fl = NFLAGS + C.get('nflags', ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'])
    os.makedirs(work + '/nat', exist_ok=True)
    ps, objs = [], []
    inc = [i for i in inc]
    for s in [harness, HERE + '/rt/replay.cpp'] + srcs + [HERE + '/rt/' + x for x in C.get('nextra', [])]:
        if os.path.basename(s) in C.get('nskip', []):
            continue
        o = work + '/nat/' + os.path.basename(s) + '.o'
        objs.append(o)
        f1 = [x for x in fl if x != '-fsanitize=thread'] if s.endswith('/rt/replay.cpp') else fl
        ps.append((subprocess.Popen([C.get('ncxx', 'g++')] + f1 + inc + C.get('ndefs', []) + ['-c', s, '-o', o], stdout=subprocess.PIPE,
                                    stderr=subprocess.STDOUT, text=True), s))
    for p, s in ps:
        out = p.communicate(timeout=700)[0]
        if p.returncode:
            return 1, s + ': ' + out
    return run([C.get('ncxx', 'g++')] + fl + ['-rdynamic', '-o', work + '/replay'] + objs + C.get('libs', []) + ['-ldl', '-lpthread'])


def run_native(work, entry, file, tmo, pre=[], env={}):
    env = dict(os.environ, **env, ASAN_OPTIONS='exitcode=42:detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=42',
               TSAN_OPTIONS='exitcode=42:halt_on_error=1')
    d = work + '/cwd'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        p = subprocess.run(pre + [work + '/replay', entry, file], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo,
                           errors='replace', cwd=d, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def summary(o):
    for l in o.splitlines():
        if 'REPRODUCED' in l or 'ERROR: AddressSanitizer' in l or 'WARNING: ThreadSanitizer' in l or 'runtime error' in l or "what():" in l:
            return l.strip()
    return o.strip()[-200:]


def replay(C, work, v, head):
    if 'replay' in C:
        r = C['replay'](work, v, head, run_native)
        if r is not None:
            return r
    if head['kind'] == 'uninitialised':
        # AddressSanitizer does not see uninitialised reads: use memcheck on an uninstrumented build
        plain = work + '/plain'
        if not os.path.exists(plain + '/replay'):
            C2 = dict(C, nflags=['-O0'])
            os.makedirs(plain, exist_ok=True)
            rc, out = build_native(C2, plain, include_flags(C, work) + [f'-DTIER=0'], C['_h'], C['_s'])
            if rc:
                return False, out[-500:]
        c, o = run_native(plain, head['entry'], v, 300, ['valgrind', '-q', '--error-exitcode=42'])
        return c == 42, summary(o)
    if head['kind'] == 'race':
        # ThreadSanitizer, first with the schedule of the counterexample, then free-running
        ts = work + '/tsan'
        if not os.path.exists(ts + '/replay'):
            os.makedirs(ts, exist_ok=True)
            rc, out = build_native(dict(C, nflags=['-O1', '-fsanitize=thread']), ts, include_flags(C, work) + [f'-DTIER=0'], C['_h'], C['_s'])
            if rc:
                return False, out[-500:]
        for i in range(40):
            c, o = run_native(ts, head['entry'], v, 120, ['setarch', '-R'] if shutil.which('setarch') else [], {'SYM_FREE': str(i)} if i else {})
            if c == 42 or (isinstance(c, int) and c < 0):
                return True, summary(o) + (' (free-running)' if i else ' (schedule of the counterexample)')
        return False, f'rc {c}: {summary(o)}'
    c, o = run_native(work, head['entry'], v, 30)
    for i in range(100 if c in (0, 43) and re.search(r'^sched s ', open(v).read(), re.M) else 0):
        c, o = run_native(work, head['entry'], v, 30, [], {'SYM_FREE': str(i + 1)})
        if c not in (0, 43):
            break
    if c == 42:
        return True, summary(o)
    if isinstance(c, int) and c < 0:
        return True, f'killed by signal {-c}: {summary(o)}'
    if c == 'timeout' and head['kind'] in ('nontermination', 'deadlock'):
        return True, 'does not terminate within 30 s'
    return False, f'rc {c}: {summary(o)}'


def load_known(pid):
    r = []
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'finding: property=(\S+) entry=(\S+) match=/(.*?)/ (.*)', l)
        if m and m.group(1) == pid:
            r.append(dict(entry=m.group(2), match=m.group(3), text=m.group(4)))
    return r


def evidence(pid, C, tier, seed, res, state, wall, rc):
    cov = {}
    if res:
        fns = sorted({f'{f[0][:160]} ({f[1][len(REPO) + 1:]}:{f[2]})' for f in res['functions'] if f[1].startswith(REPO)})
        cov = {
            'states': res['paths'] + res['forks'], 'transitions': res['instrs'], 'traces_validated_against_impl': state['validated'],
            'samples': res['samples'] or ['(none completed)'],
            'paths_completed': res['paths'], 'paths_cut_by_assumptions': res['cut'], 'branch_forks': res['forks'],
            'assertions_decided': res['asserts'], 'assertion_queries_to_solver': res['assertq'],
            'queries': res['queries'], 'queries_sat': res['qsat'], 'queries_unsat': res['qunsat'], 'queries_unknown': res['qunk'],
            'solver_seconds': res['solver_us'] / 1e6, 'engine_seconds': res['time'],
            'repo_functions_encoded': fns, 'repo_functions_count': len(fns), 'all_functions_count': len(res['functions']),
            'entries': res['entry_paths'], 'witnesses_reached': res['labels'], 'bounds': C.get('bounds', ''), 'outside_bounds': C.get('outside', ''),
            'exhaustive': rc == 0, 'engine_errors': res['errors'], 'engine_error': res['errmsg'],
            'native_replay_mismatches': state['mismatch'],
        }
    else:
        cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [state['note'][:500]]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': C.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': C.get('assume', []) + COMMON_ASSUME, 'wall_s': round(wall, 2), 'violations': len(state['violations'])}
    if state['note']:
        ev['coverage']['note'] = state['note'][:2000]
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)


COMMON_ASSUME = [
    'clang 18 translates the sources to LLVM IR correctly; the IR is what is executed symbolically (x86-64, -O1 front end, no vectorisation)',
    'pisym (this repository) and Z3 4.8.12 are correct; explored paths are cross-checked by native replay',
    'out-of-line libstdc++/libc functions behave as modelled in rt/shim.cpp and engine/handlers.cpp',
]

if __name__ == '__main__':
    main()
