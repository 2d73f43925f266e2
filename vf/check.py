"""Decides one property: extracts /repo's current source, generates every
obligation mapped to the property, discharges them, and reports."""
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('LRUVF_REPO', '/repo')
sys.path.insert(0, HERE)

import z3                                   # noqa: E402
from program import Program                 # noqa: E402
import tags as T                            # noqa: E402
import units as U                           # noqa: E402

CLANG = '/usr/bin/clang++-18'
SLOW = {'clear_expired()': 40, 'all_expired()': 12, 'shrink(int)': 12, 'lookup(K)': 13, 'operator[](K)': 15, 'contains(K)': 13, 'capacity(int)': 8, 'operator=(vec)': 35, 'clear()': 4,
        'insert(vec)': 15, 'insert(ptr,ptr)': 15, 'insert(vecit,vecit)': 15, 'operator=(cache) copy': 22}


def cost(u):
    return SLOW.get(u.name, 3) * (1 if u.cls == 'Cache' else 1.3) * u.extra.get('cost', 1)


# ------------------------------------------------------------------ extraction
def build_plugin():
    src = os.path.join(VERIF, 'extract', 'lruvf_plugin.cpp')
    d = os.path.join(VERIF, 'build')
    so = os.path.join(d, 'plugin.so')
    if os.path.exists(so) and os.path.getmtime(so) >= os.path.getmtime(src):
        return so
    os.makedirs(d, exist_ok=True)
    tmp = so + '.%d' % os.getpid()
    subprocess.run([CLANG, '-O1', '-fPIC', '-shared', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
                    '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp], check=True)
    os.replace(tmp, so)
    return so


def extract(work):
    """Parse the library as the compiler does and export every instantiated
    function. Returns (path or None, log)."""
    so = build_plugin()
    out = os.path.join(work, 'ast.json')
    cmd = [CLANG, '-std=c++1z', '-w', '-fsyntax-only', '-include', VERIF + '/extract/prelude.hpp', '-I%s/include' % REPO, '-fplugin=' + so,
           '-fplugin-arg-lruvf-out=' + out, '-fplugin-arg-lruvf-root=%s/include' % REPO, '-fplugin-arg-lruvf-root=%s/extract' % VERIF,
           VERIF + '/extract/driver.cpp']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    return (out if r.returncode == 0 and os.path.exists(out) else None), r.stdout


# ------------------------------------------------------------------ one unit
class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


P = None
UNITS = None
PID = None
TIER = 'quick'


def solve_cvc5(E, ob, timeout):
    """Second opinion through SMT-LIB."""
    try:
        s = z3.Solver()
        for a in E.th.axioms:
            s.add(U.Z(a))
        for f in ob.pc:
            s.add(f)
        s.add(z3.Not(U.Z(ob.goal)))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--lang=smt2', '-'], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           timeout=timeout / 1000 + 10)
        w = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return w if w in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'


def run_unit(i):
    u = UNITS[i]
    res = {'unit': u.id, 'i': i, 'sig': u.sig, 'obs': 0, 'discharged': 0, 'trivial': 0, 'failed': [], 'undecided': [], 'solver': {}, 'time': 0.0,
           'inlined': [], 'contracts': [], 'loops': [], 'paths': 0, 'vacuous': 0, 'std': []}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(200 if TIER == 'quick' else 600)
    try:
        _run_unit(u, res)
    except U.Unsupported as e:
        res['undecided'].append('not within reach: %s' % e)
    except Timeout:
        res['undecided'].append('time limit')
    except MemoryError:
        res['undecided'].append('memory limit')
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res['undecided'].append('not within reach: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
    finally:
        signal.alarm(0)
    res['time'] = time.time() - t0
    return res


def _run_unit(u, res):
    E = U.symbolic(P, u)
    res['sym'] = time.time()
    res['paths'] = len(E.ends)
    res['inlined'] = sorted({P.sig(f) for f in E.inlined})
    res['contracts'] = sorted(E.used_contracts)
    res['std'] = sorted(E.used_std)
    res['loops'] = [str(x)[:300] for x in E.loopinfo]
    failed = {}
    weak = False
    whole = T.main_tags(u)
    for ob in E.obs:
        mine = T.tags(u, ob.kind)
        aborts = z3.is_false(ob.goal) if z3.is_expr(ob.goal) else ob.goal is False
        if aborts or ob.kind == 'safety':
            mine = mine | whole
        if PID is not None and PID not in mine and ob.kind != 'loop':
            continue
        res['obs'] += 1
        if U.is_true(ob.goal):
            res['discharged'] += 1
            res['trivial'] += 1
            continue
        key = (ob.kind, ob.name, ob.loc)
        if key in failed and failed[key]['n'] >= 2:
            failed[key]['n'] += 1
            continue
        r, s = U.solve(E, ob, 5000)
        by = 'z3'
        if r != 'unsat' and (key not in failed) and len(failed) < 12:
            r2 = solve_cvc5(E, ob, 8000)
            if r2 == 'unsat':
                r, by = r2, 'cvc5'
            else:
                s2 = z3.Solver()
                s2.set('timeout', 20000)
                s2.set('smt.mbqi', False)
                s2.set('smt.random_seed', 7)
                for f in E.th.axioms:
                    s2.add(U.Z(f))
                s2.add(*ob.pc)
                s2.add(z3.Not(U.Z(ob.goal)))
                if s2.check() == z3.unsat:
                    r = 'unsat'
                r = r2 if r != 'unsat' and r2 == 'sat' else r
        if r == 'unsat':
            res['discharged'] += 1
            res['solver'][by] = res['solver'].get(by, 0) + 1
            continue
        if key not in failed:
            failed[key] = {'kind': ob.kind, 'name': ob.name, 'line': ob.loc, 'n': 0, 'taint': ob.taint, 'result': r, 'paths': len(E.ends), 'tags': sorted(mine)}
        elif not ob.taint:
            failed[key]['taint'] = ob.taint
        failed[key]['n'] += 1
    # vacuity: some path must be feasible
    feasible = 0
    for pc in E.ends:
        s = z3.Solver()
        s.set('timeout', 400)
        s.set('smt.mbqi', False)
        s.add(*pc)
        if s.check() == z3.unsat:
            res['vacuous'] += 1
        else:
            feasible += 1
            if feasible > 3:
                break
    if not feasible and not failed:
        res['undecided'].append('no feasible path: the obligations would hold vacuously')
    if res['obs'] == 0 and PID is None:
        res['undecided'].append('no obligation was generated')
    loopbad = [f for f in failed.values() if f['kind'] == 'loop']
    for f in failed.values():
        if f['kind'] == 'loop':
            res['undecided'].append('loop invariant not established: ' + f['name'])
        elif f['taint'] or loopbad:
            res['undecided'].append('needs a stronger loop invariant: %s (%s)' % (f['name'], f['taint'] or 'loop'))
        else:
            res['failed'].append(f)


# ------------------------------------------------------------------ exploration
def build_explorer(work):
    """Returns (binary or None, log)."""
    flags = ['-std=c++1z', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-w']
    ps, objs = [], []
    for p in range(4):
        o = os.path.join(work, 'ex%d.o' % p)
        objs.append(o)
        ps.append(subprocess.Popen(['g++'] + flags + ['-DPART=%d' % p, '-include', VERIF + '/extract/prelude.hpp', '-I%s/include' % REPO, '-c',
                                    VERIF + '/explore/explore.cpp', '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    log = ''
    ok = True
    for p in ps:
        out, _ = p.communicate()
        if p.returncode:
            ok = False
            log += out[:6000]
    if not ok:
        return None, log
    b = os.path.join(work, 'explore')
    r = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + ['-o', b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (b if r.returncode == 0 else None), r.stdout


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:color=never', UBSAN_OPTIONS='print_stacktrace=0')

CRASHTAGS = {
    'find': 'C02 C08 C09', 'contains': 'C02 C08 C09', 'lookup': 'C02 C08 C09',
}


def replay(binary, path):
    """(diverges, tags, what) of one script."""
    try:
        r = subprocess.run([binary, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=40, env=ENV)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        return True, {'C09'}, 'does not terminate'
    if rc == 0:
        return False, set(), ''
    m = re.search(r'^TAGS (.*)$', out, re.M)
    w = re.search(r'^WHAT (.*)$', out, re.M)
    if rc == 3 and w:
        return True, set(m.group(1).split()) if m else set(), w.group(1)
    if rc == 9:
        return False, set(), ''
    e = re.search(r'ERROR: (AddressSanitizer: [\w-]+.*|.*)$', out, re.M) or re.search(r'runtime error: (.*)$', out, re.M) or re.search(r"Assertion.*$", out, re.M) \
        or re.search(r'terminate called.*$', out, re.M)
    what = e.group(0)[:300] if e else ('hang' if rc == -14 else 'exit status %d' % rc)
    t = {'C09'}
    if 'terminate' in out and 'AddressSanitizer: ' not in out:
        t.add('C19')
    return True, t, what


def optags(lines, upto):
    """Properties the operations of a (minimised) crashing script bear on."""
    m = {'find': 'C02 C08', 'cfind': 'C02 C08', 'contains': 'C02 C08', 'lookup': 'C02 C08', 'clookup': 'C02 C08', 'index': 'C02 C08', 'cindex': 'C02 C08',
         'insert': 'C03 C06', 'emplace': 'C03 C06', 'emplacem': 'C06', 'emplace3': 'C06', 'insertalias': 'C06 C03', 'emplacealias': 'C06 C03', 'erase': 'C07 C08', 'eraseu': 'C07',
         'eraseo': 'C07', 'clear': 'C07 C08', 'shrink': 'C05', 'capacity': 'C05', 'bulk': 'C06', 'assign': 'C12', 'make': 'C12', 'copy': 'C10', 'copyassign': 'C10',
         'destroycopy': 'C10', 'move': 'C11', 'moveassign': 'C11', 'swap': 'C11', 'monitor': 'C13', 'stats': 'C14', 'callback': 'C15', 'expiry': 'C17 C16',
         'iterate': 'C18', 'equal': 'C22', 'ends': 'C19', 'wcall': 'C20', 'hash': 'C21', 'wnew': 'C20'}
    t = set()
    for l in lines:
        t |= set(m.get(l.split()[0], '').split())
    return t


def minimise(binary, script, work, budget=45):
    """Greedy deletion of operations."""
    head, ops = script[0], script[1:]
    t0 = time.time()
    path = os.path.join(work, 'min.script')

    def diverges(o):
        with open(path, 'w') as f:
            f.write('\n'.join([head] + o) + '\n')
        return replay(binary, path)
    n = max(1, len(ops) // 2)
    while n >= 1:
        i = 0
        while i < len(ops) and time.time() - t0 < budget:
            o = ops[:i] + ops[i + n:]
            if diverges(o)[0]:
                ops = o
            else:
                i += n
        n = n // 2 if n > 1 else 0
        if time.time() - t0 >= budget:
            break
    d = diverges(ops)
    return [head] + ops, d


def explore(work, seed, secs, wanted=None, rounds=3):
    """Random histories on 8 processes. Returns dict with 'found' (or None)."""
    info = {'scripts': 0, 'operations': 0, 'found': None, 'others': []}
    b, log = build_explorer(work)
    if b is None:
        b, log = build_explorer(work)  # not for lack of memory at the time
    if b is None:
        # only errors in the text of the program say something about it
        if re.search(r'^/.*: error: ', log, re.M) and os.path.exists(REPO + '/include/lru/lru.hpp'):
            info['compile'] = log
        else:
            info['nobuild'] = log[:500]
        return info
    t0 = time.time()
    rnd = 0
    deadline = t0 + secs
    while time.time() < deadline - 1 and rnd < 40:
        left = deadline - time.time()
        ps = []
        for j in range(8):
            st = os.path.join(work, 'st%d' % j)
            ps.append((subprocess.Popen([b, 'run', str(seed * 7919 + rnd * 64 + j), '%.1f' % left, st], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                        errors='replace', env=ENV), st))
        # stop everyone at the first divergence
        done = None
        while time.time() < deadline + 15:
            for j, (p, st) in enumerate(ps):
                if p.poll() is not None and p.returncode != 0:
                    done = j
                    break
            if done is not None or all(p.poll() is not None for p, _ in ps):
                break
            time.sleep(0.05)
        if done is not None:
            time.sleep(0.3)
        cands = []
        for p, st in ps:
            if p.poll() is None:
                p.kill()
            out, _ = p.communicate()
            m = re.search(r'^COUNT (\d+) (\d+)', out or '', re.M)
            if m:
                info['scripts'] += int(m.group(1))
                info['operations'] += int(m.group(2))
            if p.returncode not in (0, -9, 9):
                raw = open(st, 'rb').read()[16:]
                cands.append(raw.split(b'\0')[0].decode().strip().split('\n'))
        for sc in cands[:3]:
            path = os.path.join(work, 'cand.script')
            with open(path, 'w') as f:
                f.write('\n'.join(sc) + '\n')
            if not replay(b, path)[0]:
                continue
            mn, (div, tg, what) = minimise(b, sc, work, 20)
            if not div:
                continue
            tg = tg | (optags(mn[1:], 0) if tg <= {'C09', 'C19'} else set())
            # operations the divergence cannot do without (deleting them makes it go away)
            narrow = {'shrink': 'C05', 'capacity': 'C05', 'copy': 'C10', 'copyassign': 'C10', 'destroycopy': 'C10', 'move': 'C11', 'moveassign': 'C11',
                      'swap': 'C11', 'assign': 'C12', 'stats': 'C14', 'expiry': 'C17', 'equal': 'C22', 'erase': 'C07', 'eraseu': 'C07', 'eraseo': 'C07',
                      'clear': 'C07', 'bulk': 'C06'}
            tg = tg | {narrow[l.split()[0]] for l in mn[1:] if l.split()[0] in narrow}
            rec = {'script': mn, 'tags': sorted(tg), 'what': what}
            if wanted is None or wanted in tg:
                info['found'] = rec
                return info
            info['others'].append(rec)
        rnd += 1
        if done is None:
            break
        if len(info['others']) >= 6:
            break
    return info


# ------------------------------------------------------------------ main
TRUSTED = [
    'the clang 18 front end and the plugin that exports the instantiated AST (extract/)',
    'the symbolic executor and its memory model (vf/interp.py, vf/loops.py, vf/bulk.py)',
    'contracts assumed for the C++ standard library (vf/stdlib.py)',
    'z3 and cvc5',
]
ASSUMPTIONS = [
    'key, value, hash and equality operations do not throw, are pure, and equality is an equivalence consistent with hashing',
    'callbacks do not call back into the cache and do not throw',
    'no container holds 2^62 elements and no counter of events reaches 2^62 (size_t arithmetic itself is modelled modulo 2^64); durations are mathematical integers or reals',
    'arguments are valid objects; iterators passed belong to the cache and denote a stored entry or the end',
    'a source range passed as an rvalue does not alias the cache; memory allocation succeeds',
    'standard-library contracts: moved-from containers are empty, swap and move of containers keep element addresses (libstdc++)',
]


def main():
    global P, UNITS, PID, TIER
    PID = sys.argv[1]
    TIER = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        TIER = sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='lruvf.')
    try:
        return decide(work, seed, t0)
    except Exception as e:
        # a fault of the machinery is not a verdict: fall back to exploration
        import traceback
        traceback.print_exc()
        return fallback(work, seed, t0, 'the verifier failed: %s: %s' % (type(e).__name__, str(e)[:200]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            l = l.strip()
            if l.startswith('known:'):
                m = re.match(r'known: property=(\S+) unit=(\S+) obligation="([^"]*)" (.*)$', l)
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def decide(work, seed, t0):
    global P, UNITS
    path, log = extract(work)
    results, undecided = [], []
    if path is None:
        undecided.append('extraction: the library does not instantiate: ' + '; '.join(re.findall(r'error: [^\n]*', log)[:3]))
        UNITS = []
        units = []
    else:
        P = Program(path)
        try:
            UNITS = U.enumerate_units(P)
        except Exception as e:
            UNITS = []
            undecided.append('enumeration: %s' % str(e)[:300])
        units = []
        for i, u in enumerate(UNITS):
            tg = T.unit_tags(u)
            if PID in tg and (TIER != 'quick' or u.cls != 'TimedI' or u.group in ('look', 'expiry', 'insert', 'ctor', 'eq')):
                units.append(i)
        want = required(PID)
        have = {u.key for u in UNITS}
        for w in sorted(want - have):
            undecided.append('function %s is not there' % w)
        for msg in getattr(U, 'PROBLEMS', []):
            undecided.append(msg)
        units.sort(key=lambda i: -cost(UNITS[i]))
        budget = 420 if TIER == 'quick' else 2400
        if units:
            with mp.Pool(min(8, os.cpu_count() or 8)) as pool:
                it = pool.imap_unordered(run_unit, units, chunksize=1)
                left = set(units)
                while left:
                    try:
                        r = it.next(timeout=max(1, budget - (time.time() - t0)))
                    except StopIteration:
                        break
                    except mp.TimeoutError:
                        break
                    left.discard(r['i'])
                    results.append(r)
                pool.terminate()
            for i in left:
                undecided.append('%s: time limit' % UNITS[i].id)
    failed, known = [], []
    kf = known_findings()
    for r in results:
        for f in r['failed']:
            k = [x for x in kf if x[0] == PID and x[1] == r['unit'].replace(' ', '_') and x[2] == f['name']]
            if k:
                known.append((r, f, k[0]))
            else:
                failed.append((r, f))
        for x in r['undecided']:
            undecided.append('%s: %s' % (r['unit'], x))
    for r, f, k in known:
        print('KNOWN-FINDING: property=%s %s' % (PID, k[3]))
    violations = 0
    exinfo = None
    line = None
    if failed or undecided:
        secs = 30 if TIER == 'quick' else 150
        exinfo = explore(work, seed, secs, None if failed else PID)
        rp = os.path.join(VERIF, 'replay')
        os.makedirs(rp, exist_ok=True)
        rfile = os.path.join(rp, PID + '.txt')
        head = ['# property %s' % PID]
        for r, f in failed[:20]:
            head.append('# failed obligation: %s :: [%s] %s (%d path(s); solver: %s; source line %s)' % (r['unit'], f['kind'], f['name'], f['n'], f['result'], f['line']))
            head.append('#   of %s' % r['sig'])
        for x in undecided[:20]:
            head.append('# undecided: ' + x)
        fnd = exinfo['found'] or (exinfo['others'][0] if exinfo['others'] and failed else None)
        if fnd is not None:
            head.append('# diverges: ' + fnd['what'])
            head.append('# replay: explore/replay.sh %s' % rfile)
            with open(rfile, 'w') as f:
                f.write('\n'.join(head + fnd['script']) + '\n')
            line = 'VIOLATION property=%s replay=%s' % (PID, rfile)
        elif failed or exinfo.get('compile'):
            with open(rfile, 'w') as f:
                f.write('\n'.join(head) + '\n')
                if exinfo.get('compile'):
                    f.write('# the public interface does not compile as documented:\n')
                    f.write('\n'.join('# ' + x for x in exinfo['compile'].split('\n')[:40]) + '\n')
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (PID, rfile)
    write_evidence(results, undecided, failed, known, exinfo, seed, t0, 1 if line else 0)
    for r, f in failed[:10]:
        print('failed: %s [%s] %s' % (r['unit'], f['kind'], f['name']))
    for x in undecided[:10]:
        print('undecided (bounded exploration stands in): ' + x[:300])
    n = sum(r['obs'] for r in results)
    d = sum(r['discharged'] for r in results)
    print('%s: %d/%d obligations discharged over %d functions in %.1fs' % (PID, d, n, len(results), time.time() - t0))
    if line:
        print(line)
        return 1
    return 0


def fallback(work, seed, t0, why):
    ex = explore(work, seed, 30, PID)
    line = None
    if ex['found']:
        rp = os.path.join(VERIF, 'replay')
        os.makedirs(rp, exist_ok=True)
        rfile = os.path.join(rp, PID + '.txt')
        with open(rfile, 'w') as f:
            f.write('\n'.join(['# property %s' % PID, '# diverges: ' + ex['found']['what']] + ex['found']['script']) + '\n')
        line = 'VIOLATION property=%s replay=%s' % (PID, rfile)
    write_evidence([], [why], [], [], ex, seed, t0, 1 if line else 0)
    print('undecided (bounded exploration stands in): ' + why)
    if line:
        print(line)
        return 1
    return 0


def required(pid):
    try:
        d = json.load(open(os.path.join(HERE, 'required.json')))
    except OSError:
        return set()
    return {k for k, ts in d.items() if pid in ts}


def write_evidence(results, undecided, failed, known, exinfo, seed, t0, violations):
    n = sum(r['obs'] for r in results)
    d = sum(r['discharged'] for r in results)
    solver = {'simplifier': sum(r['trivial'] for r in results)}
    for r in results:
        for k, v in r['solver'].items():
            solver[k] = solver.get(k, 0) + v
    inl = set()
    con = set()
    std = set()
    for r in results:
        inl |= set(r['inlined'])
        con |= set(r['contracts'])
        std |= set(r['std'])
    cov = {
        'obligations': n, 'discharged': d,
        'checker_cmd': 'VERIF_TIER=%s /verif/check %s' % (TIER, PID),
        'trusted_base': TRUSTED + ['assumed contract: ' + s for s in sorted(std)],
        'discharged_by': solver,
        'functions_under_contract': [{'unit': r['unit'], 'function': r['sig'], 'obligations': r['obs'], 'discharged': r['discharged'], 'paths': r['paths'],
                                      'seconds': round(r['time'], 2), 'loops': r['loops']} for r in sorted(results, key=lambda r: r['unit'])],
        'functions_executed_inline': sorted(inl),
        'functions_taken_at_contract': sorted(con),
        'solver_and_execution_seconds': round(sum(r['time'] for r in results), 1),
        'undecided': undecided,
        'failed': ['%s: %s' % (r['unit'], f['name']) for r, f in failed],
        'paths': sum(r['paths'] for r in results),
    }
    if exinfo:
        cov['bounded_exploration'] = {'scripts': exinfo['scripts'], 'operations': exinfo['operations'],
                                      'note': 'bounded stand-in for the undecided functions only; not counted as proved'}
    ev = {'property': PID, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', PID + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        build_plugin()
        sys.exit(0)
    if len(sys.argv) > 1 and sys.argv[1] == '--required':
        w = tempfile.mkdtemp(prefix='lruvf.')
        p, log = extract(w)
        P = Program(p)
        d = {}
        for u in U.enumerate_units(P):
            d.setdefault(u.key, set()).update(T.unit_tags(u))
        json.dump({k: sorted(v) for k, v in sorted(d.items())}, open(os.path.join(HERE, 'required.json'), 'w'), indent=0)
        shutil.rmtree(w)
        sys.exit(0)
    sys.exit(main())
