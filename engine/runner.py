"""Runs the contracts of one property: compile -> symbolic execution -> discharge -> report."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import multiprocessing as mp
import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVDIR = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'specs')]
from irparse import Module           # noqa: E402
import symex                         # noqa: E402
from symex import Unsupported, Budget, isz, short   # noqa: E402
import specset                        # noqa: E402

CXX = 'clang++-18'
FLAGS = ['-std=gnu++17', '-DSTRING_NAMES=1', '-DL1D_CACHE_LINE_SIZE=64', '-I' + os.path.join(HERE, 'tu'), '-I' + os.path.join(HERE, 'stubs'),
         '-I' + REPO, '-I' + REPO + '/raftinc', '-w', '-fno-access-control']
IRFLAGS = ['-S', '-emit-llvm', '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone']


class TaskTimeout(Exception):
    pass


def compile_tu(tu, out):
    p = subprocess.run([CXX] + FLAGS + IRFLAGS + [os.path.join(HERE, 'tu', tu + '.cpp'), '-o', out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')


def tags(name):
    m = re.match(r'^\[([^\]]*)\]', name)
    return set(m.group(1).split(',')) if m else None


MODS = {}
TASKS = []


def discharge(ex, obs, prop, tlimit, both=False):
    """list of (name, loc, fn, verdict, backend, seconds, model)"""
    full = z3.Solver()
    full.set('timeout', int(tlimit * 1000))
    symex.add_all(full, ex.axioms)
    many = len(ex.axioms) > 600
    res = []
    for o in obs:
        t = time.time()
        fs = [h for h in o.hyp if h is not True] + [z3.Not(o.goal) if isz(o.goal) else z3.BoolVal(not o.goal)]
        r = None
        if many:
            S = z3.Solver()
            S.set('timeout', int(tlimit * 1000))
            symex.add_all(S, ex.relevant_axioms(fs))
            symex.add_all(S, fs)
            r = S.check()
        full.push()
        if r != z3.unsat:        # with every axiom
            S = full
            symex.add_all(S, fs)
            r = S.check()
        backend = 'z3 ' + z3.get_version_string()
        model = ''
        if r == z3.sat:
            m = S.model()
            model = {str(d): str(m[d]) for d in m.decls() if d.arity() == 0 and not re.search(r'!\d+$', str(d))}
        verdict = 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
        if r == z3.unknown or both:
            v2 = cvc5_check(S.to_smt2(), tlimit * 2)
            if r == z3.unknown and v2 == 'unsat':
                verdict, backend = 'proved', 'cvc5'
            elif r == z3.unknown and v2 == 'sat':
                verdict, backend = 'failed', 'cvc5'
            elif both and v2 == 'unsat' and verdict == 'proved':
                backend += '+cvc5'
            elif both and v2 == 'sat' and verdict == 'proved':
                verdict = 'failed'
        full.pop()
        res.append(dict(name=o.name, loc=o.loc, fn=short(o.fn) if o.fn else '', verdict=verdict, backend=backend,
                        s=time.time() - t, model=model, kind=o.kind, trace=list(o.trace)[-40:] if o.trace else []))
    return res


def cvc5_check(smt, tl):
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(tl * 1000), '-q'], input=('(set-logic ALL)\n' + smt).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tl + 5)
        return p.stdout.decode().split()[0] if p.stdout.split() else 'unknown'
    except Exception:
        return 'unknown'


def on_alarm(*a):
    raise TaskTimeout()


def run_task(a):
    ti, prop, tl, tier = a
    task = TASKS[ti]
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(tl))
    t0 = time.time()
    out = dict(task=task.name, tu=task.tu, status='ok', obs=[], s=0, reason='', fns=[], trusted=[], callee_contracts=[], paths=0)
    try:
        mod = MODS[task.tu]
        if isinstance(mod, str):
            raise Unsupported('translation unit does not compile: ' + mod[:300])
        r = task.run(mod)
        allobs = r.ex.obs
        tagged = set()
        for o in allobs:
            tagged |= (tags(o.name) or set())
        out['props'] = sorted(tagged)
        out['paths'] = r.ex.npaths
        own = getattr(r.ex, 'cur', None)
        out['fns'] = sorted({short(f) for f in r.ex.inlined} | ({short(own)} if own else set()))
        out['callee_contracts'] = sorted({'%s (%s)' % (short(d), n) for n, d, t in r.ex.used_contracts if not t})
        out['trusted'] = sorted({n for n, d, t in r.ex.used_contracts if t} | {short(d) for d in r.ex.used_ext})
        if prop in tagged or prop in task.also:
            mine = [o for o in allobs if prop in task.also or tags(o.name) is None or prop in tags(o.name)]
            out['obs'] = discharge(r.ex, mine, prop, 10 if tier == 'quick' else 60, tier != 'quick')
            if not any(o['name'].startswith('[') for o in out['obs']):
                pass
            for c in task.vacuity(r):
                out['obs'].append(c)
        else:
            out['status'] = 'other'
        out['generated'] = len(allobs)
    except TaskTimeout:
        out['status'], out['reason'] = 'unsupported', 'time limit of %d s' % tl
    except (Unsupported, Budget) as e:
        out['status'], out['reason'] = 'unsupported', '%s: %s' % (type(e).__name__, str(e)[:400])
    except Exception as e:
        out['status'], out['reason'] = 'unsupported', 'internal: %s %s' % (type(e).__name__, str(e)[:200] + ' | ' + traceback.format_exc()[-600:])
    finally:
        signal.alarm(0)
    out['s'] = time.time() - t0
    return out


PREP = []


def run_prep(i):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    try:
        return bool(specset.prepare_run(PREP[i][1]))
    except Exception:
        return False
    finally:
        signal.alarm(0)


def prop_tasks(prop):
    return [t for t in specset.tasks() if t.serves(prop)]


def load_known():
    p = os.path.join(HERE, 'known-findings.txt')
    known = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) match=(\S+) (.*)$', l)
                if m:
                    known.append((m.group(1), m.group(2), m.group(3)))
    return known


HARNESS = []


def harness(prop, build):
    return os.path.join(build, 'replay_' + specset.replay_driver(prop))


def start_harness(prop, build):
    """compiles the execution harness (in the background)"""
    drv = specset.replay_driver(prop)
    return subprocess.Popen([CXX, '-std=gnu++17', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr'] + FLAGS[1:] +
                            [os.path.join(HERE, 'replay', drv + '.cpp'), '-o', harness(prop, build), '-pthread'],
                            stdout=open(os.path.join(build, 'harness.log'), 'wb'), stderr=subprocess.STDOUT)


def replay(prop, build, seconds, seed, extra=()):
    """model based executions of the real code; (found, text)"""
    exe = harness(prop, build)
    if HARNESS:
        HARNESS.pop().wait(timeout=300)
    elif not os.path.exists(exe):
        start_harness(prop, build).wait(timeout=300)
    if not os.path.exists(exe):
        return False, 'the execution harness does not compile against this tree:\n' + open(os.path.join(build, 'harness.log'), errors='replace').read()[:2000]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=1')
    text = ''
    for args in ([[str(x) for x in e] for e in extra] + [[]]):
        try:
            p = subprocess.run([exe, prop, str(seed), str(seconds)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds + 60, env=env, cwd=build)
            o = p.stdout.decode(errors='replace')
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            o, rc = (e.stdout or b'').decode(errors='replace'), 'timeout'
        text += '$ %s %s %s %s %s\n%s\n(exit %s)\n' % (os.path.basename(exe), prop, seed, seconds, ' '.join(args), o[-6000:], rc)
        for l in o.splitlines():
            m = re.match(r'^FAIL ((?:C\d\d ?)+)', l)
            if m and prop in m.group(1).split():
                return True, text
    return False, text


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    build = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return main2(prop, tier, seed, build, t0)
    finally:
        shutil.rmtree(build, ignore_errors=True)


def main2(prop, tier, seed, build, t0):
    tasks = prop_tasks(prop)
    tus = sorted({t.tu for t in tasks})
    ncpu = min(8, os.cpu_count() or 4)
    procs = {}
    logs = {}
    for tu in tus:
        out = os.path.join(build, tu + '.ll')
        procs[tu] = subprocess.Popen([CXX] + FLAGS + IRFLAGS + [os.path.join(HERE, 'tu', tu + '.cpp'), '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    standin = specset.BOUNDED.get(prop)
    if standin:
        HARNESS.append(start_harness(prop, build))
    for tu, p in procs.items():
        try:
            o, _ = p.communicate(timeout=300)
            logs[tu] = o.decode(errors='replace') if p.returncode else ''
        except subprocess.TimeoutExpired:
            p.kill()
            logs[tu] = 'compiler time-out'
    for tu in tus:
        try:
            MODS[tu] = Module(open(os.path.join(build, tu + '.ll')).read()) if not logs[tu] else logs[tu]
        except Exception as e:
            MODS[tu] = 'IR not readable: %r' % e
    t1 = time.time()
    PREP[:] = specset.prepare_jobs(MODS, tasks)
    if PREP:
        with mp.get_context('fork').Pool(ncpu) as pool:
            specset.prepare_done(MODS, list(zip([k for k, j in PREP], pool.map(run_prep, range(len(PREP)), 1))))
    tl = 150 if tier == 'quick' else 900
    deadline = t0 + (600 if tier == 'quick' else 6 * 3600)
    TASKS[:] = sorted(tasks, key=lambda t: -t.cost)
    results = []
    ctx = mp.get_context('fork')
    with ctx.Pool(ncpu, maxtasksperchild=4) as pool:
        it = [(TASKS[i], pool.apply_async(run_task, ((i, prop, tl, tier),))) for i in range(len(TASKS))]
        for t, a in it:
            try:
                results.append(a.get(max(1, deadline - time.time())))
            except mp.TimeoutError:
                results.append(dict(task=t.name, tu=t.tu, status='unsupported', reason='global time limit', obs=[], s=0, fns=[], trusted=[], callee_contracts=[], paths=0))
        pool.terminate()
    results = [r for r in results if r['status'] != 'other']
    obs = [(r, o) for r in results for o in r['obs']]
    failed = [(r, o) for r, o in obs if o['verdict'] == 'failed']
    unknown = [(r, o) for r, o in obs if o['verdict'] == 'unknown']
    unsupported = [r for r in results if r['status'] == 'unsupported']
    known = [k for k in load_known() if k[0] == prop]
    bounded = ''
    violation = None
    hit = set()
    newfail = []
    for r, o in failed:
        k = [i for i, kk in enumerate(known) if re.search(kk[1], '%s/%s:%s' % (r['tu'], r['task'], o['name']))]
        if k:
            hit.update(k)
        else:
            newfail.append((r, o))
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[i][2]))
    os.makedirs(EVDIR, exist_ok=True)
    rp = os.path.join(EVDIR, 'replay-%s.txt' % prop)
    if os.path.exists(rp):
        os.remove(rp)
    if newfail:
        # the verifier's counterexample and a search around it, on the real code
        extra = []
        for r, o in newfail:
            m = o['model'] or {}
            try:
                c, a = int(m.get('cap', '')), int(m.get('rp', ''))
                w, lw, lr = int(m.get('wp', '')), int(m.get('wlap', '0')), int(m.get('rlap', '0'))
                n = w - a if lw == lr else c - a + w
                if 1 <= c <= 5000 and [c, a, n] not in extra and len(extra) < 3:
                    extra.append([c, a, n])
            except ValueError:
                pass
        found, text = replay(prop, build, 20 if tier == 'quick' else 120, seed, extra)
        violation = (found, text)
    elif unsupported or unknown or standin:
        found, text = replay(prop, build, (40 if unsupported or unknown else 15) if tier == 'quick' else 300, seed)
        bounded = text[-1500:]
        if found:
            violation = (True, text)
    proved = [o for r, o in obs if o['verdict'] == 'proved']
    byback = {}
    for o in proved:
        byback[o['backend']] = byback.get(o['backend'], 0) + 1
    fns = sorted({f for r in results for f in r['fns']})
    trusted = sorted({f for r in results for f in r['trusted']})
    ccs = sorted({f for r in results for f in r['callee_contracts']})
    groups = {}
    for r in results:
        groups.setdefault(r['tu'], []).append(r['task'])
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2),
              violations=len(newfail) if violation and newfail else (1 if violation else 0),
              coverage=dict(obligations=len(obs), discharged=len(proved),
                            checker_cmd='python3-vt /verif/check.py %s' % prop,
                            trusted_base=specset.TRUSTED + ['contract assumed: ' + t for t in trusted],
                            by_backend=byback, solver_s=round(sum(o['s'] for r, o in obs), 2),
                            verifier_cpu_s=round(sum(r['s'] for r in results), 2), paths=sum(r['paths'] for r in results),
                            contracts=sum(len(v) for v in groups.values()), contracts_by_unit={k: sorted(v) for k, v in sorted(groups.items())},
                            functions_under_contract=fns, functions_verified=len(fns), calls_replaced_by_verified_contracts=ccs,
                            failed=['%s/%s: %s at %s' % (r['tu'], r['task'], o['name'], o['loc']) for r, o in failed][:50],
                            undecided=['%s/%s: %s' % (r['tu'], r['task'], o['name']) for r, o in unknown][:50],
                            out_of_reach=['%s/%s: %s' % (r['tu'], r['task'], r['reason']) for r in unsupported][:50],
                            bounded_standin=(dict(label='bounded, not counted as proved', functions=standin or 'those of the tasks out of reach', output=bounded) if bounded else None),
                            samples=['%s/%s: %s' % (r['tu'], r['task'], o['name']) for r, o in obs if o['verdict'] == 'proved' and prop in o['name']][:12]),
              assumptions=specset.assumptions(prop))
    with open(os.path.join(EVDIR, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d contracts, %d obligations, %d proved, %d failed, %d undecided, %d out of reach; %.1f s'
          % (prop, len(results), len(obs), len(proved), len(failed), len(unknown), len(unsupported), time.time() - t0))
    for r in unsupported:
        print('  out of reach: %s/%s: %s' % (r['tu'], r['task'], r['reason'][:300]))
    for r, o in unknown[:10]:
        print('  undecided: %s/%s: %s at %s' % (r['tu'], r['task'], o['name'], o['loc']))
    if violation:
        found, text = violation
        with open(rp, 'w') as fh:
            fh.write('property %s\n\n' % prop)
            for r, o in newfail[:30]:
                fh.write('FAILED OBLIGATION %s/%s: %s\n  at %s in %s\n  counterexample: %s\n  path: %s\n\n' %
                         (r['tu'], r['task'], o['name'], o['loc'], o['fn'], o['model'], ' '.join(str(x) for x in o['trace'])))
            fh.write('EXECUTION OF THE REAL CODE (%s)\n%s\n' % ('failing history found' if found else 'no failing history found', text))
        for r, o in newfail[:10]:
            print('  failed: %s/%s: %s at %s' % (r['tu'], r['task'], o['name'], o['loc']))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if found else ' no-failing-input-found'))
        return 1
    if not obs:
        print('  nothing could be verified; bounded stand-in only')
    return 0


def setup():
    """nothing is installed or built ahead: report the tools the checks rely on"""
    ok = True
    for c in (CXX, 'cvc5'):
        p = shutil.which(c)
        print('%s: %s' % (c, p))
        ok = ok and bool(p)
    print('z3', z3.get_version_string())
    return 0 if ok else 1
