"""Runs the contracts of a property: proof obligations from /repo's current source, the same contracts executed
on the real code (cross-check, refuter, replay), verdict, evidence."""
import ast
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
OUT = os.path.join(HERE, 'out')
sys.setrecursionlimit(20000)

class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


# ----------------------------------------------------------------- the real package
def sha(path):
    return hashlib.sha256(open(path, 'rb').read()).hexdigest()


PYX = [('src/utils.pyx', 'pystruct/models/utils'), ('pystruct/inference/_viterbi.pyx', 'pystruct/inference/_viterbi')]


def prepare_package(tmp):
    """a copy of the package whose extension modules are built from the current Cython sources"""
    import shutil
    import sysconfig
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    dst = os.path.join(tmp, 'pystruct')
    shutil.copytree(os.path.join(REPO, 'pystruct'), dst,
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.c', 'tests', 'datasets'))
    ds = os.path.join(REPO, 'pystruct', 'datasets')
    if os.path.isdir(ds):
        os.makedirs(os.path.join(dst, 'datasets'), exist_ok=True)
        for f in os.listdir(ds):
            if f.endswith('.py'):
                shutil.copy(os.path.join(ds, f), os.path.join(dst, 'datasets', f))
    built = []
    for pyx, mod in PYX:
        src = os.path.join(REPO, pyx)
        so = os.path.join(REPO, mod + suffix)
        target = os.path.join(tmp, mod + suffix)
        if fresh_build(pyx, mod, so):
            shutil.copy(so, target)
        else:
            built.append(pyx)
            build_ext(src, target, tmp, mod)
    return built


def fresh_build(pyx, mod, so):
    """is the extension in /repo the one built from the current source (stamp of the project's build)"""
    try:
        import Cython
        import numpy
        key = '%s %s %s %s ' % (sys.version, Cython.__version__, numpy.__version__, pyx)
        digest = hashlib.sha256(key.encode() + open(os.path.join(REPO, pyx), 'rb').read()).hexdigest()
        stamp = os.path.join(REPO, 'build', 'vp', os.path.basename(mod) + '.stamp')
        return open(stamp).read() == digest + ' ' + sha(so)
    except (OSError, ImportError):
        return False


def build_ext(src, target, tmp, mod):
    import numpy
    import sysconfig
    c = os.path.join(tmp, os.path.basename(mod) + '.c')
    subprocess.run([sys.executable, '-m', 'cython', '-2', src, '-o', c], check=True, stdout=subprocess.DEVNULL,
                   stderr=subprocess.PIPE, cwd=os.path.dirname(src))
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I', numpy.get_include(), '-I',
                    sysconfig.get_paths()['include'], c, '-o', target], check=True, stderr=subprocess.PIPE)


# ----------------------------------------------------------------- contracts
def contract_file(prop):
    return os.path.join(HERE, 'contracts', prop + '.py')


def contract_names(prop):
    tree = ast.parse(open(contract_file(prop)).read())
    return [(st.name, ast.get_docstring(st) or st.name) for st in tree.body
            if isinstance(st, ast.FunctionDef) and st.name.startswith('c_')]


def module_consts(prop):
    """BOUNDED: contracts that are only checked by bounded execution, with the reason"""
    ns = {}
    tree = ast.parse(open(contract_file(prop)).read())
    for st in tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and \
                st.targets[0].id in ('BOUNDED', 'ASSUMES', 'FUNCS'):
            ns[st.targets[0].id] = ast.literal_eval(st.value)
    return ns


# ----------------------------------------------------------------- symbolic run
def run_symbolic(prop, name, limit, z3_ms=None):
    from . import interp as X, nplib as N, symdsl as D, prover, loops, terms as T, extlib
    if z3_ms:
        prover.Z3_TIMEOUT = z3_ms
    from .values import W, PyRaise
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    I = X.I
    res = dict(name=name, status='proved', obligations=0, discharged=0, failed=[], reason=None, paths=0)
    try:
        I.reset(REPO)
        N.install(I)
        extlib.install(I)
        D.install()
        mod = X.Module('contracts.' + prop, contract_file(prop))
        I.modules['contracts.' + prop] = mod
        f = I.mod_get(mod, name)
        by = {}
        live = [0]
        base_ext = snapshot_ext(I)

        def thunk():
            I.overrides.clear()
            restore_ext(I, base_ext)
            D.LED.obl = []
            loops.CANDIDATES[:] = []
            loops.SPLITS[:] = []
            loops.QUIET[:] = [0, 0]
            D.LED.stubs = []
            I.depth = 0
            return I.call(f, [], {})

        def on_end(o):
            if o.kind == 'raise':
                if prover.feasible():
                    D.record('no exception', False, '%s: %s' % (o.value.name, o.value.msg))
                else:
                    return
            if D.LED.obl and live[0] < 1 and prover.feasible():
                live[0] += 1
            for label, ok, det in D.LED.obl:
                by.setdefault(label, []).append((ok, det))
            res['stubs'] = sorted(set(D.LED.stubs))
        outs = X.explore(thunk, on_end)
        res['paths'] = len(outs)
        for label, rs in by.items():
            res['obligations'] += len(rs)
            res['discharged'] += sum(1 for ok, _ in rs if ok)
            bad = [d for ok, d in rs if not ok]
            if bad:
                res['failed'].append((label, bad[0]))
        if res['failed']:
            res['status'] = 'unproved'
        elif not res['obligations']:
            res['status'], res['reason'] = 'unsupported', 'no obligation generated'
        elif not live[0]:
            res['status'], res['reason'] = 'unsupported', 'all paths are infeasible (vacuous)'
    except Timeout:
        res['status'], res['reason'] = 'unsupported', 'time limit of %ds' % limit
    except T.EngineError as e:
        res['status'] = 'unsupported'
        res['reason'] = '%s%s' % (e, ' at ' + e.where if getattr(e, 'where', None) else '')
    except RecursionError:
        if __import__("os").environ.get("PVTB"): __import__("traceback").print_exc()
        res['status'], res['reason'] = 'unsupported', 'recursion limit of the engine'
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        res['status'] = 'unsupported'
        res['reason'] = 'engine error %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
    res['time'] = time.time() - t0
    res['stats'] = dict(prover.STATS)
    res['loops'] = dict(loops.LOOPSTAT)
    res['funcs'] = sorted(q for q in I.trace_funcs if q.startswith('pystruct.'))
    return res


def snapshot_ext(I):
    return {k: dict(v.attrs) for k, v in I.ext.items() if hasattr(v, 'attrs')}, set(I.ext)


def restore_ext(I, s):
    for k in list(I.ext):
        if k not in s[1]:
            del I.ext[k]
    for k, a in s[0].items():
        I.ext[k].attrs.clear()
        I.ext[k].attrs.update(a)


# ----------------------------------------------------------------- concrete run
def load_concrete(prop):
    import importlib.util
    from . import dsl
    sys.modules['pv.dsl'] = dsl
    spec = importlib.util.spec_from_file_location('contracts_' + prop, contract_file(prop))
    m = importlib.util.module_from_spec(spec)
    for k in dir(dsl):
        if not k.startswith('_'):
            m.__dict__.setdefault(k, getattr(dsl, k))
    spec.loader.exec_module(m)
    return m


class Quiet(object):
    def __enter__(self):
        self.o = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout, sys.stderr = self.o


def run_once(mod, name, rng, size, fixed=None, mode=0):
    """('ok'|'skip'|'fail', info, draws, checked)"""
    from . import dsl
    import numpy as np
    import warnings
    dsl.begin(rng, size, fixed, mode)
    try:
        with Quiet(), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            np.random.seed(0)
            getattr(mod, name)()
        r = ('ok', None)
    except dsl.Skip:
        r = ('skip', None)
    except dsl.ContractFailure as e:
        r = ('fail', '%s: %s' % (e.label, e.detail))
    except (Timeout, KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        r = ('fail', 'no exception: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    finally:
        dsl.unpatch()
    return r[0], r[1], dict(dsl.S.draws), dsl.S.checked


def source_literals():
    """integer constants of the current sources (special-cased sizes)"""
    out = set()
    for base, _d, fs in os.walk(os.path.join(REPO, 'pystruct')):
        if 'tests' in base or 'datasets' in base:
            continue
        for f in fs:
            if f.endswith('.py'):
                try:
                    for n in ast.walk(ast.parse(open(os.path.join(base, f)).read())):
                        if isinstance(n, ast.Constant) and type(n.value) is int and 2 <= n.value <= 9:
                            out.add(n.value)
                except SyntaxError:
                    pass
    return sorted(out)


def run_concrete(prop, name, pkgdir, seed, budget, maxruns):
    t0 = time.time()
    res = dict(name=name, runs=0, skipped=0, checked=0, fail=None, error=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(budget * 3 + 60))
    try:
        sys.dont_write_bytecode = True
        if pkgdir not in sys.path:
            sys.path.insert(0, pkgdir)
        from . import dsl
        dsl.S.literals = source_literals()
        mod = load_concrete(prop)
        try:
            import joblib
            joblib.parallel_config(backend='threading')
        except Exception:
            pass
        n = 0
        while n < maxruns and time.time() - t0 < budget:
            rng = random.Random('%s-%s-%s-%d' % (seed, prop, name, n))
            size = min(1 + n // 12, 3) if n < 60 else rng.choice([1, 2, 3, 3, 4, 5])
            st, info, draws, checked = run_once(mod, name, rng, size, None, n % 5)
            n += 1
            if st == 'skip':
                res['skipped'] += 1
                continue
            res['runs'] += 1
            res['checked'] += checked
            if st == 'fail':
                res['fail'] = (info, draws, n % 5)
                break
    except Timeout:
        res['error'] = 'time limit'
    except BaseException as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2000:])
    finally:
        signal.alarm(0)
    res['time'] = time.time() - t0
    return res


def _job(a):
    kind, args = a
    if kind == 'sym':
        return (kind, run_symbolic(*args))
    return (kind, run_concrete(*args))


def jsonable(x):
    import numpy as np
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    return x


def run_pool(jobs, limit):
    """run jobs in separate processes, robust against a dying worker"""
    ctx = multiprocessing.get_context('fork')
    nproc = min(8, len(jobs)) or 1
    pending = list(jobs)
    running = []
    done = []
    while pending or running:
        while pending and len(running) < nproc:
            j = pending.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(wr, j))
            p.start()
            wr.close()
            running.append((p, rd, j, time.time()))
        time.sleep(0.02)
        for item in list(running):
            p, rd, j, t0 = item
            r = None
            if rd.poll():
                try:
                    r = rd.recv()
                except EOFError:
                    r = crash(j, 'worker died')
            elif not p.is_alive():
                r = rd.recv() if rd.poll() else crash(j, 'worker died with exit code %s' % p.exitcode)
            elif time.time() - t0 > limit:
                p.kill()
                r = crash(j, 'killed after %ds' % limit)
            if r is not None:
                running.remove(item)
                rd.close()
                p.join(5)
                if p.is_alive():
                    p.kill()
                done.append((j, r))
    return done


def crash(j, why):
    kind, args = j
    if kind == 'sym':
        return (kind, dict(name=args[1], status='unsupported', obligations=0, discharged=0, failed=[], reason=why,
                           paths=0, time=0, stats={}, funcs=[], loops={}))
    return (kind, dict(name=args[1], runs=0, skipped=0, checked=0, fail=None, error=why, time=0))


def _child(wr, j):
    try:
        r = _job(j)
    except BaseException as e:
        r = crash(j, '%s: %s' % (type(e).__name__, e))
    try:
        wr.send((r[0], jsonable(r[1]) if r[0] == 'con' else r[1]))
    except BaseException as e:
        wr.send(crash(j, 'result not transferable: %s' % e))
    wr.close()
    os._exit(0)


# ----------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


# ----------------------------------------------------------------- verdict
def check(prop, tier='quick', only=None, verbose=False):
    import tempfile
    import shutil
    t0 = time.time()
    seed = os.environ.get('VERIF_SEED', '1')
    names = [(n, d) for n, d in contract_names(prop) if only is None or n in only]
    consts = module_consts(prop)
    bounded = consts.get('BOUNDED', {})
    quick = tier == 'quick'
    sym_limit = 170 if quick else 420
    con_budget = 7 if quick else 40
    con_runs = 120 if quick else 1500
    tmp = tempfile.mkdtemp(prefix='pv_')
    lines = []
    code = 0
    try:
        build_error = None
        try:
            built = prepare_package(tmp)
        except BaseException as e:
            build_error = '%s: %s' % (type(e).__name__, e)
            built = []
        jobs = []
        for n, _d in names:
            if n not in bounded:
                jobs.append(('sym', (prop, n, sym_limit)))
        if not build_error:
            for n, _d in names:
                b = 3 if n in bounded else 1
                jobs.append(('con', (prop, n, tmp, seed, 15 if n in bounded and quick else con_budget * b,
                                     con_runs * (40 if n in bounded else 2))))
        done = run_pool(jobs, sym_limit + 60)
        sym = {r[1]['name']: r[1] for j, r in done if r[0] == 'sym'}
        con = {r[1]['name']: r[1] for j, r in done if r[0] == 'con'}
        # second round: search harder for a failing input where a proof did not go through
        again = [n for n, _d in names if n in sym and sym[n]['status'] != 'proved' and con.get(n) and not con[n]['fail']]
        if again and not build_error:
            jobs = [('con', (prop, n, tmp, seed + 'x%d' % q, 45 if quick else 120, 4000)) for n in again for q in range(max(1, 8 // len(again)))]
            # and once more for a proof, with more time for the solver: a busy machine is no reason for an alarm
            jobs = [('sym', (prop, n, 150, 20000)) for n in again if sym[n]['status'] == 'unproved'] + jobs
            for j, r in run_pool(jobs, 300):
                n = r[1]['name']
                if r[0] == 'sym':
                    if r[1]['status'] == 'proved':
                        sym[n] = r[1]
                    continue
                con[n]['runs'] += r[1]['runs']
                con[n]['checked'] += r[1]['checked']
                con[n]['fail'] = con[n]['fail'] or r[1]['fail']
        known = known_findings(prop)
        os.makedirs(OUT, exist_ok=True)
        for n, d in names:
            s, c = sym.get(n), con.get(n)
            fail = c and c.get('fail')
            kf = [k for k in known if k.get('contract') == n]
            if fail:
                k = match_known(kf, fail)
                if k:
                    lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                    continue
                path = os.path.join(OUT, 'replay-%s-%s.json' % (prop, n))
                json.dump(dict(property=prop, contract=n, draws=fail[1], mode=fail[2], failure=fail[0],
                               failed_obligations=s['failed'] if s else [],
                               replay='cd %s && ./check.sh --replay %s' % (HERE, path)), open(path, 'w'), indent=1)
                lines.append('VIOLATION property=%s replay=%s' % (prop, path))
                lines.append('  contract %s (%s): %s' % (n, d.split('\n')[0], str(fail[0])[:600]))
                code = 1
            elif s and s['status'] == 'unproved':
                path = os.path.join(OUT, 'replay-%s-%s.json' % (prop, n))
                json.dump(dict(property=prop, contract=n, draws=None, failed_obligations=s['failed'],
                               note='the obligation generated from the current source is not discharged'),
                          open(path, 'w'), indent=1)
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
                for lab, det in s['failed'][:4]:
                    lines.append('  contract %s obligation "%s": %s' % (n, lab, str(det)[:500]))
                # the verdict line must end with the words: print details before it
                lines[-len(s['failed'][:4]) - 1:] = lines[-len(s['failed'][:4]):] + [lines[-len(s['failed'][:4]) - 1]]
                code = 1
        write_evidence(prop, tier, seed, names, bounded, sym, con, build_error, built, lines, code, time.time() - t0, consts)
        if verbose:
            for n, d in names:
                s, c = sym.get(n), con.get(n)
                print('%-44s %s | %s' % (n, ('%s %d/%d paths=%d %.1fs %s' % (
                    s['status'], s['discharged'], s['obligations'], s['paths'], s['time'], s['reason'] or '')) if s else 'bounded',
                    ('runs=%d skip=%d%s %.1fs %s' % (c['runs'], c['skipped'], ' FAIL' if c['fail'] else '', c['time'], c['error'] or '')) if c else build_error))
                if s and s['failed']:
                    for lab, det in s['failed']:
                        print('      -', lab, ':', str(det)[:700])
                if s and s.get('trace'):
                    print(s['trace'])
        for l in lines:
            print(l)
        nproved = sum(1 for n, _ in names if n in sym and sym[n]['status'] == 'proved')
        print('%s: %d contracts, %d proved, %d bounded only; %d obligations discharged in %.1fs' % (
            prop, len(names), nproved, len(names) - nproved,
            sum(s['discharged'] for s in sym.values() if s['status'] == 'proved'), time.time() - t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code


def match_known(kf, fail):
    for k in kf:
        if k.get('failure') and k['failure'] in fail[0]:
            return k
    return None


def write_evidence(prop, tier, seed, names, bounded, sym, con, build_error, built, lines, code, wall, consts):
    proved = [n for n, _ in names if n in sym and sym[n]['status'] == 'proved']
    fall = {n: sym[n]['reason'] for n, _ in names if n in sym and sym[n]['status'] == 'unsupported'}
    funcs = sorted(set(f for n in proved for f in sym[n]['funcs']))
    stats = {}
    for s in sym.values():
        for k, v in s.get('stats', {}).items():
            stats[k] = stats.get(k, 0) + v
    dis = sum(sym[n]['discharged'] for n in proved)
    obl = sum(s['obligations'] for s in sym.values())
    stubs = sorted(set(x for s in sym.values() for x in s.get('stubs', [])))
    nlbl = []
    for n in sorted(bounded):
        nlbl.append('%s: bounded check only (%s)' % (n, bounded[n]))
    for n in sorted(fall):
        nlbl.append('%s: fell back to the bounded check in this run (%s)' % (n, fall[n]))
    level = 'proof' if proved and len(names) > 2 * len(bounded) else 'other'
    viol = [l for l in lines if l.startswith('VIOLATION')]
    ev = dict(
        property=prop, tool='pv: deductive verifier for the Python/Cython of /repo (pv/), normal forms + case split + z3 %s' % z3v(),
        tier=tier, level=level, seed=int(seed) if str(seed).isdigit() else 1,
        passed=code == 0, wall_s=round(wall, 2),
        coverage=dict(
            explanation='contracts on the functions of /repo discharged by a deductive verifier for all inputs; contracts listed under bounded_only are checked by bounded execution only and are not counted as proved',
            obligations=obl, discharged=dis,
            checker_cmd='/verif/check.sh %s --tier %s' % (prop, tier),
            trusted_base=TRUSTED,
            functions_under_contract=funcs, contracts_proved=proved,
            contracts=[dict(name=n, statement=' '.join(d.split()), status=(sym[n]['status'] if n in sym else 'bounded'),
                            obligations=sym[n]['obligations'] if n in sym else 0,
                            discharged=sym[n]['discharged'] if n in sym else 0,
                            paths=sym[n]['paths'] if n in sym else 0,
                            seconds=round(sym[n]['time'], 2) if n in sym else 0,
                            concrete_runs=con[n]['runs'] if n in con else 0,
                            concrete_skipped=con[n]['skipped'] if n in con else 0) for n, d in names],
            bounded_only=nlbl,
            backends=dict(normal_form=stats.get('nf', 0), case_split=stats.get('split', 0), z3=stats.get('z3', 0),
                          z3_calls=stats.get('z3_calls', 0), z3_seconds=round(stats.get('z3_s', 0.0), 2)),
            assumed_contracts=stubs, extensions_rebuilt=built, build_error=build_error),
        assumptions=list(consts.get('ASSUMES', [])) + GENERAL_ASSUMPTIONS,
        violations=len(viol), messages=lines[:40])
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(jsonable(ev), open(os.path.join(d, prop + '.json'), 'w'), indent=1)


def z3v():
    try:
        from . import prover
        return prover.z3.get_version_string()
    except Exception:
        return '?'


TRUSTED = [
    'pv/terms.py, pv/prover.py: term normalisation, case splits and the z3 translation',
    'pv/interp.py, pv/loops.py: Python semantics (path-by-path execution, loop invariant rules)',
    'pv/nplib.py, pv/extlib.py: contracts of Python builtins, numpy, joblib, and of the external solvers',
    'z3 (back end)', 'the Cython compiler, CPython and numpy that run the verified text',
]
GENERAL_ASSUMPTIONS = [
    'machine arithmetic is treated as mathematical: integers unbounded, floats as reals (no rounding, overflow, NaN or infinity except where an infinite constant appears in the code)',
    'numpy and Python operations behave as the contracts in pv/nplib.py say; every run cross-checks them by executing the same contracts on the real code at drawn inputs',
    'Cython sources are verified after a mechanical removal of C type declarations (pyx_to_py in pv/interp.py); C integer widths and unchecked indexing are covered by explicit in-range obligations only where the contract states them',
    'termination is not proved (partial correctness)',
]


def replay(path):
    import tempfile
    import shutil
    d = json.load(open(path))
    if d.get('draws') is None:
        print('no failing input: undischarged obligations of contract %s of %s:' % (d['contract'], d['property']))
        for lab, det in d['failed_obligations']:
            print(' -', lab, ':', det)
        return 1
    tmp = tempfile.mkdtemp(prefix='pv_')
    try:
        prepare_package(tmp)
        sys.dont_write_bytecode = True
        sys.path.insert(0, tmp)
        mod = load_concrete(d['property'])
        st, info, draws, checked = run_once(mod, d['contract'], random.Random(0), 3, d['draws'], d.get('mode', 0))
        print(st, info)
        return 1 if st == 'fail' else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', nargs='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    try:
        return check(a.prop, a.tier, a.only, a.v)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        # never an alarm from a failure of the machinery itself
        traceback.print_exc()
        print('%s: machinery failure, no verdict' % a.prop)
        return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
