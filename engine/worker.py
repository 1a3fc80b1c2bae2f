"""Run paths symbolically (in this process) and replay them on the unmodified code (in a child process)."""
import importlib
import importlib.util
import io
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PATH_TIMEOUT = int(os.environ.get('VP_PATH_TIMEOUT', '60'))


class PathTimeout(BaseException):
    pass


def scratch_base():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return tempfile.mkdtemp(prefix='vp_', dir=d)
    raise RuntimeError('no scratch directory')


def load_check(pid, symbolic):
    """Load checks/<pid>.py, instrumented or plain, and the code under test with it."""
    sys.dont_write_bytecode = True
    from engine import fs
    os.environ.setdefault('LC_ALL', 'en_US.UTF-8')
    os.environ.setdefault('LANG', 'en_US.UTF-8')
    import locale
    try:
        locale.setlocale(locale.LC_ALL, '')
    except locale.Error:
        pass
    if symbolic:
        from engine import instrument, models
        models.init()
        instrument.install([SRC, os.path.join(VERIF, 'checks')], ['pywriter', 'inliner', 'pgettext', 'translations', 'msgfmt',
                                                                 'checks_lib', 'prose', 'check_' + pid])
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    sys.path.insert(0, SRC)
    mod = importlib.import_module('check_' + pid)
    fs.install(symbolic)
    return mod


def instances(mod, tier):
    """All (name, function, kwargs) of a check module for a tier."""
    out = []
    for f in mod.HARNESSES:
        cases = f.meta.get('cases', {'': {}})
        if callable(cases):
            cases = cases()
        cases = dict(cases)
        if tier == 'thorough':
            t = f.meta.get('thorough', {})
            cases.update(t() if callable(t) else t)
        for cn, kw in cases.items():
            out.append((f.__name__ + (f'[{cn}]' if cn else ''), f, kw))
    return out


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def run_concrete(fn, kw, values, base, replay=False, timeout=PATH_TIMEOUT):
    from engine import fs, env as E
    from engine.sym import PathEnd
    d = fs.begin(base)
    e = E.ConcEnv(values, d, replay)
    out = {'outcome': 'ok', 'failures': [], 'obs': []}
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Null()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        fn(e, **kw)
    except PathEnd:
        out['outcome'] = 'excluded:' + e.excl if e.excl else 'assume'
    except PathTimeout:
        out['outcome'] = 'timeout'
        out['failures'].append(['does not terminate', f'no result after {timeout} s'])
    except fs.Crash:
        out['outcome'] = 'crash'
    except fs.Escape as ex:
        out['outcome'] = 'escape'
        out['failures'].append(['writes outside the project directory', str(ex)])
    except Exception as ex:
        out['outcome'] = 'exception'
        out['failures'].append([f'unexpected {type(ex).__name__}', f'{ex}'[:300]])
        out['trace'] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = so, se
        fs.end()
    out['failures'] = [list(x) for x in e.failures] + out['failures']
    out['obs'] = [[k, repr(v)] for k, v in e.obs]
    out['nchecks'] = e.nchecks
    return out


def _alarm(*a):
    raise PathTimeout()


def plain_server(pid, tier):
    """Child process: read JSON requests, run the harness on the unmodified code, write JSON answers."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    mod = load_check(pid, False)
    table = {n: (f, kw) for n, f, kw in instances(mod, 'thorough')}
    base = scratch_base()
    try:
        for line in sys.stdin:
            q = json.loads(line)
            f, kw = table[q['h']]
            r = run_concrete(f, kw, q['values'], base, q.get('replay', False))
            out.write(json.dumps(r) + '\n')
            out.flush()
    finally:
        from engine import fs
        fs._cleanup(base)


class Plain:
    def __init__(self, pid):
        self.pid = pid
        self.p = None

    def ask(self, h, values, replay=False):
        if self.p is None or self.p.poll() is not None:
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            self.p = subprocess.Popen([sys.executable, '-c',
                                       f'import sys; sys.path.insert(0, {VERIF!r}); from engine import worker; '
                                       f'worker.plain_server({self.pid!r}, "")'],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                      text=True, env=e, cwd='/')
        self.p.stdin.write(json.dumps({'h': h, 'values': values, 'replay': replay}) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {'outcome': 'died', 'failures': [], 'obs': [], 'nchecks': 0}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


STATE = {}


def new_stats():
    return {'paths': 0, 'decisions': 0, 'queries': 0, 'solver_time': 0.0, 'unknown': 0, 'incomplete': 0,
            'infeasible': 0, 'excluded': 0, 'obligations': 0, 'validated': 0, 'mismatch': 0, 'unsupported': 0,
            'timeout': 0, 'final_queries': 0, 'reached': 0, 'exceptions': 0}


def run_path(h, fn, kw, prefix, stats, base, plain):
    """Execute one path; return (alternatives, candidate or None, notes)."""
    import z3
    from engine import sym, fs, env as E
    ctx = sym.Ctx(prefix, stats)
    sym.set_ctx(ctx)
    d = fs.begin(base)
    e = E.SymEnv(ctx, d)
    notes = []
    outcome = 'ok'
    exc = None
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Null()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(PATH_TIMEOUT)
    rec = STATE.get('funcs')
    first = rec is not None and h not in STATE['profiled']
    if first:
        STATE['profiled'].add(h)
        sys.setprofile(_profiler(rec))
    try:
        fn(e, **kw)
    except sym.PathEnd:
        outcome = 'excluded' if e.excl else 'assume'
    except sym.Unsupported as ex:
        outcome = 'unsupported'
        notes.append(f'{h}: unsupported: {ex}')
    except PathTimeout:
        outcome = 'timeout'
        notes.append(f'{h}: path timeout')
    except fs.Crash:
        outcome = 'crash'
    except fs.Escape as ex:
        outcome = 'escape'
        exc = ex
    except RecursionError:
        outcome = 'unsupported'
        notes.append(f'{h}: recursion limit')
    except Exception as ex:
        outcome = 'exception'
        exc = ex
        notes_tb = traceback.format_exc()
        STATE['last_tb'] = notes_tb
    finally:
        signal.alarm(0)
        if first:
            sys.setprofile(None)
        sys.stdout, sys.stderr = so, se
        fs.end()
    stats['paths'] += 1
    stats['incomplete'] += 1 if ctx.incomplete else 0
    for n in ctx.notes[:2]:
        notes.append(f'{h}: {n}')
    if outcome == 'assume':
        stats['infeasible'] += 1
        return ctx.alts, None, notes
    if outcome == 'excluded':
        stats['excluded'] += 1
        return ctx.alts, None, notes
    if outcome in ('unsupported', 'timeout'):
        stats[outcome] += 1
    # final verdict of the solver
    s = None
    t = time.perf_counter()
    cand = None
    exprs = [x[1] for x in ctx.checks]
    stats['obligations'] += len(exprs)
    s = ctx.path_solver()
    # reachability witness: the end of the path is feasible
    r0 = s.check()
    stats['queries'] += 1
    stats['final_queries'] += 1
    if r0 == z3.unsat:
        stats['solver_time'] += time.perf_counter() - t
        stats['infeasible'] += 1
        notes.append(f'{h}: path condition unsat at the end')
        return ctx.alts, None, notes
    if r0 == z3.unknown:
        stats['unknown'] += 1
    else:
        stats['reached'] += 1
    model = s.model() if r0 == z3.sat else None
    values = ctx.model_values(model)
    viol = None
    if exprs:
        s.push()
        s.add(z3.Not(z3.And(exprs)))
        for v in ctx.vars:
            if v.z is not None and not v.related:
                s.add(ctx.dom_expr(v, v.dom))
        r1 = s.check()
        stats['queries'] += 1
        stats['final_queries'] += 1
        if r1 == z3.sat:
            m1 = s.model()
            values1 = ctx.model_values(m1)
            bad = []
            for msg, ex, det in ctx.checks:
                if not z3.is_true(m1.eval(ex, model_completion=True)):
                    if det:
                        def show(x):
                            return ctx.to_concrete(x, values1) if isinstance(x, str) else x
                        msg2 = f'{msg}: got {show(det[0])!r:.200} expected {show(det[1])!r:.200}'
                    else:
                        msg2 = msg
                    bad.append(msg2)
            viol = (values1, bad)
        elif r1 == z3.unknown:
            stats['unknown'] += 1
            notes.append(f'{h}: final query unknown')
        s.pop()
    stats['solver_time'] += time.perf_counter() - t
    if exc is not None and viol is None:
        stats['exceptions'] += 1
        viol = (values, [f'unexpected {type(exc).__name__}: {exc}'])
    if outcome == 'timeout' and viol is None:
        viol = (values, ['does not terminate'])
    inp = {v.name for v in ctx.vars if v.inp}

    def only_inputs(vs):
        return {k: v for k, v in vs.items() if k in inp}
    if viol is not None:
        vals = only_inputs(viol[0])
        rep = plain.ask(h, vals)
        if rep['failures']:
            cand = {'harness': h, 'values': vals, 'symbolic': viol[1], 'replay': rep['failures'],
                    'trace': rep.get('trace', '')}
        elif rep['outcome'].startswith('excluded'):
            stats['excluded'] += 1
        else:
            stats['mismatch'] += 1
            notes.append(f'{h}: counterexample does not reproduce: {viol[1][:2]!r:.500} values={vals!r:.300}'
                         f' {STATE.get("last_tb", "")[-600:] if exc is not None else ""}')
        return ctx.alts, cand, notes
    # validate the encoding: the same inputs on the unmodified code
    vals = only_inputs(values)
    rep = plain.ask(h, vals)
    if rep['failures'] and outcome not in ('unsupported', 'timeout'):
        # the solver-chosen representative fails on the real code although the encoding did not see it
        stats['mismatch'] += 1
        cand = {'harness': h, 'values': vals, 'symbolic': ['(encoding disagreed)'], 'replay': rep['failures'],
                'trace': rep.get('trace', '')}
    elif rep['failures']:
        cand = {'harness': h, 'values': vals, 'symbolic': [f'({outcome})'], 'replay': rep['failures'],
                'trace': rep.get('trace', '')}
    elif outcome in ('ok', 'crash'):
        def conc(x):
            if type(x) is str:
                return ctx.to_concrete(x, values)
            if isinstance(x, list):
                return [conc(y) for y in x]
            if isinstance(x, tuple):
                return tuple(conc(y) for y in x)
            if isinstance(x, dict):
                return {conc(k): conc(v) for k, v in x.items()}
            if type(x) is sym.SymInt:
                if x.var is not None:
                    return values[x.var.name] + x.off
                return model.eval(x.expr(), model_completion=True).as_long() if model else x
            if type(x) is sym.SymBool:
                if x.var is not None:
                    from engine import iset
                    return iset.has(x.dom, values[x.var.name])
                return z3.is_true(model.eval(x.e, model_completion=True))
            return x
        mine = [[k, repr(conc(v))] for k, v in e.obs]
        if rep['outcome'] == outcome and mine == rep['obs'] and rep['nchecks'] == len(ctx.checks):
            stats['validated'] += 1
        else:
            stats['mismatch'] += 1
            notes.append(f'{h}: encoding and real code disagree: {outcome}/{rep["outcome"]} checks '
                         f'{len(ctx.checks)}/{rep["nchecks"]} values={vals!r:.300} '
                         f'{[x for x in zip(mine, rep["obs"]) if x[0] != x[1]][:1]!r:.500}')
    if len(STATE.setdefault('samples', [])) < 40 and h not in STATE.setdefault('sampled', set()):
        STATE['sampled'].add(h)
        STATE['samples'].append({'harness': h, 'inputs': {k: (chr(v) if '.' in k and 0x20 <= v else v)
                                                         for k, v in list(vals.items())[:12]},
                                 'checks': len(ctx.checks), 'outcome': outcome})
    return ctx.alts, None if cand is None else cand, notes


def _profiler(rec):
    src = os.path.realpath(SRC) + os.sep
    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(src):
                rec.add(co.co_filename[len(src):] + ':' + co.co_qualname)
    return prof


def init_worker(pid, tier):
    sys.path.insert(0, VERIF)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    if 'mod' not in STATE:
        prepare(pid, tier)
    STATE['plain'] = Plain(pid)
    STATE['base'] = scratch_base()
    STATE['funcs'] = set()
    STATE['profiled'] = set()
    import atexit
    from multiprocessing import util
    util.Finalize(None, shutdown, exitpriority=10)


def shutdown():
    from engine import fs
    fs._cleanup(STATE['base'])
    STATE['plain'].close()


def prepare(pid, tier):
    STATE['mod'] = load_check(pid, True)
    STATE['table'] = {n: (f, kw) for n, f, kw in instances(STATE['mod'], 'thorough')}


def task(h, stack, slice_s, max_cands=3):
    """Explore depth first for a time slice; return the remaining prefixes."""
    fn, kw = STATE['table'][h]
    stats = new_stats()
    cands = []
    notes = []
    STATE['funcs'] = set()
    STATE['samples'] = []
    t0 = time.time()
    err = None
    while stack and time.time() - t0 < slice_s and len(cands) < max_cands:
        prefix = stack.pop()
        try:
            alts, cand, nts = run_path(h, fn, kw, prefix, stats, STATE['base'], STATE['plain'])
        except BaseException:
            err = f'{h}: engine error {traceback.format_exc()[-1500:]}'
            break
        stack.extend(alts)
        if cand:
            cands.append(cand)
        if len(notes) < 20:
            notes.extend(nts)
    return {'h': h, 'stack': stack if (not cands or max_cands > 1000) and not err else [], 'stats': stats, 'cands': cands, 'notes': notes,
            'funcs': sorted(STATE['funcs']), 'samples': STATE['samples'], 'err': err, 'time': time.time() - t0}
