"""Runs verification units (one harness, some cases fixed) in parallel
processes and collects what each of them proved."""
import os
import pickle
import resource
import signal
import sys
import time

from . import ir, engine, solve

MEM = 6 << 30


class Unit:
    def __init__(self, h, case=None, hooks=True, opts=None, init=None):
        self.h = h
        self.case = dict(case or {})
        self.hooks = hooks
        self.opts = dict(opts or {})

    def name(self):
        s = self.h
        if self.case:
            s += '[' + ','.join('%s=%d' % kv for kv in sorted(self.case.items())) + ']'
        return s + ('' if self.hooks else ' (bodies)')


def verify(m, u, deadline):
    """-> dict, in this process"""
    t0 = time.time()
    r = {'unit': u.name(), 'h': u.h, 'case': u.case, 'hooks': u.hooks, 'error': None, 'ends': {}, 'failures': [],
         'bounded': [], 'suspects': []}
    if u.h not in m.funcs:
        r['error'] = 'no such harness'
        return r
    e = engine.Engine(m, solve.Prover(), hooks=u.hooks, opts=u.opts)
    e.deadline = deadline
    try:
        st = e.init_state()
        for k, v in u.case.items():
            st.opts[('case', k)] = v
        e.push(st, m.funcs[u.h], [])
        for x in e.explore(st):
            r['ends'][x[0]] = r['ends'].get(x[0], 0) + 1
    except engine.Stop as q:
        e.bounded.append((q.kind, q.detail, ''))
    except RecursionError:
        e.bounded.append(('unsupported', 'recursion limit of the verifier', ''))
    except MemoryError:
        e.bounded.append(('unsupported', 'memory limit of the verifier', ''))
    except Exception as q:
        import traceback
        e.bounded.append(('unsupported', 'verifier error: ' + traceback.format_exc()[-600:], ''))
    races = e.races()
    for (la, ka, na), (lb, kb, nb) in races[:40]:
        f = engine.Failure('race', 'what threads share is accessed under a lock or atomically', la, 'refuted',
                           '%s object %s written at %s and accessed at %s without a common lock' % (ka, na, la, lb), None)
        e.failures.append(f)
    if e.shlog:
        e.oblig[('race', 'what threads share is accessed under a lock or atomically', '')] = [
            sum(len(x) for x in e.shlog.values()), {} if races else {'lockset': sum(len(x) for x in e.shlog.values())}]
    fs = []
    for kind, l in (('failures', e.failures), ('suspects', e.suspects)):
        seen = {}
        for f in l:
            if seen.setdefault(f.key(), 0) < 3 and len(r[kind]) < 40:
                seen[f.key()] += 1
                r[kind].append({'kind': f.kind, 'label': f.label, 'loc': f.loc, 'status': f.status,
                                'detail': f.detail[:600], 'trace': f.trace, 'approx': [str(x) for x in f.approx],
                                'model': f.model})
    r['bounded'] = [tuple(str(y)[:400] for y in x) for x in e.bounded[:20]]
    by = {}
    n = d = 0
    for (kind, lab, loc), (c, b) in e.oblig.items():
        n += c
        for k, v in b.items():
            by[k] = by.get(k, 0) + v
            d += v
    r.update(obligations=n, discharged=d, by=by, named=len(e.oblig), covers=dict(e.covers), paths=e.paths, steps=e.steps,
             kinds=sorted({k[0] for k in e.oblig}), labels=sorted({k[1] for k in e.oblig}),
             loops=sorted({(l[0], l[1]) for l in e.loopsdone}), nloops=len(e.loopsdone), calls=sorted(e.calls),
             contracts=sorted(e.contracts_used), externs=sorted(x for x in e.externs if not x.startswith('vc_')), assumed=sorted(str(k) for k in e.assumed),
             solver_s=e.p.stats.time, wall=time.time() - t0, queries=e.p.stats.queries)
    r['ok'] = not r['failures'] and not r['bounded'] and not r['error'] and n > 0 and all(e.covers.values())
    return r


def child(m, u, deadline, w):
    sys.setrecursionlimit(100000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except Exception:
        pass
    try:
        r = verify(m, u, deadline)
    except BaseException as q:
        r = {'unit': u.name(), 'h': u.h, 'case': u.case, 'hooks': u.hooks, 'error': repr(q)[:400], 'failures': [],
             'bounded': [], 'suspects': [], 'ok': False}
    with os.fdopen(w, 'wb') as f:
        pickle.dump(r, f)


def load(path):
    import threading
    sys.setrecursionlimit(100000)
    return ir.Module(path)


def run(m, units, deadline, jobs=8, stop=None, say=None, poll=None):
    """results in the order of units; stop(result) or poll() ends the run early"""
    import select
    pending = list(enumerate(units))
    live = {}
    out = [None] * len(units)
    halt = False
    while pending or live:
        if poll and poll():
            halt = True
        while pending and len(live) < jobs and not halt:
            i, u = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
                except Exception:
                    pass
                import threading
                threading.stack_size(512 << 20)
                th = threading.Thread(target=child, args=(m, u, deadline, w))
                th.start()
                th.join()
                os._exit(0)
            os.close(w)
            live[r] = (i, pid, bytearray())
        if halt:
            for fd, (i, pid, b) in live.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
            live = {}
            break
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][2].extend(b)
                continue
            i, pid, buf = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                out[i] = pickle.loads(bytes(buf))
            except Exception:
                out[i] = {'unit': units[i].name(), 'h': units[i].h, 'case': units[i].case, 'hooks': units[i].hooks,
                          'error': 'the verifier process ended without an answer', 'failures': [], 'bounded': [],
                          'suspects': [], 'ok': False}
            if say:
                say(out[i])
            if stop and stop(out[i]):
                halt = True
        if now > deadline + 15:
            for fd, (i, pid, buf) in list(live.items()):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
    for i, u in enumerate(units):
        if out[i] is None:
            out[i] = {'unit': u.name(), 'h': u.h, 'case': u.case, 'hooks': u.hooks, 'error': 'not run', 'failures': [],
                      'bounded': [], 'suspects': [], 'ok': False}
    return out
