#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decides one property of properties.jsonl
on /repo's working tree.  Exit 0: it holds; 1: VIOLATION line."""
import json
import os
import shutil
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
from vc import build, units, native, config  # noqa: E402

TRUSTED = [
    'clang 18 front end and the passes sroa and simplifycfg (C++ to LLVM IR)',
    'vc/ (this verification condition generator: semantics of LLVM IR, memory model, loop rule, simplifier)',
    'z3 4.8 / cvc5 1.1.2 for the obligations attributed to them',
]
ASSUME = [
    'vectors and buffers hold at most 2^42 bytes and loops run at most 2^48 times',
    'operator new succeeds (no bad_alloc)',
    'libstdc++ as instantiated from its headers by clang; functions of the shared libraries are modelled (evidence: external models)',
    'little-endian x86-64 with 64-bit size_t',
    'sources and sinks supplied by the user satisfy their contract: a source delivers what is asked for and less only at its end',
]


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.results = []
        self.log = []
        self.bounded = []
        self.native = []
        self.violations = []
        self.level = 'proof'

    def say(self, *a):
        s = ' '.join(str(x) for x in a)
        self.log.append(s)
        print(s, flush=True)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:') and ('property=%s ' % prop) in l + ' ':
                out.append(l)
    return out


def evidence(rep, cfg, decided):
    R = [r for r in rep.results if r]
    good = [r for r in decided if r] if decided else []
    by = {}
    for r in good:
        for k, v in r.get('by', {}).items():
            by[k] = by.get(k, 0) + v
    demangle = lambda xs: build.demangle(sorted(xs))
    calls, contracts, ext, loops, covers, labels = set(), set(), set(), set(), {}, set()
    for r in good:
        calls.update(x for x in r.get('calls', []) if 'goost' in x and not x.startswith(('vc', 'h_')))
        contracts.update(r.get('contracts', []))
        ext.update(r.get('externs', []))
        loops.update(tuple(x) for x in r.get('loops', []))
        labels.update(r.get('labels', []))
        for k, v in r.get('covers', {}).items():
            covers[k] = covers.get(k, False) or v
    cov = {
        'obligations': sum(r.get('obligations', 0) for r in good),
        'discharged': sum(r.get('discharged', 0) for r in good),
        'discharged_by_back_end': by,
        'checker_cmd': 'python3-vt check.py %s %s' % (rep.prop, rep.tier),
        'trusted_base': TRUSTED + cfg.get('trusted', []),
        'functions_verified': [x for x in demangle(calls) if x.startswith(('goost::', 'non-virtual thunk to goost')) and '~' not in x][:400],
        'contracts_used_for_callees': demangle(contracts),
        'external_models_assumed': sorted(build.demangle(sorted(ext)))[:120],
        'loops_closed_by_invariant': ['%s %s' % (build.demangle([f])[0].split('(')[0], l) for f, l in sorted(loops)],
        'loop_invariants_proved': sum(r.get('nloops', 0) for r in good),
        'paths': sum(r.get('paths', 0) for r in good),
        'solver_s': round(sum(r.get('solver_s', 0) for r in good), 2),
        'solver_queries': sum(r.get('queries', 0) for r in good),
        'units': [{'unit': r['unit'], 'obligations': r.get('obligations', 0), 'paths': r.get('paths', 0),
                   'wall_s': round(r.get('wall', 0), 2), 'ok': bool(r.get('ok'))} for r in R],
        'reachability_covers': covers,
        'obligation_labels': sorted(labels)[:200],
        'bounded_parts': rep.bounded,
        'native_runs': rep.native,
    }
    if rep.level != 'proof':
        cov['explanation'] = 'not every obligation was discharged on this tree: ' + '; '.join(rep.bounded)[:2000]
    d = {'property': rep.prop, 'tier': rep.tier, 'seed': rep.seed, 'level': rep.level, 'coverage': cov,
         'assumptions': ASSUME + cfg.get('assume', []), 'wall_s': round(time.time() - rep.t0, 2),
         'violations': len(rep.violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', rep.prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1)


def violation(rep, what, details, found=True):
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', 'replay', rep.prop + '.txt')
    with open(p, 'w') as f:
        f.write('property %s\n%s\n\n%s\n' % (rep.prop, what, details))
    rep.violations.append(what)
    print('violated: ' + what[:400])
    print('VIOLATION property=%s replay=%s%s' % (rep.prop, p, '' if found else ' no-failing-input-found'), flush=True)


def text(r):
    out = ['unit %s: error=%s ends=%s' % (r['unit'], r.get('error'), r.get('ends'))]
    for k in ('failures', 'suspects'):
        for f in r.get(k, [])[:6]:
            out.append('  %s %s obligation "%s" at %s [%s]\n     %s\n     cases %s model %s' % (
                k[:-1], f['kind'], f['label'], f['loc'], f['status'], f['detail'][:400], f['trace'],
                (f['model'] or {}).get('inputs')))
    for b in r.get('bounded', [])[:6]:
        out.append('  cut: %s' % (b,))
    return '\n'.join(out)


def ok_set(rs, cfg_kinds=None):
    if not all(good(r, cfg_kinds) for r in rs):
        return False
    # every harness is reached to its end in some case, and has obligations
    hs = {}
    for r in rs:
        d = hs.setdefault(r['h'], [0, False])
        d[0] += r.get('obligations', 0)
        d[1] = d[1] or bool(r.get('ends', {}).get('done')) or bool(r.get('covers'))
    return all(v[0] > 0 and v[1] for v in hs.values())


def good(r, kinds=None):
    """everything this check is about was proved in the unit"""
    if r.get('error') or r.get('bounded'):
        return False
    return not any(relevant(f, kinds) for f in r['failures'])


def relevant(f, kinds):
    return kinds is None or f['kind'] in kinds


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = config.CHECKS[prop]
    rep = Report(prop, tier, seed)
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    try:
        rc = decide(prop, tier, seed, cfg, rep, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def decide(prop, tier, seed, cfg, rep, tmp):
    limit = 680 if tier == 'quick' else 3000
    T0 = time.time()
    kinds = cfg.get('kinds')
    attempts = config.attempts(cfg, tier)
    mods = {}
    decided = None
    undecided = []
    searched = False
    all_suspects = []
    proved_extra = []
    lost = False          # a part that the others do not make up for is not proved
    for ai, at in enumerate(attempts):
        left = limit - (time.time() - T0)
        if left < 40:
            rep.bounded.append('attempt "%s" not made: time' % at['name'])
            break
        key = (tuple(at['files']), tuple(at.get('defs', ())))
        if key not in mods:
            try:
                mods[key] = units.load(build.build(os.path.join(tmp, 'm%d' % ai), [os.path.join(build.CONTRACTS, f) for f in at['files']], at.get('defs', ())))
            except build.BuildError as q:
                mods[key] = None
                undecided.append('%s: does not compile: %s' % (at['name'], str(q)[-1500:]))
        m = mods[key]
        if m is None:
            continue
        dl = time.time() + min(left - 20, at.get('time', 420 if ai == 0 else 240) * (1 if tier == 'quick' else 6))
        hunt = Hunt(prop, tier, seed, cfg, rep, tmp, cfg.get('patience', 60))
        rs = units.run(m, at['units'], dl, jobs=8, stop=lambda r: not good(r, kinds), poll=hunt.poll if ai == 0 else None)
        hunt.join()
        rep.results.extend(rs)
        rep.say('%s: %d units, %d obligations, %.1f s' % (at['name'], len(rs), sum(r.get('obligations', 0) for r in rs), time.time() - T0))
        if ok_set(rs, kinds):
            if at.get('extra'):
                proved_extra.extend(rs)
                continue
            if lost:
                continue
            decided = rs
            break
        lost = lost or bool(at.get('extra'))
        bad = [r for r in rs if not good(r, kinds) and r.get('error') != 'not run']
        if hunt.found:
            d, a = hunt.found
            violation(rep, d, 'found by running the harness on random inputs while obligations were left undischarged: contracts/native.cpp arguments: %s\n%s\nnot discharged: %s\n%s' % (
                a, d, ', '.join(r['unit'] for r in rs if not good(r, kinds))[:3000], '\n'.join(text(r) for r in bad)))
            evidence(rep, cfg, [])
            return 1
        for r in bad:
            rep.say(text(r))
            undecided.append((at, r))
        # a failing input?
        fs = [(r, f) for r in bad for f in r['failures'] + r['suspects'] if f['model']]
        left = limit - (time.time() - T0)
        v = try_native(prop, tier, seed, cfg, rep, tmp, at, fs, max(20, min(150, left - 10)), first=not searched)
        searched = True
        if v:
            evidence(rep, cfg, [])
            return 1
    if decided is not None:
        dec = decided + proved_extra
        rep.level = 'proof'
        if at.get('limited'):
            rep.level = 'other'
            rep.bounded.append('proved only for ' + at['limited'])
        for l in known_findings(prop):
            print('KNOWN-FINDING: ' + l[len('finding:'):].strip())
        evidence(rep, cfg, dec)
        rep.say('%s holds: %d obligations discharged, %.1f s' % (prop, sum(r['obligations'] for r in dec), time.time() - T0))
        return 0
    # undecided by proof
    refuted = []
    for u in undecided:
        if isinstance(u, str):
            continue
        at, r = u
        for f in r['failures']:
            if f['status'] == 'refuted' and not f['approx'] and relevant(f, kinds) and f['kind'] in cfg.get('alarm', ('post',)) \
                    and not f['label'].startswith(('state ', 'initial state', 'contract:')) and at.get('behaviour'):
                refuted.append((r, f))
    if refuted:
        r, f = refuted[0]
        violation(rep, 'obligation "%s" at %s is refuted by the solver in %s' % (f['label'], f['loc'], r['unit']), text(r), found=False)
        evidence(rep, cfg, [])
        return 1
    if undecided and all(isinstance(u, str) for u in undecided):
        for u in undecided:
            print(u)
        print('the contracts do not compile against this tree')
        return 2
    # bounded stand-in
    rep.level = 'other'
    for u in undecided:
        rep.bounded.append(u if isinstance(u, str) else 'not proved: ' + text(u[1])[:700])
    left = limit - (time.time() - T0)
    v = search(prop, tier, seed + 1, cfg, rep, tmp, max(20, min(120, left)), 4000)
    evidence(rep, cfg, [])
    if v:
        return 1
    rep.say('%s: NOT PROVED on this tree; bounded search found no violation' % prop)
    return 0


class Hunt:
    """when the proof takes longer than it should: looks for an input on which
    the real code breaks a contract, next to the provers"""

    def __init__(self, prop, tier, seed, cfg, rep, tmp, patience):
        self.a = (prop, tier, seed, cfg, rep, tmp)
        self.t0 = time.time()
        self.patience = patience
        self.th = None
        self.found = None

    def poll(self):
        if self.th is None and time.time() - self.t0 > self.patience:
            self.th = threading.Thread(target=self.work)
            self.th.start()
        return self.found is not None

    def work(self):
        prop, tier, seed, cfg, rep, tmp = self.a
        n = get_native(cfg, tmp, rep)
        if n is None:
            return
        d, a, done = n.search(list(dict.fromkeys(x for x in cfg['native'] if x)), seed + 7, 800, 60, jobs=3, longs=cfg.get('long', ()))
        rep.native.append({'search during the proof': cfg['native'], 'runs': done, 'failure': d})
        if d:
            self.found = (d, a)

    def join(self):
        if self.th is not None:
            self.th.join()


_nat = {}


def get_native(cfg, tmp, rep, san=True):
    for files, defs in config.native_sets(cfg):
        k = (tuple(files), tuple(defs), san)
        if k not in _nat:
            _nat[k] = native.Native(tmp, [os.path.join(build.CONTRACTS, f) for f in files], san and cfg.get('san', True), defs)
        if _nat[k].build():
            return _nat[k]
        rep.say('native build: ' + (_nat[k].error or '')[-800:])
    return None


def counts(msg, kinds):
    """does a native failure break this property?"""
    return True


def try_native(prop, tier, seed, cfg, rep, tmp, at, fs, limit, first):
    n = get_native(cfg, tmp, rep)
    if n is None:
        return False
    t0 = time.time()
    huge = False
    for i, (r, f) in enumerate(fs[:12]):
        if time.time() - t0 > limit / 2:
            break
        p = os.path.join(tmp, 'model%d' % i)
        h = cfg.get('native_of', {}).get(r['h'], r['h'])
        if h is None:
            continue
        k, d = n.replay(h, f['model'], r['case'], p, 30)
        if k == 'large' and f['detail'].startswith('in the iteration ') and not huge:
            huge = True
            n2 = get_native(cfg, tmp, rep, False)
            if n2 is not None:
                k, d = n2.replay_huge(h, p, limit)
        rep.native.append({'replay': r['unit'], 'obligation': f['label'], 'result': k})
        if k == 'fail':
            violation(rep, d, 'replayed counterexample: %s\nfailed obligation "%s" at %s\n\nmodel (contracts/native.cpp format, harness %s):\n%s\n%s' % (
                d, f['label'], f['loc'], h, open(p).read()[:20000], text(r)))
            return True
    if not first:
        return False
    hs = sorted({cfg.get('native_of', {}).get(r['h'], r['h']) for r, f in fs} - {None}) + [h for h in cfg['native'] if h]
    return search(prop, tier, seed, cfg, rep, tmp, limit - (time.time() - t0), cfg.get('runs', 2400), hs)


def search(prop, tier, seed, cfg, rep, tmp, limit, count, hs=None):
    n = get_native(cfg, tmp, rep)
    if n is None:
        return False
    hs = list(dict.fromkeys(hs or cfg['native']))
    if tier != 'quick':
        count *= 8
        limit *= 4
    d, a, done = n.search(hs, seed, count, max(15, limit), longs=cfg.get('long', ()))
    rep.native.append({'search': hs, 'seed': seed, 'runs': done, 'failure': d})
    if d:
        violation(rep, d, 'found by running the harness on random inputs: contracts/native.cpp arguments: %s\n%s' % (a, d))
        return True
    return False


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as q:
        print('cannot build: %s' % q)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
