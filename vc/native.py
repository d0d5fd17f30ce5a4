"""Native builds of the harnesses against /repo's sources: replay of models and
random search for failing inputs."""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess

from . import build

SAN = ['-fsanitize=address,bounds,shift-exponent,signed-integer-overflow,integer-divide-by-zero,return,unreachable',
       '-fno-sanitize-recover=all']
BASE = ['g++', '-std=c++17', '-O1', '-g1', '-w', '-DVC_NATIVE', '-include', 'array', '-fno-access-control',
        '-I' + build.REPO, '-I' + build.CONTRACTS]
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:handle_segv=0:handle_abort=0:detect_stack_use_after_return=1',
           TSAN_OPTIONS='halt_on_error=1 exitcode=66 report_bugs=1 handle_segv=0')

REUSE = {'ASAN_OPTIONS': ENV['ASAN_OPTIONS'] + ':quarantine_size_mb=0:thread_local_quarantine_size_kb=0'}


class Native:
    """one program: harness files, the library and the runtime"""

    def __init__(self, tmp, files, san=True, defs=()):
        self.tmp = os.path.join(tmp, 'nat_' + hashlib.md5(repr((files, san, defs)).encode()).hexdigest()[:8])
        self.files = files
        self.san = ['-fsanitize=thread'] if san == 'thread' else SAN if san else ['-O2']
        self.defs = list(defs)
        self.exe = None
        self.error = None

    def build(self):
        if self.exe or self.error:
            return self.exe
        os.makedirs(self.tmp, exist_ok=True)
        srcs = build.sources() + list(self.files) + [os.path.join(build.CONTRACTS, 'native.cpp')]
        objs = []

        def one(s):
            o = os.path.join(self.tmp, s.replace('/', '_') + '.o')
            r = subprocess.run(BASE + self.san + self.defs + ['-c', s, '-o', o], capture_output=True, text=True)
            return o, r
        with cf.ThreadPoolExecutor(8) as ex:
            for o, r in ex.map(one, srcs):
                if r.returncode:
                    self.error = r.stderr[-3000:]
                    return None
                objs.append(o)
        exe = os.path.join(self.tmp, 'native')
        r = subprocess.run(['g++', '-rdynamic'] + self.san + objs + ['-o', exe, '-ldl'], capture_output=True, text=True)
        if r.returncode:
            self.error = r.stderr[-3000:]
            return None
        self.exe = exe
        return exe

    def run(self, args, timeout, stack=None, env=None, space=None):
        pre = None
        if stack or space:
            import resource

            def pre():
                if stack:
                    resource.setrlimit(resource.RLIMIT_STACK, (stack, stack))
                if space:
                    resource.setrlimit(resource.RLIMIT_AS, (space, space))
        try:
            r = subprocess.run([self.exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout,
                               env=dict(ENV, **(env or {})), cwd=self.tmp, preexec_fn=pre, errors='replace')
        except subprocess.TimeoutExpired:
            return ('timeout', '')
        out = r.stdout
        m = re.search(r'^(NATIVE-\w+.*)$', out, re.M)
        if r.returncode == -9 or (m and 'bad_alloc' in m.group(1)):
            return ('error', 'out of memory')
        if m:
            return ('fail', m.group(1))
        if 'AddressSanitizer' in r.stderr or 'runtime error' in r.stderr:
            x = re.search(r'(ERROR: AddressSanitizer.*|.*runtime error.*)', r.stderr)
            return ('fail', 'NATIVE-CRASH ' + (x.group(1)[:300] if x else 'sanitizer report'))
        if 'WARNING: ThreadSanitizer' in r.stderr:
            x = re.search(r'WARNING: (ThreadSanitizer: [^(\n]*)', r.stderr)
            w = re.findall(r'^    #\d+ (.*)$', r.stderr, re.M)
            return ('fail', 'NATIVE-RACE ' + x.group(1) + '; '.join(y.split(' (')[0] for y in w if 'goost' in y)[:500])
        if 'TOO-LARGE' in out:
            return ('large', '')
        m = re.search(r'^OK (\d+) (\d+)', out, re.M)
        if m:
            return ('ok', (int(m.group(1)), int(m.group(2))))
        if r.returncode < 0:
            return ('fail', 'NATIVE-CRASH signal %d' % -r.returncode)
        return ('error', (out + r.stderr)[-500:])

    def replay(self, h, model, case, path, timeout=60):
        lines = []
        inp = dict(case)
        inp.update({k: v for k, v in (model or {}).get('inputs', {}).items() if isinstance(v, int)})
        for k, v in inp.items():
            lines.append('i %s %d' % (k, v))
        for n, (ents, els) in ((model or {}).get('ufs') or {}).items():
            if not n.startswith('uf_'):
                continue
            for a, v in ents:
                lines.append('u %s %d %s' % (n, v, ' '.join(str(x) for x in a)))
            if els is not None:
                lines.append('e %s %d' % (n, els))
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        return self.run([h, 'replay', path], timeout)

    def replay_huge(self, h, path, timeout):
        """a model with a very long message, without sanitizers"""
        return self.run([h, 'replay', path, 1], timeout, env={'VC_HUGE': '1'}, space=24 << 30)

    def search(self, hs, seed, count, timeout, cases=None, jobs=8, longs=()):
        """-> (failure text or None, its command arguments, runs done)"""
        args = []
        per = max(1, count // jobs)
        first = min(per, 30)
        for lo, n in ((0, first), (first, per - first)):
            for h in hs:
                for k in range(jobs):
                    if n > 0:
                        args.append([h, 'search', seed, k * per + lo, n] + ['%s=%d' % c for c in (cases or {}).items()])
        # long messages, on a small stack
        for h, fixed in longs:
            args.insert(min(len(args), jobs * len(hs)), [h, 'search', seed, 0, 1] + ['%s=%d' % c for c in fixed.items()] + ['LONG'])
        done = 0
        bad = None
        import time
        end = time.time() + timeout

        def one(a):
            left = end - time.time()
            if left < 1 or bad:
                return ('timeout', ''), a
            if a[-1] == 'LONG':
                return self.run(a[:-1], min(left, 60), 2 << 20, {'VC_LONG': '1'}), a
            # every other run gives freed memory out again at once
            return self.run(a, left, env=REUSE if args.index(a) % 2 else None), a
        with cf.ThreadPoolExecutor(jobs) as ex:
            for (k, d), a in ex.map(one, args):
                if k == 'fail' and bad is None:
                    bad = (d, a)
                elif k == 'ok':
                    done += d[0]
        return (bad[0], bad[1], done) if bad else (None, None, done)
