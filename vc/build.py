"""From /repo's working tree to one LLVM module.  Nothing is rewritten: the
front end is clang, the only passes are sroa (promotes locals to registers)
and simplifycfg."""
import glob
import os
import subprocess
import concurrent.futures as cf

REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')
CXX = 'clang++-18'
STD = ['-std=c++17', '-include', 'array', '-I' + REPO, '-I' + CONTRACTS]


class BuildError(Exception):
    pass


def sources():
    fs = sorted(glob.glob(os.path.join(REPO, 'goost', '**', '*.cpp'), recursive=True))
    if not fs:
        raise BuildError('no sources under %s/goost' % REPO)
    return fs


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    return r.stdout


def to_bc(src, out, extra=()):
    a = out + '.0.bc'
    run([CXX] + STD + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w', '-fno-access-control',
                       '-emit-llvm', '-c', src, '-o', a] + list(extra))
    run(['opt-18', '-passes=sroa,simplifycfg', a, '-o', out])
    os.unlink(a)


def demangle(names):
    names = list(names)
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return r.stdout.split('\n')[:len(names)]


def build(tmp, harnesses, extra=()):
    """bitcode of the library plus the harness files; path of the module"""
    os.makedirs(tmp, exist_ok=True)
    jobs = []
    outs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for h in harnesses:
            o = os.path.join(tmp, 'h_' + os.path.basename(h) + '.bc')
            outs.append(o)
            jobs.append(ex.submit(to_bc, h, o, extra))
        for s in sources():
            o = os.path.join(tmp, os.path.relpath(s, REPO).replace('/', '_') + '.bc')
            outs.append(o)
            jobs.append(ex.submit(to_bc, s, o))
        for j in jobs:
            j.result()
    m = os.path.join(tmp, 'module.bc')
    run(['llvm-link-18'] + outs + ['-o', m])
    return m
