"""Compiles /repo's current sources (and the client functions of /verif/harness) to one LLVM
module.  Nothing is cached between runs."""
import glob
import os
import shutil
import subprocess
import tempfile
import atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else '/usr/bin/clang++'
LINK = '/usr/bin/llvm-link'
FLAGS = ['-std=gnu++17', '-include', 'cstdint', '-O0', '-Xclang', '-disable-O0-optnone',
         '-gline-tables-only', '-fno-access-control', '-w']


class BuildError(Exception):
    pass


def scratch():
    base = os.path.join(HERE, 'build')
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix='w', dir=base)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, True))
    return d


def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout


def sources():
    return sorted(f for f in glob.glob(REPO + '/src/*/*.cpp') if os.path.getsize(f) > 0)


def module(d, harness=None):
    """-> (path of linked bitcode, list of sources that did not compile)"""
    if harness is None:
        harness = sorted(os.path.basename(f) for f in glob.glob(HERE + '/harness/c*.cpp'))
    jobs = [(f, os.path.join(d, 'r_' + os.path.basename(f)[:-4] + '.bc'), True) for f in sources()]
    jobs += [(os.path.join(HERE, 'harness', h), os.path.join(d, 'h_' + h[:-4] + '.bc'), False) for h in harness]

    def one(j):
        src, out, repo = j
        rc, o = run([CXX] + FLAGS + ['-I' + REPO + '/includes', '-c', '-emit-llvm', src, '-o', out])
        return j, rc, o
    bad = []
    outs = []
    with ThreadPoolExecutor(8) as ex:
        for (src, out, repo), rc, o in ex.map(one, jobs):
            if rc:
                bad.append((src, o))
            else:
                outs.append(out)
    al = os.path.join(d, 'all.bc')
    rc, o = run([LINK] + outs + ['-o', al])
    if rc:
        raise BuildError('llvm-link: ' + o[-2000:])
    return al, bad
