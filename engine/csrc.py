"""Mechanical extraction of the C sources of /repo: clang -> LLVM IR (for the proofs), gcc -> shared object (for replays)."""
import os
import subprocess
import tempfile
import atexit
import shutil
import llir

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'falcon/nistfalcon/src')
CORE = ['codec.c', 'common.c', 'fft.c', 'fpr.c', 'keygen.c', 'rng.c', 'shake.c', 'sign.c', 'vrfy.c', 'keccak_prng.c', 'keccak256.c']
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        base = os.environ.get('VERIF_TMP') or tempfile.gettempdir()
        _tmp = tempfile.mkdtemp(prefix='verif_', dir=base)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


_cache = {}


class BuildError(Exception):
    pass


def module(cfile, defines=()):
    key = (cfile, tuple(defines))
    if key not in _cache:
        path = cfile if os.path.isabs(cfile) else os.path.join(SRC, cfile)
        out = os.path.join(tmpdir(), os.path.basename(cfile).replace('.c', '') + '_'.join(('',) + tuple(d.replace('=', '_') for d in defines)) + '.ll')
        cmd = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', '-w',
               '-I' + SRC] + ['-D' + d for d in defines] + [path, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-2000:])
        m = llir.parse(open(out).read(), os.path.basename(cfile) + (''.join('+' + d for d in defines)))
        _cache[key] = m
    return _cache[key]


def modules(files, defines=()):
    return [module(f, defines) for f in files]


def shared(files, defines=(), name='lib', extra=(), cc='gcc', wrap=None):
    """real code as a shared object; wrap: {file: extra text appended} to expose static functions"""
    out = os.path.join(tmpdir(), name + '.so')
    srcs = []
    for f in files:
        p = f if os.path.isabs(f) else os.path.join(SRC, f)
        if wrap and f in wrap:
            w = os.path.join(tmpdir(), name + '_wrap_' + os.path.basename(f))
            with open(w, 'w') as fh:
                fh.write('#include "%s"\n%s\n' % (p, wrap[f]))
            p = w
        srcs.append(p)
    cmd = [cc, '-O1', '-g', '-shared', '-fPIC', '-w', '-I' + SRC] + ['-D' + d for d in defines] + list(extra) + srcs + ['-o', out, '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-2000:])
    return out
