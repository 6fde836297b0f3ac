"""Concrete replay of the real C code: shared objects built from /repo's current sources, called in a child process
with every buffer placed against an inaccessible page (and canaries in front), so that out-of-bounds accesses fail."""
import ctypes
import mmap
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import tempfile
import time

libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PAGE = 4096


class Guard:
    """n bytes ending (aligned down to `align`) right before an inaccessible page"""
    pool = {}

    def __init__(self, n, data=None, fill=0xA5, align=1, front=False):
        """front: the inaccessible page lies before the bytes instead"""
        self.front = front
        if front:
            pages = (n + 64 + PAGE - 1) // PAGE + 1
            self.n, self.pages, self.slack, self.fill = n, pages, 64, fill
            self.base = libc.mmap(None, (pages + 1) * PAGE, 3, 0x22, -1, 0)
            libc.mprotect(self.base, PAGE, 0)
            self.addr = self.base + PAGE
            ctypes.memset(self.addr, fill, pages * PAGE)
            if data is not None:
                ctypes.memmove(self.addr, bytes(data), len(data))
            return
        pages = (n + 64 + PAGE - 1) // PAGE + 1
        self.n = n
        lst = Guard.pool.setdefault(pages, [])
        if lst:
            self.base = lst.pop()
        else:
            self.base = libc.mmap(None, (pages + 1) * PAGE, 3, 0x22, -1, 0)
            libc.mprotect(self.base + pages * PAGE, PAGE, 0)
        self.pages = pages
        end = self.base + pages * PAGE
        self.addr = end - n
        self.addr -= self.addr % align
        self.slack = end - n - self.addr
        ctypes.memset(self.base, fill, pages * PAGE)
        if data is not None:
            assert len(data) <= n
            ctypes.memmove(self.addr, bytes(data), len(data))
        self.fill = fill
        self.pre = ctypes.string_at(self.addr - 64, 64)

    def bytes(self, n=None):
        return ctypes.string_at(self.addr, self.n if n is None else n)

    def ok(self):
        """canaries in front (and alignment slack behind) untouched"""
        return (self.front or ctypes.string_at(self.addr - 64, 64) == self.pre) and \
            ctypes.string_at(self.addr + self.n, self.slack) == bytes([self.fill]) * self.slack

    def ptr(self):
        return ctypes.c_void_p(self.addr)

    def free(self):
        if self.front:
            libc.munmap(self.base, (self.pages + 1) * PAGE)
            return
        Guard.pool[self.pages].append(self.base)


def run_cases(gen, test, budget, note=None):
    """gen: iterator of cases (picklable); test(case) -> None or description of the failure.
    Runs in child processes; a crash of the code under test counts as a failure of the current case."""
    t0 = time.time()
    f = tempfile.NamedTemporaryFile(prefix='vcase', delete=False)
    f.close()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            n = 0
            cf = open(f.name, 'wb')
            for case in gen:
                if time.time() - t0 > budget:
                    break
                cf.seek(0)
                cf.truncate()
                pickle.dump(case, cf)
                cf.flush()
                n += 1
                signal.alarm(30)
                bad = test(case)
                signal.alarm(0)
                if bad:
                    os.write(w, pickle.dumps(('bad', n, case, bad)))
                    os._exit(0)
            os.write(w, pickle.dumps(('done', n, None, None)))
        except BaseException as e:
            import traceback
            os.write(w, pickle.dumps(('error', 0, None, traceback.format_exc()[-1500:])))
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        if data:
            kind, n, case, bad = pickle.loads(data)
            if kind == 'bad':
                return dict(input=describe(case), observed=bad, cases_tried=n)
            if kind == 'error':
                return dict(_error=bad)
            return None
        if os.WIFSIGNALED(st):
            case = pickle.load(open(f.name, 'rb'))
            return dict(input=describe(case), observed='the code under test died with signal %d (%s)' % (os.WTERMSIG(st), signal.Signals(os.WTERMSIG(st)).name))
    finally:
        os.unlink(f.name)
    return None


def describe(x):
    if isinstance(x, (bytes, bytearray)):
        return 'hex:' + bytes(x).hex()
    if isinstance(x, dict):
        return {k: describe(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [describe(v) for v in x]
    return x


def i16(xs):
    import struct
    return struct.pack('<%dh' % len(xs), *xs)


def u16(xs):
    import struct
    return struct.pack('<%dH' % len(xs), *xs)


def i8(xs):
    import struct
    return struct.pack('<%db' % len(xs), *xs)


def un16(b, signed=False):
    import struct
    return list(struct.unpack('<%d%s' % (len(b) // 2, 'h' if signed else 'H'), b))
