"""Native execution of the driver functions (the same source compiled to machine code), in a child process."""
import os, sys, time, ctypes, struct, subprocess, pickle, signal, select
import numpy as np


class NativeError(Exception):
    pass


class Native(object):
    """client side: talks to a forked child that has the shared object loaded"""
    def __init__(self, so, ufcoef=None):
        self.so = so
        self.pid = None
        self.ufm = ufcoef
        self.owner = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                serve(self.so, r1, w2, self.ufm)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.owner = os.getpid()
        self.w = os.fdopen(w1, 'wb')
        self.r = r2
        self.buf = b''

    def stop(self):
        if self.pid and self.owner == os.getpid():
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            try:
                self.w.close()
            except OSError:
                pass
            os.close(self.r)
        self.pid = None

    def message(self, timeout):
        """next result of the child, None if it died or timed out"""
        end = time.time() + timeout
        while True:
            if len(self.buf) >= 4:
                n = struct.unpack('<I', self.buf[:4])[0]
                if len(self.buf) >= 4 + n:
                    m = self.buf[4:4 + n]
                    self.buf = self.buf[4 + n:]
                    return pickle.loads(m)
            rl, _, _ = select.select([self.r], [], [], max(0, end - time.time()))
            if not rl:
                return None
            b = os.read(self.r, 1 << 16)
            if not b:
                return None
            self.buf += b

    def call(self, name, dargs, iargs, timeout=20):
        """iargs: list of ints or ('arr', [doubles], n) in/out double arrays, ('iarr',[ints]).
        returns (status, ret, arrays) with status 0 ok, 1 threw, 2 crashed/timeout"""
        return self.batch(name, [(dargs, iargs)], timeout)[0]

    def batch(self, name, calls, timeout=20):
        out = []
        i = 0
        while i < len(calls):
            if not self.pid or self.owner != os.getpid():
                self.start()
            try:
                pickle.dump((name, calls[i:]), self.w)
                self.w.flush()
            except (BrokenPipeError, OSError):
                self.stop()
                raise NativeError('native process died')
            n = 0
            while n < len(calls) - i:
                m = self.message(timeout)
                if m is None:
                    break
                out.append(m)
                n += 1
            i += n
            if i < len(calls):
                # the call number i crashed or hung
                self.stop()
                out.append((2, float('nan'), []))
                i += 1
        return out


def serve(so, rfd, wfd, ufm):
    lib = ctypes.CDLL(so, mode=os.RTLD_LAZY | os.RTLD_GLOBAL)
    r = os.fdopen(rfd, 'rb')
    class W(object):        # unbuffered
        def write(self, b):
            while b:
                b = b[os.write(wfd, b):]
    w = W()
    tramp = lib.agv_tramp
    tramp.restype = ctypes.c_int
    # abstract functions: coefficients of the concrete model
    if ufm is not None and hasattr(lib, 'agv_setcoef'):
        lib.agv_setcoef.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.POINTER(ctypes.c_double)]
        for fid in range(64):
            for n in range(1, 6):
                for j, (wt, a) in enumerate(ufm.coef('F%d_%d' % (fid, n), n)):
                    lib.agv_setcoef(fid, n, j, wt, (ctypes.c_double * n)(*a))
    while True:
        try:
            name, calls = pickle.load(r)
        except EOFError:
            return
        f = ctypes.cast(getattr(lib, name), ctypes.c_void_p)
        for dargs, iargs in calls:
            d = (ctypes.c_double * 8)(*dargs)
            I = (ctypes.c_long * 6)()
            keep = []
            for k, a in enumerate(iargs):
                if isinstance(a, tuple):
                    if a[0] == 'arr':
                        b = (ctypes.c_double * max(1, len(a[1])))(*a[1])
                    else:
                        b = (ctypes.c_int * max(1, len(a[1])))(*a[1])
                    keep.append(b)
                    I[k] = ctypes.addressof(b)
                else:
                    I[k] = int(a)
            ret = ctypes.c_double()
            iret = ctypes.c_long()
            st = tramp(f, d, I, ctypes.byref(ret), ctypes.byref(iret))
            m = pickle.dumps((st, (ret.value, iret.value), [list(b) for b in keep]))
            w.write(struct.pack('<I', len(m)) + m)
