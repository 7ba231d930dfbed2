"""Runs one simulated process: a program of steps against the real shgpy.

Executed in a process forked from a warm zygote.  Every step's outcome is
reported to the controller; all I/O, clocks, entropy, locks, compilers and
dynamic loading underneath go through the shim.
"""
import ctypes
import contextlib
import gc
import json
import os
import random
import socket
import sys
import tempfile
import threading
import traceback
import warnings
from pathlib import Path

SHIM = None
TRACE_PREFIX = None


def shim():
    global SHIM
    if SHIM is None:
        SHIM = ctypes.CDLL(None, use_errno=False)
        SHIM.sim_activate.argtypes = [ctypes.c_char_p, ctypes.c_uint64,
                                      ctypes.c_int64, ctypes.c_int64]
        SHIM.sim_thread.argtypes = [ctypes.c_int]
        SHIM.sim_point.argtypes = [ctypes.c_char_p]
        SHIM.sim_counter.argtypes = [ctypes.c_int]
        SHIM.sim_counter.restype = ctypes.c_uint64
        SHIM.sim_time.restype = ctypes.c_int64
    return SHIM


class Conn:
    """One thread's line to the controller."""

    def __init__(self, path, actor, thread):
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.connect(path)
        self.buf = b''
        self.send('H\x1f%s\x1f%d\n' % (actor, thread))

    def send(self, text):
        self.s.sendall(text.encode('utf-8', 'surrogateescape'))

    def recv(self):
        while b'\n' not in self.buf:
            d = self.s.recv(65536)
            if not d:
                os._exit(96)
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return line.decode()


def _jsonable(o):
    import numpy as np
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, np.ndarray):
        return _jsonable(o.tolist())
    if isinstance(o, (complex, np.complexfloating)):
        return {'re': float(o.real), 'im': float(o.imag)}
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_jsonable(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class LineTracer:
    """Scheduling / interruption points on executed lines of the package."""

    def __init__(self, plan):
        self.plan = set(plan)
        self.n = 0
        self.total = 0

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(TRACE_PREFIX):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == 'line':
            i = self.n
            self.n += 1
            if i in self.plan:
                SHIM.sim_point(b'line')
        return self.loc


class Session:
    """Steps of one actor thread."""

    def __init__(self, prog, tid, conn, shared):
        self.prog = prog
        self.tid = tid
        self.conn = conn
        self.vars = shared
        from sim import steps
        self.steps = steps

    def fdcount(self):
        return len(os.listdir('/proc/self/fd'))

    def report(self, d):
        self.conn.send('R\x1f' + json.dumps(_jsonable(d), allow_nan=True) + '\n')
        self.conn.recv()

    def run(self, steps):
        for i, st in enumerate(steps):
            res = {'i': i, 'do': st['do']}
            need = [st[k] for k in ('src', 'use') if st.get(k)]
            if any(n not in self.vars for n in need):
                # the step that was to provide it failed
                res.update(ok=False, skip=True, exc='Skip', msg='', mro=[], fd=0)
                self.report(res)
                continue
            tracer = None
            fd0 = self.fdcount()
            cwd0 = os.getcwd()
            try:
                fn = getattr(self.steps, 'do_' + st['do'])
                prep = getattr(self.steps, 'prep_' + st['do'], None)
                a = prep(self, st) if prep else None
                if 'lines' in st:
                    tracer = LineTracer(st['lines'])
                # the filters belong to the process, not to a thread
                with contextlib.nullcontext([]) if self.prog['nth'] > 1 else \
                        warnings.catch_warnings(record=True) as ws:
                    if self.prog['nth'] == 1:
                        warnings.simplefilter('always')
                    try:
                        if tracer:
                            sys.settrace(tracer.glob)
                        v = fn(self, st, a) if prep else fn(self, st)
                    finally:
                        if tracer:
                            sys.settrace(None)
                res['ok'] = True
                res['v'] = v
                res['w'] = len(ws)
            except BaseException as e:
                res['ok'] = False
                res['exc'] = type(e).__name__
                res['mro'] = [c.__name__ for c in type(e).__mro__]
                res['msg'] = str(e)[:400]
                res['tb'] = [(os.path.basename(f.filename), f.lineno, f.name)
                             for f in traceback.extract_tb(e.__traceback__)][-6:]
                e.__traceback__ = None
                e = None
            if tracer:
                res['nl'] = tracer.n
            if st.get('gc', True):
                gc.collect() if st.get('probe') else None
            res['fd'] = self.fdcount() - fd0
            c1 = os.getcwd()
            if c1 != cwd0:
                res['cwd'] = [cwd0, c1]
            self.report(res)


def main(spec):
    """spec: the spawn request.  Never returns."""
    global TRACE_PREFIX
    code = 0
    try:
        import shgpy
        TRACE_PREFIX = os.path.dirname(shgpy.__file__) + os.sep
        sh = shim()
        root = spec['root']
        null = os.open(os.devnull, os.O_RDWR)
        log = os.open(spec['log'], os.O_CREAT | os.O_WRONLY | os.O_APPEND)
        os.dup2(null, 0)
        os.dup2(log, 1)
        os.dup2(log, 2)
        os.close(log)
        os.close(null)
        env = os.environ
        env.pop('LD_PRELOAD', None)
        env['PATH'] = spec['simbin'] + ':/usr/local/bin:/usr/bin:/bin'
        env['SIMCC_SOCK'] = spec['sock']
        env['SIMCC_REALDIR'] = '/usr/bin'
        env['TMPDIR'] = os.path.join(root, 'tmp')
        env['HOME'] = os.path.join(root, 'home')
        tempfile.tempdir = None
        tempfile._name_sequence = None
        os.chdir(os.path.join(root, spec.get('cwd', 'work')))
        nth = spec['nth'] = len(spec['threads'])
        conns = [Conn(spec['sock'], spec['actor'], t) for t in range(nth)]
        random.seed(spec['entropy'])
        import numpy as np
        np.random.seed(spec['entropy'] & 0xffffffff)
        shared = {}
        from sim import steps  # noqa: F401  (already imported by the zygote)
        sh.sim_activate(root.encode(), spec['entropy'],
                        spec.get('wall', 1700000000) * 10**9,
                        10**18)
        if nth == 1:
            c = conns[0]
            c.recv()
            sh.sim_thread(c.s.fileno())
            Session(spec, 0, c, shared).run(spec['threads'][0])
        else:
            def body(t):
                c = conns[t]
                c.recv()
                sh.sim_thread(c.s.fileno())
                Session(spec, t, c, {} if spec.get('private') else shared).run(spec['threads'][t])
                sh.sim_thread(-1)
                c.send('Z\x1f%d\n' % sh.sim_counter(0))
            ts = [threading.Thread(target=body, args=(t,)) for t in range(nth)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        sh.sim_thread(-1)
        if nth == 1:
            conns[0].send('Z\x1f%d\n' % sh.sim_counter(0))
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        code = 95
    finally:
        os._exit(code)
