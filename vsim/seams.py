"""Puts every source of nondeterminism of the package behind the simulator.

install() must run before anything of cshogi (or concurrent.futures, flask ...) is imported, so that
names bound with `from time import perf_counter` and the like are already the simulated ones.  Outside
a simulated task every replacement falls through to the real thing.
"""
import builtins
import datetime as _datetime
import errno
import io
import os
import queue
import random as _random
import subprocess
import sys
import threading
import time as _time
import _thread

from . import kernel
from .kernel import SimLock, current_task, current_sim, SEC, Signal

_installed = False
real = {}


class WorldHooks:
    """What the running scenario plugs in."""
    popen = None            # callable(args, kwargs) -> process object
    fs = None               # SimFS
    process = None          # multiprocessing stand-ins
    make_server = None
    out = None              # captured standard output


hooks = WorldHooks()


def _sim_time_fn(name, scale, wall):
    r = real[name]

    def f():
        sim = current_sim()
        if sim is None:
            return r()
        v = sim.now + (sim.wall_offset if wall else 0)
        return v if scale is None else v / scale
    f.__name__ = name
    return f


def _sleep(secs):
    sim = current_sim()
    if sim is None:
        return real['sleep'](secs)
    sim.sleep(int(secs * SEC))


class SimDateTime(_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        sim = current_sim()
        if sim is None:
            return _real_datetime.now(tz)
        t = (sim.now + sim.wall_offset) / SEC
        if tz is not None:
            return _real_datetime.fromtimestamp(t, tz)
        return _real_datetime.utcfromtimestamp(t)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


_real_datetime = _datetime.datetime


def _start_new_thread(fn, args=(), kwargs=None):
    t = current_task()
    if t is None:
        return real['start_new_thread'](fn, args, kwargs or {})
    nt = t.sim.spawn('thread', lambda: fn(*args, **(kwargs or {})), group=t.group)
    t.sim.yield_point('thread-start')
    return 0x7000 + nt.seqno


def _set_sentinel():
    t = current_task()
    if t is None:
        return real['set_sentinel']()
    lk = SimLock()

    def done():
        if lk._held is not None:
            lk.release()
    t.sentinels.append(done)
    return lk


class _RLock:
    """threading's pure-Python RLock on top of SimLock (ownership by task)."""

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        t = current_task()
        return t if t is not None else 'outside'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner is not self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner is self._me()

    def _recursion_count(self):
        return self._count if self._owner is self._me() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def _popen(*args, **kw):
    if current_task() is None or hooks.popen is None:
        return real['Popen'](*args, **kw)
    return hooks.popen(args, kw)


class _PopenMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, real['Popen']) or getattr(o, '_sim_popen', False)


class SimPopenFactory(metaclass=_PopenMeta):
    def __new__(cls, *a, **kw):
        return _popen(*a, **kw)


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = hooks.fs
    if current_task() is not None and fs is not None and isinstance(file, (str, bytes, os.PathLike)):
        path = os.path.abspath(os.fsdecode(os.fspath(file)))
        if fs.owns(path):
            return fs.open(path, mode, buffering, encoding, errors, newline)
    return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)


class Out(io.TextIOBase):
    """Captured standard output of the simulated process."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        sim = current_sim()
        if sim is not None:
            sim.event('print', s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)

    @property
    def encoding(self):
        return 'utf-8'


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import multiprocessing
    import wsgiref.simple_server
    for n in ('perf_counter', 'monotonic', 'time', 'perf_counter_ns', 'monotonic_ns', 'time_ns',
              'process_time', 'thread_time'):
        real[n] = getattr(_time, n)
    real['sleep'] = _time.sleep
    for n, scale, wall in (('perf_counter', SEC, False), ('monotonic', SEC, False), ('time', SEC, True),
                           ('perf_counter_ns', None, False), ('monotonic_ns', None, False),
                           ('time_ns', None, True), ('process_time', SEC, False),
                           ('thread_time', SEC, False)):
        setattr(_time, n, _sim_time_fn(n, scale, wall))
    _time.sleep = _sleep
    real['localtime'], real['strftime'] = _time.localtime, _time.strftime

    def localtime(secs=None):
        sim = current_sim()
        if sim is None:
            return real['localtime'](secs)
        return _time.gmtime((sim.now + sim.wall_offset) / SEC if secs is None else secs)

    def strftime(fmt, t=None):
        if t is None:
            t = _time.localtime()
        return real['strftime'](fmt, t)
    _time.localtime, _time.strftime = localtime, strftime
    _datetime.datetime = SimDateTime

    real['start_new_thread'] = _thread.start_new_thread
    real['set_sentinel'] = _thread._set_sentinel
    _thread.start_new_thread = _start_new_thread
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    threading._RLock = _RLock
    threading.RLock = _RLock
    threading.get_ident = lambda: (0x7000 + current_task().seqno) if current_task() else kernel._get_ident()
    threading.get_native_id = threading.get_ident
    queue.SimpleQueue = queue._PySimpleQueue

    real['Popen'] = subprocess.Popen
    subprocess.Popen = SimPopenFactory
    real['open'] = builtins.open
    builtins.open = _open
    io.open = _open
    real['urandom'] = os.urandom

    real['Process'], real['Manager'] = multiprocessing.Process, multiprocessing.Manager

    def Process(*a, **kw):
        if current_task() is None or hooks.process is None:
            return real['Process'](*a, **kw)
        return hooks.process.Process(*a, **kw)

    def Manager(*a, **kw):
        if current_task() is None or hooks.process is None:
            return real['Manager'](*a, **kw)
        return hooks.process.Manager(*a, **kw)
    multiprocessing.Process, multiprocessing.Manager = Process, Manager

    real['make_server'] = wsgiref.simple_server.make_server

    def make_server(*a, **kw):
        if current_task() is None or hooks.make_server is None:
            return real['make_server'](*a, **kw)
        return hooks.make_server(*a, **kw)
    wsgiref.simple_server.make_server = make_server
    import logging
    logging.disable(logging.CRITICAL)
    threading.excepthook = lambda args: None


# -- the disk ----------------------------------------------------------------------------------------
class SimFS:
    """Files below one scratch directory.  What reached write() survives a process crash; what is still in
    a Python buffer does not.  Faults: ENOSPC, EIO, short writes at the raw layer."""

    def __init__(self, sim, root, plan=None):
        self.sim, self.root = sim, os.path.abspath(root)
        self.epoch = 0              # bumped by a crash: handles of an older epoch write nothing
        self.plan = plan or {}
        self.nwrites = 0
        self.writes = []            # (event number, relative path, offset, bytes)
        self.opens = []
        self.broken = None
        self.reads = 0
        self.pending = None
        self.bufsize = None         # smaller buffers, so that a file grows in small pieces
        self.yields = False         # other tasks (and a crash) may come between two writes

    def owns(self, path):
        return path == self.root or path.startswith(self.root + os.sep)

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def open(self, path, mode, buffering, encoding, errors, newline):
        sim = self.sim
        self.opens.append((len(sim.log), self.rel(path), mode))
        sim.event('open', self.rel(path), mode)
        f = self.plan.get('open_error')
        writing = any(c in mode for c in 'wax+')
        if writing and f is not None and f == len([1 for o in self.opens if any(c in o[2] for c in 'wax+')]):
            sim.fault('disk-open-error')
            raise OSError(errno.EACCES, os.strerror(errno.EACCES), path)
        binary = 'b' in mode
        raw = SimRaw(self, path, mode.replace('b', '').replace('t', '') or 'r')
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = buffering == 1
        size = (self.bufsize or io.DEFAULT_BUFFER_SIZE) if buffering in (-1, 1) else buffering
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line)
        t.mode = mode
        if self.bufsize:
            t._CHUNK_SIZE = self.bufsize
        return t

    def crash(self):
        self.epoch += 1


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, mode):
        self.f = io.FileIO(path, mode)
        self.fs, self.path, self.epoch = fs, path, fs.epoch
        self.appending = 'a' in mode
        self.name = path

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        return self.f.truncate(size)

    def fileno(self):
        return self.f.fileno()

    def isatty(self):
        return False

    def readinto(self, b):
        self.fs.reads += 1
        return self.f.readinto(b)

    def write(self, b):
        fs = self.fs
        b = bytes(b)
        if self.epoch != fs.epoch:
            return len(b)           # the process that owned this handle is gone
        if fs.yields:
            fs.sim.yield_point('disk')
        fs.nwrites += 1
        plan = fs.plan
        n = len(b)
        fault = None
        if fs.broken:
            fault = fs.broken
        if fs.pending:
            fault = fs.pending
            if not fs.broken:
                fs.pending = None
                fs.sim.fault('disk-' + fault['kind'])
                fs.sim.event('disk-error', fs.rel(self.path), fault['kind'])
                e = errno.ENOSPC if fault['kind'] == 'enospc' else errno.EIO
                raise OSError(e, os.strerror(e))
        for k in plan.get('writes', ()):
            if k['n'] == fs.nwrites:
                fault = k
                if k.get('sticky'):
                    fs.broken = k
        if fault:
            kind = fault['kind']
            fs.sim.fault('disk-' + kind)
            if kind == 'short':
                n = max(1, int(n * fault['frac'])) if n else 0
                b = b[:n]
            else:
                if fault.get('posix') and not fs.pending and n > 1:
                    # what a full disk does: the part that fits is written and counted, the rest fails
                    fs.pending = fault
                    n = max(1, int(n * fault['frac']))
                    off = self.f.seek(0, 2) if self.appending else self.f.tell()
                    self.f.write(b[:n])
                    fs.writes.append((len(fs.sim.log), fs.rel(self.path), off, b[:n]))
                    fs.sim.event('write', fs.rel(self.path), off, n, 'part')
                    return n
                part = 0 if fault.get('posix') else int(n * fault.get('frac', 0)) if fault is not fs.broken or fault.get('n') == fs.nwrites else 0
                if part:
                    off = self.f.seek(0, 2) if self.appending else self.f.tell()
                    self.f.write(b[:part])
                    fs.writes.append((len(fs.sim.log), fs.rel(self.path), off, b[:part]))
                    fs.sim.event('write', fs.rel(self.path), off, part, 'torn')
                e = errno.ENOSPC if kind == 'enospc' else errno.EIO
                fs.sim.event('disk-error', fs.rel(self.path), kind)
                raise OSError(e, os.strerror(e))
        off = self.f.seek(0, 2) if self.appending else self.f.tell()
        self.f.write(b)
        fs.writes.append((len(fs.sim.log), fs.rel(self.path), off, b))
        fs.sim.event('write', fs.rel(self.path), off, n)
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.f.close()
