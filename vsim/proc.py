"""Simulated child processes: pipes with finite capacity, and USI engines living at the other end.

An engine is a state machine driven by events of the simulator; it reads its stdin line by line, writes
chunks to stdout/stderr, can stall, die mid-line, or refuse to exit.  Engines also record, line by line,
what they were told and in which state, which is the history the protocol oracles judge.
"""
import io
import subprocess

from .kernel import MS, SEC, Signal, SimLock, current_task

CAPACITY = 65536


class Pipe:
    def __init__(self, sim, capacity=CAPACITY):
        self.sim = sim
        self.buf = bytearray()
        self.capacity = capacity
        self.wclosed = False        # no writer any more: reader sees EOF after the buffer
        self.rclosed = False        # no reader any more: writer gets EPIPE
        self.sig = Signal()
        self.on_data = None

    def space(self):
        return self.capacity - len(self.buf)


class SimReader(io.BufferedIOBase):
    """Client side of a child's stdout/stderr (what Popen gives with a PIPE)."""

    def __init__(self, sim, pipe, proc, name):
        self.sim, self.pipe, self.proc, self.pname = sim, pipe, proc, name
        self.rbuf = bytearray()
        self.lk = SimLock()
        self.eof_reads = 0

    def readable(self):
        return True

    def fileno(self):
        return 1000 + self.proc.pid

    def _fill(self):
        """Wait for bytes; False at end of file."""
        p = self.pipe
        self.sim.yield_point('read')
        while not p.buf:
            if p.wclosed:
                return False
            p.sig.wait('pipe-read %s of engine %d' % (self.pname, self.proc.pid))
        n = len(p.buf)
        self.rbuf += p.buf
        del p.buf[:n]
        if self.proc.engine is not None:
            self.proc.engine.unblock()
        return True

    def readline(self, size=-1):
        if self.closed:
            raise ValueError('readline of closed file')
        with self.lk:
            while True:
                i = self.rbuf.find(b'\n')
                if i >= 0:
                    line = bytes(self.rbuf[:i + 1])
                    del self.rbuf[:i + 1]
                    break
                if not self._fill():
                    line = bytes(self.rbuf)
                    self.rbuf.clear()
                    if not line:
                        self.eof_reads += 1
                        self.sim.event('eof', self.proc.pid, self.pname)
                    break
            if line:
                self.sim.event('line', self.proc.pid, self.pname, line)
                self.proc.delivered.append((self.sim.now, len(self.sim.log), line))
            return line

    def read1(self, size=-1):
        with self.lk:
            if not self.rbuf:
                self._fill()
            n = len(self.rbuf) if size is None or size < 0 else min(size, len(self.rbuf))
            b = bytes(self.rbuf[:n])
            del self.rbuf[:n]
            return b

    def read(self, size=-1):
        with self.lk:
            while (size is None or size < 0 or len(self.rbuf) < size) and self._fill():
                pass
            n = len(self.rbuf) if size is None or size < 0 else min(size, len(self.rbuf))
            b = bytes(self.rbuf[:n])
            del self.rbuf[:n]
            return b

    def readinto(self, b):
        d = self.read1(len(b))
        b[:len(d)] = d
        return len(d)

    def peek(self, n=0):
        with self.lk:
            if not self.rbuf:
                self._fill()
            return bytes(self.rbuf)

    def flush(self):
        if self.closed:
            raise ValueError('flush of closed file')

    def close(self):
        self.pipe.rclosed = True
        super().close()


class SimWriter(io.BufferedIOBase):
    """Client side of a child's stdin: buffered, like Popen's default; flush() reaches the pipe."""

    def __init__(self, sim, pipe, proc):
        self.sim, self.pipe, self.proc = sim, pipe, proc
        self.wbuf = bytearray()
        self.lk = SimLock()

    def writable(self):
        return True

    def fileno(self):
        return 2000 + self.proc.pid

    def write(self, b):
        if self.closed:
            raise ValueError('write to closed file')
        with self.lk:
            self.wbuf += bytes(b)
            if len(self.wbuf) > 8192:
                self._flush()
        return len(b)

    def _flush(self):
        p = self.pipe
        while self.wbuf:
            self.sim.yield_point('write')
            if p.rclosed:
                raise BrokenPipeError(32, 'Broken pipe')
            n = min(p.space(), len(self.wbuf))
            if n <= 0:
                p.sig.wait('pipe-write to engine %d' % self.proc.pid)
                continue
            data = bytes(self.wbuf[:n])
            del self.wbuf[:n]
            p.buf += data
            self.sim.event('stdin', self.proc.pid, data)
            p.on_data()

    def flush(self):
        if self.closed:
            raise ValueError('flush of closed file')
        with self.lk:
            self._flush()

    def close(self):
        if not self.closed:
            try:
                with self.lk:
                    self._flush()
            except (BrokenPipeError, ValueError):
                pass
            finally:
                self.pipe.wclosed = True
                super().close()


class SimProc:
    """What subprocess.Popen returns."""
    _sim_popen = True

    def __init__(self, sim, pid, brain, kw):
        self.sim, self.pid, self.returncode = sim, pid, None
        self.args = kw.get('args')
        self.delivered = []
        self.exit_sig = Signal()
        self.engine = None
        inp = Pipe(sim)
        out = Pipe(sim)
        self.pin, self.pout, self.perr = inp, out, None
        text = kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')
        self.stdin = SimWriter(sim, inp, self) if kw.get('stdin') == subprocess.PIPE else None
        self.stdout = SimReader(sim, out, self, 'stdout') if kw.get('stdout') == subprocess.PIPE else None
        self.stderr = None
        if kw.get('stderr') == subprocess.PIPE:
            self.perr = Pipe(sim)
            self.stderr = SimReader(sim, self.perr, self, 'stderr')
        elif kw.get('stderr') == subprocess.STDOUT:
            self.perr = out
        if text:
            enc = kw.get('encoding') or 'utf-8'
            if self.stdin:
                self.stdin = io.TextIOWrapper(self.stdin, enc, write_through=True, line_buffering=kw.get('bufsize') == 1)
            if self.stdout:
                self.stdout = io.TextIOWrapper(self.stdout, enc)
        self.engine = EngineSide(sim, self, brain)
        sim.event('popen', pid)

    def poll(self):
        self.sim.yield_point('poll')
        return self.returncode

    def wait(self, timeout=None):
        sim = self.sim
        sim.yield_point('wait')
        deadline = None if timeout is None else sim.now + int(timeout * SEC)
        while self.returncode is None:
            if deadline is not None and sim.now >= deadline:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.exit_sig.wait('exit of engine %d' % self.pid,
                               None if deadline is None else deadline - sim.now)
        sim.event('waited', self.pid)
        return self.returncode

    def kill(self):
        self.engine.die(-9)

    terminate = kill

    def send_signal(self, s):
        self.engine.die(-s)

    def communicate(self, input=None, timeout=None):
        if input:
            self.stdin.write(input)
        self.stdin.close()
        out = self.stdout.read()
        self.wait()
        return out, b''

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class EngineSide:
    """The child's end: feeds complete lines to the brain, carries out what it returns in order.

    The brain's on_line(line) returns a list of actions, carried out one after the other:
      ('delay', ns)          pass time
      ('out', bytes)         write to stdout (blocks while the pipe is full)
      ('err', n)             write n bytes to stderr
      ('exit', code)         end of the process
      ('call', fn)           fn() may return more actions
    A 'stop'/'ponderhit' may arrive while a search is under way: brain.on_line is called at once, and it may
    return ('replace', actions), which drops what was still to do.
    """

    def __init__(self, sim, proc, brain):
        self.sim, self.proc, self.brain = sim, proc, brain
        self.alive = True
        self.inbuf = bytearray()
        self.claimed = 0            # bytes in the pipe that a pending delivery will take
        self.todo = []
        self.busy = False           # a timer of ours is pending
        self.blocked = False
        self.gen = 0
        self.recv = []              # (time, log index, line, state)
        proc.pin.on_data = self.on_data
        brain.attach(self)

    def on_data(self):
        if not self.alive:
            return
        lat = self.brain.input_latency()
        p = self.proc.pin
        n = len(p.buf) - self.claimed
        self.claimed += n
        if lat:
            self.sim.after(lat, lambda: self.take(n))
        else:
            self.take(n)

    def take(self, n):
        if not self.alive:
            return
        p = self.proc.pin
        self.inbuf += p.buf[:n]
        del p.buf[:n]
        self.claimed -= n
        p.sig.notify_all()
        while self.alive:
            i = self.inbuf.find(b'\n')
            if i < 0:
                return
            line = bytes(self.inbuf[:i])
            del self.inbuf[:i + 1]
            self.recv.append((self.sim.now, len(self.sim.log), line, self.brain.state))
            self.sim.event('recv', self.proc.pid, line)
            acts = self.brain.on_line(line.decode('utf-8', 'replace').rstrip('\r'))
            if acts and acts[0] == 'replace':
                self.todo = []
                self.gen += 1
                self.busy = False
                self.blocked = False
                acts = acts[1]
            self.todo += acts
            self.pump()

    def unblock(self):
        if self.alive and self.blocked:
            self.blocked = False
            self.pump()

    def pump(self):
        sim = self.sim
        while self.alive and self.todo and not self.busy and not self.blocked:
            a = self.todo[0]
            k = a[0]
            if k == 'delay':
                self.todo.pop(0)
                if a[1] > 0:
                    self.busy = True
                    g = self.gen

                    def cont(g=g):
                        if self.alive and g == self.gen:
                            self.busy = False
                            self.pump()
                    sim.after(a[1], cont)
            elif k == 'out':
                p = self.proc.pout
                if p.rclosed:
                    self.die(-13)
                    return
                if p.wclosed:
                    self.todo.pop(0)
                    continue
                n = min(p.space(), len(a[1]))
                p.buf += a[1][:n]
                sim.event('stdout', self.proc.pid, bytes(a[1][:n]))
                p.sig.notify_all()
                if n < len(a[1]):
                    self.todo[0] = ('out', a[1][n:])
                    self.blocked = True
                    sim.probe('engine-blocked-on-full-stdout')
                else:
                    self.todo.pop(0)
            elif k == 'err':
                p = self.proc.perr
                if p is None:
                    self.todo.pop(0)
                    continue
                n = min(p.space(), a[1])
                p.buf += b'e' * max(0, n - 1) + b'\n' * (n > 0)
                p.sig.notify_all()
                if n < a[1]:
                    self.todo[0] = ('err', a[1] - n)
                    self.blocked = True
                    sim.probe('engine-blocked-on-full-stderr')
                else:
                    self.todo.pop(0)
            elif k == 'call':
                self.todo.pop(0)
                more = a[1]()
                if more:
                    self.todo[0:0] = more
            elif k == 'exit':
                self.die(a[1])
            else:
                raise AssertionError(k)

    def die(self, code):
        if not self.alive:
            return
        self.alive = False
        self.brain.state = 'dead'
        self.sim.event('exit', self.proc.pid, code)
        self.proc.pout.wclosed = True
        self.proc.pin.rclosed = True
        if self.proc.perr is not None:
            self.proc.perr.wclosed = True
            self.proc.perr.sig.notify_all()
        self.proc.pout.sig.notify_all()
        self.proc.pin.sig.notify_all()
        self.proc.returncode = code
        self.proc.exit_sig.notify_all()
