"""What every scenario shares: one run = plan (JSON) + stream of decisions -> outcome."""
import gc
import os
import random
import shutil
import sys
import traceback

from . import kernel, seams
from .kernel import Sim, Decisions

PKG = None          # directory of the package under test (set by the worker)
FOCUS = None        # classes 'tag:...' are judged only if tag is in here (None: all); untagged ones always
TIER = 'quick'


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls, self.msg = cls, msg


def focused(cls):
    return FOCUS is None or ':' not in cls or cls.split(':')[0] in FOCUS


def check(cond, cls, msg=''):
    if not cond and focused(cls):
        raise Violation(cls, msg() if callable(msg) else msg)


class Skip(Exception):
    """The run went astray in a way another property reports; nothing further can be judged."""


class Outcome:
    def __init__(self):
        self.violation = None       # (class, message)
        self.digest = None
        self.sched = []             # decisions taken
        self.faults = {}
        self.probes = {}
        self.sim_ns = 0
        self.steps = 0
        self.switches = 0
        self.sig = None             # fingerprint of what the run explored, for counting distinct ones
        self.trivial = False

    def to_json(self):
        return dict(v=self.violation, d=self.digest, f=self.faults, p=self.probes, t=self.sim_ns, s=self.steps,
                    w=self.switches, g=self.sig, x=self.trivial)


class World:
    """Subclasses: gen(rng, tier) -> plan; body(plan, sim, out) runs the code and judges it."""
    prop = None
    max_steps = 60_000
    preempt = 0.02
    max_time_s = None
    scratch = None
    traced = True

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, plan, decisions):
        out = Outcome()
        gc.disable()
        random.seed(plan.get('pyseed', 918273645))
        trace = (os.path.join(PKG, 'cshogi') + os.sep,) if self.traced and plan.get('preempt', self.preempt) else None
        sim = Sim(decisions, max_steps=plan.get('max_steps', self.max_steps), preempt=plan.get('preempt', self.preempt),
                  trace_files=trace, switch=plan.get('switch', 0.5))
        t0 = sim.now
        cap = seams.Out()
        old = sys.stdout
        sys.stdout = cap
        self.cap = cap
        try:
            try:
                self.body(plan, sim, out)
            except Violation as e:
                out.violation = [e.cls, e.msg[:2000]]
                sim.event('VIOLATION', e.cls)
            except Skip as e:
                sim.event('SKIP', str(e))
            except Exception as e:
                # the code under test broke an assumption so basic that the scenario could not go on
                out.violation = ['exception-' + type(e).__name__, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]]
                sim.event('VIOLATION', out.violation[0])
        finally:
            seams.hooks.fs and seams.hooks.fs.crash()
            if not sim.kill():
                print('unkillable task', file=sys.stderr)
            sys.stdout = old
            seams.hooks.popen = seams.hooks.fs = seams.hooks.process = seams.hooks.make_server = None
            self.cleanup()
        out.sim_ns = sim.now - t0
        out.steps, out.switches = sim.steps, sim.switches
        out.faults, out.probes = sim.faults, sim.probes
        out.digest = sim.digest()
        out.sched = decisions.out
        if out.sig is None:
            out.sig = out.digest[:16]
        self.last_sim = sim
        gc.collect()
        return out

    def cleanup(self):
        pass

    def scratch_dir(self):
        """An empty directory for this run."""
        d = os.path.join(self.scratch, 'fs')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    # -- minimisation: generic shrinks of a plan -----------------------------------------------
    droppable = ()          # names of lists in the plan whose elements may be dropped
    simpler = {}            # name -> simplest value

    def shrinks(self, plan):
        import copy
        for name in self.droppable:
            lst = plan.get(name)
            if not lst:
                continue
            n = len(lst)
            k = n
            while k >= 1:
                for i in range(0, n, k):
                    q = copy.deepcopy(plan)
                    del q[name][i:i + k]
                    yield q
                k //= 2
        for name, val in self.simpler.items():
            if name in plan and plan[name] != val:
                q = copy.deepcopy(plan)
                q[name] = val
                yield q


def raised(task):
    e = task.exc
    if e is None:
        return ''
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
