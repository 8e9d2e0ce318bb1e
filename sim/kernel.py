"""Deterministic simulation kernel.

Every thread of the system under test is a real OS thread, but exactly one of
them runs at any instant: a thread only gives up the processor inside the
kernel (lock operation, wait, socket/pipe/poll call, clock read, or a source
line chosen by the seeded scheduler) and the kernel decides who runs next.
Time is virtual; it moves by a small seeded cost per step and jumps to the next
event whenever nothing can run.  One integer seed decides everything.
"""

import _thread
import gc
import hashlib
import heapq
import random
import sys

US = 1000
MS = 1000 * US
SEC = 1000 * MS

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread

CODES = {}              # module name -> code objects whose lines are watched
KERNEL = None           # the kernel of the run in progress, if any


class SimKill(BaseException):
    """Unwinds a simulated thread at the end of a run."""


class HarnessError(Exception):
    """The simulator itself is at fault; never reported as a violation."""


def derive(seed, *names):
    text = "/".join([str(seed)] + [str(n) for n in names]).encode()
    return random.Random(int.from_bytes(hashlib.sha256(text).digest()[:8], "big"))


class FaultSource:
    """All fault and scheduling decisions, individually addressable.

    Each decision is the idx-th opportunity of its kind.  Two numbers are drawn
    per opportunity whatever happens, so suppressing one decision (while a
    failing run is minimised) does not change what the others draw.
    """

    def __init__(self, seed, allow=None, until=None):
        self.seed = seed
        self.streams = {}
        self.count = {}
        self.fired = []
        self.fired_by_kind = {}
        self.allow = None if allow is None else set(map(tuple, allow))
        self.kernel = None
        self.quiet_after = None     # virtual ns after which faults stop

    def draw(self, kind):
        try:
            rng = self.streams[kind]
        except KeyError:
            rng = self.streams[kind] = derive(self.seed, "fault", kind)
            self.count[kind] = 0
        idx = self.count[kind]
        self.count[kind] = idx + 1
        r = rng.random
        return idx, r(), r()

    def decide(self, kind, prob):
        """Return None (no fault) or a float in [0, 1) parametrising it."""
        if not prob:
            return None
        idx, fire, param = self.draw(kind)
        if fire >= prob:
            return None
        return self.claim(kind, idx, param)

    def claim(self, kind, idx, param):
        if self.quiet_after is not None and self.kernel.now >= self.quiet_after:
            return None
        if self.allow is not None and (kind, idx) not in self.allow:
            return None
        self.fired.append((kind, idx))
        self.fired_by_kind[kind] = self.fired_by_kind.get(kind, 0) + 1
        return param


RUNNABLE, BLOCKED, DONE = 0, 1, 2


class Thread:
    __slots__ = (
        "tid", "name", "sem", "state", "token", "timed_out", "ident",
        "waiting_on", "killed", "interrupt", "interruptible", "stalled_ns",
        "sentinel", "locks", "in_finalizer",
    )

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.sem = _real_allocate()
        self.sem.acquire()
        self.state = RUNNABLE
        self.token = 0
        self.timed_out = False
        self.ident = None
        self.waiting_on = None
        self.killed = False
        self.interrupt = False
        self.interruptible = False
        self.stalled_ns = 0
        self.sentinel = None
        self.locks = 0


class Kernel:
    def __init__(self, seed, cfg=None, allow=None):
        cfg = cfg or {}
        self.seed = seed
        self.cfg = cfg
        self.faults = FaultSource(seed, allow)
        self.faults.kernel = self
        self.now = 1_000 * SEC + int(derive(seed, "t0").random() * SEC)
        self.start = self.now
        self.wall_offset = 1_700_000_000 * SEC - self.now
        self.gran = cfg.get("gran", 1)
        self.wall_gran = cfg.get("wall_gran", self.gran)
        self.cost_rng = derive(seed, "cost")
        self.cost_lo, self.cost_hi = cfg.get("cost", (1 * US, 6 * US))
        self.p_switch = cfg.get("switch", 0.0)
        self.p_pick = cfg.get("pick", 0.0)
        self.p_stall = cfg.get("stall", 0.0)
        self.stall_hi = cfg.get("stall_hi", 20 * MS)
        self.wake_lat = cfg.get("wake_lat", 0)
        self.p_gc = cfg.get("gc", 0.0)
        self.line_rate = cfg.get("line", 0.0)
        self.line_stall = cfg.get("line_stall", 0.5)
        # preempting again and again in the functions in which it happened once
        self.p_focus = cfg.get("focus", 0.0)
        self.focus = set()
        self.focus_in = cfg.get("focus_in")
        self.focus_min = cfg.get("focus_min", 3)
        for name in self.focus_in or ():
            for module, codes in CODES.items():
                if module == name or module.startswith(name + "."):
                    self.focus.update(codes)
        self.max_steps = cfg.get("max_steps", 1_000_000)
        self.max_jumps = cfg.get("max_jumps", 6_000_000)
        self.line_left = 0
        self.lines = 0
        self.jumps = 0
        self.events = []
        self.eseq = 0
        self.seq = 0            # global event sequence number
        self.steps = 0
        self.switches = 0
        self.threads = []
        self.ready = []
        self.cur = None
        self.killing = False
        self.verdict = None
        self.verdict_detail = ""
        self.harness_error = None
        self.done_sem = _real_allocate()
        self.done_sem.acquire()
        self.trace = hashlib.sha256()
        self.sched_hash = hashlib.sha256()
        self.log = None
        self.total_stall = 0
        self.stalls = []        # (start, end, tid)
        self.in_kernel = 0
        self.on_fire = None
        self.thread_errors = []
        self.unraisable = []
        self.gc_runs = 0
        if self.line_rate:
            self._next_line()

    # ---- time ---------------------------------------------------------
    def charge(self):
        self.now += self.cost_rng.randint(self.cost_lo, self.cost_hi)

    def monotonic_ns(self):
        t = self.now
        return t - t % self.gran

    def wall_ns(self):
        t = self.now + self.wall_offset
        return t - t % self.wall_gran

    def note(self, *item):
        """Record something in the event log (never draws randomness)."""
        self.seq += 1
        text = repr((self.now,) + item)
        self.trace.update(text.encode())
        if self.log is not None:
            self.log.append((self.seq, self.now) + item)
        return self.seq

    # ---- events -------------------------------------------------------
    def at(self, when, fn):
        self.eseq += 1
        heapq.heappush(self.events, (max(when, self.now), self.eseq, fn))

    def after(self, delay, fn):
        self.at(self.now + delay, fn)

    def _fire(self):
        while self.events and self.events[0][0] <= self.now and not self.killing:
            _, _, fn = heapq.heappop(self.events)
            try:
                fn()
            except SimKill:
                raise
            except BaseException as err:     # a bug in the simulator
                import traceback
                self.harness_error = traceback.format_exc()
                self.stop("harness", repr(err))

    # ---- threads ------------------------------------------------------
    def spawn(self, fn, name):
        t = Thread(len(self.threads), name)
        self.threads.append(t)
        self.ready.append(t)
        self.note("spawn", t.tid, name)

        def body():
            nonlocal fn
            if t.tid == 0:
                # the interpreter keeps thread objects by a number that the
                # operating system reuses; always start from a new one
                import threading
                threading._active.pop(_thread.get_ident(), None)
                threading.current_thread()
            t.ident = _thread.get_ident()
            t.sem.acquire()
            try:
                if not self.killing:
                    fn()
            except SimKill:
                pass
            except BaseException as err:
                import traceback
                self.thread_errors.append((t.name, repr(err), traceback.format_exc()))
                del err
            finally:
                # whatever only this thread keeps alive goes while it is its turn
                fn = None
                self._exit(t)

        _real_start(body, ())
        return t

    def _exit(self, t):
        t.state = DONE
        if t.sentinel is not None:
            t.sentinel._force_release()
        if t in self.ready:
            self.ready.remove(t)
        if self.killing:
            self.done_sem.release()
            return
        self.note("exit", t.tid)
        nxt = self._pick(None)
        if nxt is None:
            self.done_sem.release()
        else:
            self._resume(nxt)

    def _resume(self, nxt):
        if nxt is not self.cur:
            self.switches += 1
            self.sched_hash.update(b"%d," % nxt.tid)
        self.cur = nxt
        nxt.sem.release()

    def stop(self, verdict, detail=""):
        if self.verdict is None:
            self.verdict = verdict
            self.verdict_detail = detail
        self.killing = True

    def _pick(self, cur):
        """Choose who runs next; None when the run is over."""
        self.in_kernel += 1
        try:
            while True:
                self._fire()
                if self.killing:
                    return None
                if self.ready:
                    if cur is not None and cur.state == RUNNABLE:
                        if len(self.ready) > 1:
                            p = self.faults.decide("switch", self.p_switch)
                            if p is not None:
                                others = [t for t in self.ready if t is not cur]
                                return others[int(p * len(others))]
                        return cur
                    if len(self.ready) > 1:
                        p = self.faults.decide("pick", self.p_pick)
                        if p is not None:
                            return self.ready[int(p * len(self.ready))]
                    return self.ready[0]
                if self.events:
                    self.now = max(self.now, self.events[0][0])
                    continue
                alive = [t for t in self.threads if t.state != DONE]
                if not alive:
                    if self.verdict is None:
                        self.verdict = "ok"
                    return None
                self.stop("deadlock", "; ".join(
                    f"{t.name} waits on {t.waiting_on}" for t in alive))
                return None
        finally:
            self.in_kernel -= 1

    def _switch(self, cur):
        nxt = self._pick(cur)
        if nxt is cur:
            return
        if nxt is None:
            # the run is over: hand control to the driver and wait to be killed
            self.done_sem.release()
        else:
            self._resume(nxt)
        cur.sem.acquire()
        if self.killing:
            cur.killed = True
            raise SimKill()

    def me(self):
        return self.cur

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.stop("livelock", f"{self.max_steps} steps without finishing")

    def yield_point(self, kind="op"):
        """The current thread could be preempted here."""
        if self.killing or self.in_kernel:
            return
        cur = self.cur
        if cur.ident != _thread.get_ident():
            return
        self.step()
        self.charge()
        if self.p_stall:
            p = self.faults.decide("stall", self.p_stall)
            if p is not None:
                self.stall(cur, p)
                return
        if self.p_gc:
            p = self.faults.decide("gc", self.p_gc)
            if p is not None:
                self.collect()
        if (self.events and self.events[0][0] <= self.now) or len(self.ready) > 1 \
                or self.killing:
            self._switch(cur)

    def collect(self):
        self.gc_runs += 1
        self.note("gc", self.cur.tid)
        gc.collect()

    def stall_length(self, p):
        # log-uniform between 20us and stall_hi
        lo = 20 * US
        hi = max(self.stall_hi, lo + 1)
        return int(lo * (hi / lo) ** p)

    def stall(self, cur, p):
        d = self.stall_length(p)
        self.stalls.append((self.now, self.now + d, cur.tid))
        self.total_stall += d
        cur.stalled_ns += d
        self.note("stall", cur.tid, d)
        self.sleep_until(self.now + d, "stall")

    def sleep_until(self, when, why="sleep"):
        self.block(why, when)

    def block(self, what, deadline=None, interruptible=False):
        """Park the current thread until woken; False when it timed out."""
        if self.killing:
            raise SimKill()
        if self.in_kernel:
            raise HarnessError(f"blocking inside the kernel on {what}")
        cur = self.cur
        self.step()
        cur.state = BLOCKED
        cur.waiting_on = what
        cur.timed_out = False
        cur.token += 1
        token = cur.token
        self.ready.remove(cur)
        cur.interruptible = interruptible
        if deadline is not None:
            lat = 0
            if self.wake_lat and what != "stall":
                lat = int(self.cost_rng.random() * self.wake_lat)

            def expire():
                if cur.state == BLOCKED and cur.token == token:
                    cur.timed_out = True
                    self._make_ready(cur)
            self.at(deadline + lat, expire)
        self._switch(cur)
        cur.interruptible = False
        if cur.interrupt:
            cur.interrupt = False
            raise KeyboardInterrupt()
        return not cur.timed_out

    def _make_ready(self, t):
        t.state = RUNNABLE
        t.waiting_on = None
        self.ready.append(t)

    def wake(self, t):
        if t.state == BLOCKED and not self.killing:
            if t.waiting_on == "stall":
                return      # a descheduled thread cannot be woken early
            t.token += 1
            self._make_ready(t)

    def interrupt(self, t):
        """Deliver SIGINT: only to a thread in an interruptible wait."""
        if t.state == BLOCKED and t.interruptible:
            t.interrupt = True
            self.note("sigint", t.tid)
            self.wake(t)
            return True
        return False

    # ---- source-line preemption --------------------------------------------
    def _next_line(self):
        # geometric, through one draw of the fault stream
        idx, u, p = self.faults.draw("line")
        import math
        self.line_left = 1 + int(math.log(1.0 - u) / math.log(1.0 - self.line_rate))
        self.line_next = (idx, p)

    def on_line(self, code, line):
        if self.in_kernel or self.killing:
            return
        cur = self.cur
        if cur is None or cur.ident != _thread.get_ident():
            return
        self.lines += 1
        if not self.line_rate:
            return
        self.line_left -= 1
        if self.line_left > 0:
            if code not in self.focus or len(self.threads) < self.focus_min:
                return
            p = self.faults.decide("focus", self.p_focus)
            if p is None:
                return
        else:
            idx, p = self.line_next
            self._next_line()
            if self.faults.claim("line", idx, p) is None:
                return
            if self.p_focus and not self.focus_in and len(self.threads) > 2 and code not in self.focus \
                    and (not self.focus or (p * 7919) % 1.0 < .2):
                self.focus = {code}
                caller = sys._getframe(2).f_back
                if (p * 104729) % 1.0 < .7 and caller is not None:
                    self.focus.add(caller.f_code)
        self.step()
        self.charge()
        self.note("line", cur.tid, code.co_name, line - code.co_firstlineno)
        gcp = self.p_gc and (p * 997) % 1.0 < self.p_gc * 20
        if gcp:
            self.collect()
        if p < self.line_stall:
            self.stall(cur, p / self.line_stall)
        else:
            # stand aside until somebody else has had a turn
            if len(self.ready) > 1:
                others = [t for t in self.ready if t is not cur]
                q = (p - self.line_stall) / (1.0 - self.line_stall)
                nxt = others[int(q * len(others))]
                self._resume(nxt)
                cur.sem.acquire()
                if self.killing:
                    raise SimKill()
            else:
                self._switch(cur)

    def on_jump(self):
        self.jumps += 1
        if self.jumps > self.max_jumps and not self.killing:
            self.stop("livelock", f"loop without progress in thread {self.cur.name}")
            raise SimKill()

    # ---- driver -------------------------------------------------------
    def run(self, main, name="main"):
        global KERNEL
        if KERNEL is not None:
            raise HarnessError("nested run")
        KERNEL = self
        gc_was = gc.isenabled()
        gc.disable()
        old_hook = sys.unraisablehook

        def hook(args):
            if isinstance(args.exc_value, SimKill) or self.killing:
                return
            self.unraisable.append(
                (repr(args.exc_value), getattr(args.object, "__qualname__", "?")))
            self.note("unraisable", type(args.exc_value).__name__)
        sys.unraisablehook = hook
        try:
            first = self.spawn(main, name)
            self.cur = first
            first.sem.release()
            self.done_sem.acquire()
            # run over; unwind whatever is left
            self.killing = True
            for t in list(self.threads):
                while t.state != DONE:
                    self.cur = t
                    t.sem.release()
                    self.done_sem.acquire()
        finally:
            sys.unraisablehook = old_hook
            KERNEL = None
            if gc_was:
                gc.enable()
        self.trace.update(repr((self.verdict, self.now, self.steps)).encode())
        return self.verdict
