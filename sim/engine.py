"""Instruction-level scheduler.

Caller threads are real threads; exactly one is released at a time.  Every bytecode
instruction of library code raises a monitoring event, at which the running thread can be
parked and another one released.  A switch is identified by (thread, operation, number of
library instructions executed in that operation, target thread), so removing one switch or
one operation from a trace leaves the meaning of the others intact.
"""
import dis
import gc
import sys
import types
import _thread

from . import boot

MON = sys.monitoring
TOOL = 4
E_INS = MON.events.INSTRUCTION
E_CALL = MON.events.CALL
E_CRET = MON.events.C_RETURN
E_START = MON.events.PY_START

CODES = {}          # code -> bytes of flags per offset
SUSPS = set()       # those that write lasting state
DORMANT = {}        # code -> offsets, of the lines among them that single calls do not reach
F_HOT = 1           # touches state that may be shared
F_BP = 2            # function entry or backward jump: async exceptions are delivered here
F_ALLOC = 4         # allocates
F_STORE = 8         # just after a write to state that may be shared
F_RESUME = 32       # function entry
F_AFTER = 64        # first instruction after one that can run foreign code or store
F_SUSP = 16         # near a write, outside a constructor, to state that outlives the call

STORES = {"STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "DELETE_ATTR", "DELETE_GLOBAL", "DELETE_SUBSCR",
          "STORE_DEREF", "STORE_SLICE", "STORE_NAME", "DELETE_DEREF"}
HOT = STORES | {"LOAD_ATTR", "LOAD_GLOBAL", "BINARY_SUBSCR", "CALL", "LOAD_DEREF", "LOAD_SUPER_ATTR",
                "FOR_ITER", "CONTAINS_OP", "CALL_FUNCTION_EX", "BINARY_SLICE"}
ALLOC = {"BINARY_OP", "BUILD_STRING", "BUILD_LIST", "BUILD_TUPLE", "BUILD_MAP", "BUILD_SET", "FORMAT_VALUE",
         "LIST_APPEND", "LIST_EXTEND", "MAP_ADD", "BINARY_SLICE", "DICT_UPDATE", "BUILD_CONST_KEY_MAP",
         "MAKE_FUNCTION", "BUILD_SLICE", "SET_ADD"}
BACK = {"JUMP_BACKWARD"}
EFFECT = STORES | {"CALL", "CALL_FUNCTION_EX", "BEFORE_WITH", "WITH_EXCEPT_START", "IMPORT_NAME", "FOR_ITER", "RESUME",
                   "YIELD_VALUE", "SEND"}
MUTATORS = {"append", "clear", "extend", "add", "update", "setdefault", "pop", "popitem", "insert", "remove",
            "discard", "appendleft", "popleft", "write", "seek", "truncate", "__dict__", "__setattr__", "release",
            "set", "notify", "notify_all", "__setitem__", "__delitem__", "cache_clear", "sort", "reverse", "put", "get_nowait",
            "acquire", "wait", "__next__", "heappush", "heappop", "heapreplace", "heappushpop", "insort", "insort_left",
            "insort_right", "move_to_end", "rotate", "extendleft", "difference_update", "intersection_update",
            "symmetric_difference_update", "pack_into", "readinto", "read", "readline", "send", "shuffle", "put_nowait",
            "__iadd__", "__ior__", "reset", "task_done", "feed", "subtract"}
MUTFUNCS = {"setattr", "delattr", "globals", "vars", "exec", "next", "heappush", "heappop", "heapreplace", "heappushpop",
            "insort", "insort_left", "insort_right", "pack_into", "islice", "locals"}
BUILDERS = ("__init__", "__new__", "__setstate__", "<module>")
WINDOW = 6


def suspicious(code, ins, prev):
    n = ins.opname
    if n in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_SLICE"):
        return code.co_name not in ("<module>",)
    if n in ("STORE_ATTR", "DELETE_ATTR"):
        own = prev is not None and prev.opname.startswith("LOAD_FAST") and code.co_varnames[:1] == (prev.argval,)
        return not (own and code.co_name in BUILDERS)
    if n == "LOAD_ATTR":
        return ins.argval in MUTATORS
    if n == "LOAD_GLOBAL":
        return ins.argval in MUTFUNCS
    if n in ("STORE_DEREF", "DELETE_DEREF"):
        return ins.argval in code.co_freevars
    return n == "BEFORE_WITH"


def flags(code):
    out = bytearray(len(code.co_code) + 2)
    hot_next = False
    near = 0
    prev = None
    for ins in dis.get_instructions(code):
        f = 0
        n = ins.opname
        if hot_next:
            f |= F_STORE
        hot_next = n in STORES
        if n in HOT:
            f |= F_HOT
        if prev is not None and prev.opname == "RESUME":
            # RESUME itself raises no instruction event; nothing happens in between
            f |= F_BP | F_RESUME
        if n in BACK:
            f |= F_BP
        if n in ALLOC:
            f |= F_ALLOC
        if prev is not None and prev.opname in EFFECT or n in ("PUSH_EXC_INFO", "RESUME"):
            f |= F_AFTER
        if suspicious(code, ins, prev):
            near = WINDOW
        if near:
            near -= 1
            f |= F_SUSP
        prev = ins
        out[ins.offset] = f
    return bytes(out)


def add_code(code, seen):
    if code in seen or not code.co_filename.startswith(boot.PKG):
        return
    seen.add(code)
    CODES[code] = flags(code)
    if any(x & F_SUSP for x in CODES[code]):
        SUSPS.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            add_code(c, seen)


def instrument(events=E_INS):
    """switch local events on for all library code (done once in the zygote)"""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "sim")
    seen = set(CODES)
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            add_code(o.__code__, seen)
    for c in CODES:
        MON.set_local_events(TOOL, c, events | E_START)
    return len(CODES)


def code_name(code):
    return "%s:%s:%d" % (code.co_filename[len(boot.PKG):], code.co_qualname, code.co_firstlineno)


def susp_codes():
    """functions that write state outliving the call, outside constructors"""
    return sorted(code_name(c) for c, f in CODES.items() if any(x & F_SUSP for x in f))


class Cover:
    """library functions entered while active"""

    def __enter__(self):
        self.seen = set()
        add = self.seen.add
        MON.register_callback(TOOL, E_START, lambda code, off: add(code))
        return self

    def __exit__(self, *a):
        MON.register_callback(TOOL, E_START, None)


class Lines:
    """lines of library code reached; new(): those reached since the last question"""

    def __enter__(self):
        self.now = set()
        MON.register_callback(TOOL, MON.events.LINE, self.line)
        MON.restart_events()
        for c in CODES:
            MON.set_local_events(TOOL, c, MON.events.LINE)
        return self

    def line(self, code, n):
        self.now.add("%s:%d" % (code.co_filename[len(boot.PKG):], n))
        return MON.DISABLE

    def new(self):
        out, self.now = self.now, set()
        return out

    def __exit__(self, *a):
        MON.register_callback(TOOL, MON.events.LINE, None)


def all_lines(codes=CODES):
    return {"%s:%d" % (c.co_filename[len(boot.PKG):], n) for c in codes for _, _, n in c.co_lines()
            if n and n != c.co_firstlineno}


def dormant(lines):
    for c in SUSPS:
        f = c.co_filename[len(boot.PKG):]
        offs = {o for a, b, n in c.co_lines() if n and "%s:%d" % (f, n) in lines for o in range(a, b, 2)}
        if offs:
            DORMANT[c] = offs
            CODES[c] = bytes(f | F_SUSP if o in offs else f for o, f in enumerate(CODES[c]))


def callbacks(ins=None, cret=None, call=None):
    MON.register_callback(TOOL, E_INS, ins)
    MON.register_callback(TOOL, E_CRET, cret)
    MON.register_callback(TOOL, E_CALL, call)


def importing():
    f = sys._getframe(1)
    while f is not None:
        if "importlib" in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


class Th:
    __slots__ = ("tid", "gate", "n", "next", "done", "waits", "deadline", "ident", "sw", "timed_out", "op", "loc")

    def __init__(self, tid):
        self.tid = tid
        self.gate = boot.real_lock()
        self.gate.acquire()
        self.n = 0
        self.next = -1
        self.done = False
        self.waits = None
        self.deadline = None
        self.ident = None
        self.sw = {}
        self.timed_out = False
        self.op = -1
        self.loc = None


class Stuck(Exception):
    pass


CAP = 3_000_000


class Engine:
    """bodies: list of callables, one per simulated thread.

    strategy: {"kind": "list", "sw": [[tid, op, n, to], ...]}     replay
              {"kind": "rand", "p": float}                        geometric gaps
              {"kind": "hot", "p": float, "mask": flags}          at interesting instructions
              {"kind": "pct", "points": [[tid, op, n], ...]}      few long preemptions
    """

    def __init__(self, bodies, strategy, rng, first=0, on_step=None, on_switch=None):
        self.bodies = bodies
        self.st = strategy
        self.rng = rng
        self.th = [Th(i) for i in range(len(bodies))]
        self.trace = []
        self.locs = []
        self.cur = None
        self.finished = boot.real_lock()
        self.finished.acquire()
        self.stuck = None
        self.first = first
        self.total = 0
        self.on_step = on_step
        self.on_switch = on_switch
        k = strategy["kind"]
        self.plan = {}
        if k == "list":
            for tid, op, n, to in strategy["sw"]:
                self.plan.setdefault((tid, op), {})[n] = to
        elif k == "pct":
            for tid, op, n in strategy["points"]:
                self.plan.setdefault((tid, op), {})[n] = None
        else:
            pass

    def _gap(self, p):
        g = 1
        r = self.rng.random
        if p < 0.02:
            import math
            return 1 + int(math.log(max(1e-12, 1 - r())) / math.log(1 - p))
        while r() > p:
            g += 1
        return g

    def begin(self, tid, op):
        """thread tid starts operation op"""
        t = self.th[tid]
        t.op = op
        t.n = 0
        t.sw = self.plan.get((tid, op), {})
        if self.st["kind"] == "rand":
            t.next = self._gap(self.st["p"])

    # -- callbacks ------------------------------------------------------------------
    def make_callback(self):
        kind = self.st["kind"]
        eng = self
        ident = boot.real_ident
        on_step = self.on_step
        if kind in ("list", "pct"):
            def cb(code, off):
                t = eng.cur
                if t is None or t.ident != ident():
                    return
                t.n += 1
                eng.total += 1
                if on_step is not None:
                    on_step(t, code, off)
                if t.n in t.sw:
                    eng.preempt(t, code, off, t.sw[t.n])
                elif t.n > CAP:
                    eng.overrun(t, code, off)
        elif kind == "rand":
            def cb(code, off):
                t = eng.cur
                if t is None or t.ident != ident():
                    return
                t.n += 1
                eng.total += 1
                if on_step is not None:
                    on_step(t, code, off)
                if t.n == t.next:
                    t.next = t.n + eng._gap(eng.st["p"])
                    eng.preempt(t, code, off, None)
                elif t.n > CAP:
                    eng.overrun(t, code, off)
        else:
            mask = self.st["mask"]
            p = self.st["p"]
            rnd = self.rng.random

            def cb(code, off):
                t = eng.cur
                if t is None or t.ident != ident():
                    return
                t.n += 1
                eng.total += 1
                if on_step is not None:
                    on_step(t, code, off)
                if CODES[code][off] & mask and rnd() < p:
                    eng.preempt(t, code, off, None)
                elif t.n > CAP:
                    eng.overrun(t, code, off)
        return cb

    def owns_current(self):
        return self.cur is not None and self.cur.ident == boot.real_ident()

    def runnable(self, but=None):
        return [x for x in self.th if not x.done and x.waits is None and x is not but]

    def preempt(self, t, code, off, to):
        c = self.runnable(t)
        if not c or importing():
            return
        if to is None:
            u = self.rng.choice(c)
        else:
            u = self.th[to] if to < len(self.th) else None
            if u not in c:
                return
        self.trace.append([t.tid, t.op, t.n, u.tid])
        t.loc = (code.co_qualname, off)
        self.locs.append((t.loc, u.loc))
        if self.on_switch is not None:
            self.on_switch(t, u)
        self._switch(t, u)

    def overrun(self, t, code, off):
        """a thread that never gets anywhere: rotate fairly, then call it stuck"""
        if t.n > 2 * CAP:
            self._stop("livelock: thread %d executed %d steps without finishing (in %s)" % (t.tid, t.n, code.co_name))
            self._park_forever()
        if t.n % 50 == 0:
            c = self.runnable(t)
            if c and not importing():
                u = next((x for x in c if x.tid > t.tid), c[0])
                self._switch(t, u)

    def _switch(self, t, u):
        self.cur = u
        u.gate.release()
        t.gate.acquire()

    def _park_forever(self):
        boot.real_lock().acquire()
        l = boot.real_lock()
        l.acquire()
        l.acquire()

    def _stop(self, why):
        if self.stuck is None:
            self.stuck = why
        self.cur = None
        try:
            self.finished.release()
        except RuntimeError:
            pass

    # -- blocking -------------------------------------------------------------------
    def block(self, lock, timeout):
        t = self.cur
        t.waits = lock
        t.timed_out = False
        t.deadline = None if timeout is None or timeout < 0 else boot.CLOCK.mono + timeout
        self._leave(t)
        return not t.timed_out

    def unblock(self, lock):
        for x in self.th:
            if x.waits is lock:
                x.waits = None
                x.deadline = None

    def yield_now(self):
        t = self.cur
        c = self.runnable(t)
        if c:
            self._switch(t, c[0])

    def _leave(self, t):
        """current thread cannot go on; choose another one"""
        c = self.runnable(None if t.waits is None else t)
        if not c:
            timed = [x for x in self.th if not x.done and x.deadline is not None]
            if timed:
                x = min(timed, key=lambda y: (y.deadline, y.tid))
                boot.CLOCK.mono = max(boot.CLOCK.mono, x.deadline)
                x.waits = None
                x.deadline = None
                x.timed_out = True
                c = [x]
            else:
                self._stop("deadlock: " + ", ".join("thread %d waits" % x.tid for x in self.th if not x.done))
                self._park_forever()
        u = c[0]
        if u is t:
            self.cur = t
            return
        self._switch(t, u)

    # -- running --------------------------------------------------------------------
    def _main(self, t, body):
        t.ident = boot.real_ident()
        t.gate.acquire()
        try:
            body()
        finally:
            t.done = True
            c = self.runnable()
            if not c:
                timed = [x for x in self.th if not x.done and x.deadline is not None]
                left = [x for x in self.th if not x.done]
                if timed:
                    x = min(timed, key=lambda y: (y.deadline, y.tid))
                    boot.CLOCK.mono = max(boot.CLOCK.mono, x.deadline)
                    x.waits = None
                    x.deadline = None
                    x.timed_out = True
                    c = [x]
                elif left:
                    self._stop("deadlock: " + ", ".join("thread %d waits forever" % x.tid for x in left))
            if c:
                # the next thread after an end is part of the schedule
                k = self.st["kind"]
                if k == "list":
                    to = self.plan.get((t.tid, -1), {}).get(-1)
                    u = next((x for x in c if x.tid == to), c[0])
                else:
                    u = self.rng.choice(c)
                    if len(c) > 1:
                        self.trace.append([t.tid, -1, -1, u.tid])
                self.cur = u
                u.gate.release()
            elif self.stuck is None:
                self.cur = None
                self.finished.release()

    def run(self):
        boot.SCHED = self
        for t, b in zip(self.th, self.bodies):
            _thread.start_new_thread(self._main, (t, b))
        # wait until all threads have registered
        while any(t.ident is None for t in self.th):
            boot.real_sleep(0)
        callbacks(self.make_callback())
        self.cur = self.th[self.first % len(self.th)]
        self.cur.gate.release()
        self.finished.acquire()
        callbacks()
        boot.SCHED = None
        return self


def uninstrument():
    for c in CODES:
        MON.set_local_events(TOOL, c, 0)


# -- points inside a call where something can strike ---------------------------------------

QUIET = {"clear", "pop", "popitem", "release", "acquire", "close", "reset", "remove", "discard", "__exit__", "__enter__",
         "__delitem__", "set_int_max_str_digits", "setrecursionlimit", "locked"}


def callee_file(f):
    f = getattr(f, "__func__", f)
    c = getattr(f, "__code__", None)
    return c.co_filename if c is not None else None


def point(r, total, ctx):
    """number of a point for a call that has so many"""
    if ctx.dormant and r.random() < 0.4:
        return -1000 - r.choice([1, 1, 2, 3, 4, 6])
    if ctx.susp and r.random() < 0.3:
        return -int(2 ** r.uniform(0, 6))
    return r.randint(1, max(1, total))


class Points:
    """Numbers the points of a call at which an event of the given class can strike, and
    acts at the n-th one.

    classes  async  where CPython delivers signals and asynchronous exceptions: function
                    entry, backward jump, return from a C function, entry of a Python
                    function of the standard library
             mem    allocating instructions, function entries and calls
             rec    function entries
    """

    def __init__(self, cls, hits, act):
        self.cls = cls
        self.n = 0
        self.s = 0          # points in code that writes lasting state; the k-th of them goes by -k
        self.d = 0          # those of them in lines that single calls do not reach: -1000 - k
        self.fired = []
        self.hits = dict.fromkeys(hits)
        self.act = act
        self.live = False

    def _point(self, code, off):
        self.n += 1
        at = self.n
        if code in SUSPS:
            self.s += 1
            if -self.s in self.hits:
                at = -self.s
            if off in DORMANT.get(code, ()):
                self.d += 1
                if -1000 - self.d in self.hits:
                    at = -1000 - self.d
        if at in self.hits:
            self.at = at
            self.fired.append((at, code.co_qualname, off))
            self.act(self)

    def ins(self, code, off):
        f = CODES.get(code)
        if f is None or not self.live:
            return
        f = f[off]
        c = self.cls
        if c == "async":
            if not f & F_BP:
                return
        elif c == "mem":
            if not f & (F_ALLOC | F_RESUME):
                return
        elif not f & F_RESUME:
            return
        self._point(code, off)

    def cret(self, code, off, fn, arg):
        if self.live and self.cls == "async":
            self._point(code, off)

    def call(self, code, off, fn, arg):
        if not self.live:
            return
        fl = callee_file(fn)
        if fl is not None:
            if fl.startswith(boot.PKG) or fl.startswith(boot.HERE):
                return
            self._point(code, off)
        elif self.cls == "mem" and getattr(fn, "__name__", "") not in QUIET:
            self._point(code, off)

    def __enter__(self):
        callbacks(self.ins, self.cret, self.call)
        self.live = True
        return self

    def __exit__(self, *a):
        self.live = False
        callbacks()


E_POINTS = E_INS | E_CALL
