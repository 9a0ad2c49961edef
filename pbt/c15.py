"""C15: the approximation switch is scoped, restored and overridable."""

import itertools
import json
import os
import subprocess
import sys
import threading

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d import logic
from differt2d.geometry import ImagePath, Path, Point, Vertex, Wall, segments_intersect
from differt2d.scene import Scene

from .core import HarnessError, Res, Sub, Violation, ensure

_fresh = itertools.count(3)


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


# --- one thread: programs against a model ---------------------------------------

ARGS = [None, True, False]


def block(depth):
    items = [st.tuples(st.just("set"), st.booleans()).map(list), st.tuples(st.just("probe"), st.integers(0, 6)).map(list)]
    if depth:
        ctx = st.tuples(
            st.sampled_from(["with", "with", "with", "deco", "manual"]),
            st.sampled_from(["enable", "disable"]),
            st.sampled_from(ARGS),
            st.deferred(lambda: block(depth - 1)),
            st.sampled_from([None, None, "Boom", "BaseBoom", "late"]),
        ).map(list)
        items = [ctx, ctx, ctx, *items]
    return st.lists(st.one_of(*items), max_size=4)


def programs():
    return st.fixed_dictionaries({"initial": st.booleans(), "body": st.lists(block(3), min_size=2, max_size=4).map(lambda bs: [x for b in bs for x in b])})


PROBES = ("state", "greater", "logical_and", "logical_not", "state", "state", "is_true")


def wanted(kind, arg):
    on = True if arg is None else arg
    return on if kind == "enable" else not on


def make(kind, arg):
    f = logic.enable_approx if kind == "enable" else logic.disable_approx
    return f() if arg is None else f(arg)


def observe(which):
    """The mode a call that does not say so runs in (on a shape never compiled)."""
    if which == "state":
        return logic.ENABLE_APPROX
    n = next(_fresh)
    x = np.zeros(n, dtype=np.float32)
    if which == "greater":
        r = logic.greater(jnp.asarray(x), jnp.asarray(x))
        return {True: False, False: True}[r.dtype == bool]
    if which == "logical_not":
        return logic.logical_not(jnp.asarray(x)).dtype != bool
    if which == "is_true":
        # 1 > 1 + 0.5 is false when approximate; the value itself otherwise
        return not bool(logic.is_true(jnp.ones(n, dtype=bool), tol=-0.5).all())
    return logic.logical_and(jnp.asarray(x), jnp.asarray(x)).dtype != bool


class Interp:
    def __init__(self, state):
        self.model = state
        self.n = self.depth = self.deepest = self.exceptions = self.ctx = 0
        self.where = []

    def check(self, which="state"):
        got = observe(which)
        self.n += 1
        ensure(got is self.model or (which != "state" and got == self.model), "after %s the switch seen by %s is %s, expected %s", self.where, which, got, self.model)

    def run(self, body):
        for op in body:
            if op[0] == "set":
                self.where.append(f"set_approx({op[1]})")
                logic.set_approx(op[1])
                self.model = op[1]
                self.check()
            elif op[0] == "probe":
                self.check(PROBES[op[1]])
            else:
                self.context(*op)

    def context(self, how, kind, arg, body, exc):
        before = self.model
        self.ctx += 1
        name = f"{kind}_approx({'' if arg is None else arg})"

        def inside():
            self.model = wanted(kind, arg)
            self.where.append("enter " + name)
            self.depth += 1
            self.deepest = max(self.depth, self.deepest)
            try:
                self.check()
                if exc == "Boom":
                    raise Boom
                self.run(body)
                if exc == "BaseBoom":
                    raise BaseBoom
                if exc == "late":
                    raise Boom
            finally:
                self.depth -= 1

        raised = False
        try:
            if how == "with":
                with make(kind, arg):
                    inside()
            elif how == "deco":
                make(kind, arg)(inside)()
            else:
                cm = make(kind, arg)
                cm.__enter__()
                try:
                    inside()
                except BaseException as e:
                    if not cm.__exit__(type(e), e, e.__traceback__):
                        raise
                else:
                    cm.__exit__(None, None, None)
        except (Boom, BaseBoom):
            raised = True
        ensure(raised == bool(exc), "%s: the exception raised in the block did not come out", name)
        self.exceptions += raised
        self.model = before
        self.where.append("leave " + name + (" by an exception" if raised else ""))
        self.check()


def check_program(c):
    logic.set_approx(c["initial"])
    try:
        it = Interp(c["initial"])
        it.run(c["body"])
        it.check()
        it.check("greater")
    finally:
        # A fresh module state for the next case, whatever happened
        logic.ENABLE_APPROX = False
    free = threading.Event()
    t = threading.Thread(target=lambda: (logic.set_approx(False), free.set()), daemon=True)
    t.start()
    ensure(free.wait(20), "after %s another thread cannot set the switch", it.where)
    return Res(it.ctx > 0 and it.n > 3, (f"depth={it.deepest}", f"exceptions={min(3, it.exceptions)}"), it.n)


# --- several threads --------------------------------------------------------------

WAIT = 0.02


@st.composite
def thread_program(draw):
    """Well-nested steps of one thread."""
    out, stack = [], 0
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["enter", "enter", "exit", "exit", "set", "probe", "raise"]))
        if k in ("exit", "raise") and not stack:
            k = "enter"
        if k == "enter" and stack >= 2:
            k = "exit"
        if k == "enter":
            out.append(["enter", draw(st.sampled_from(["enable", "disable"])), draw(st.sampled_from(ARGS))])
            stack += 1
        elif k in ("exit", "raise"):
            out.append([k])
            stack -= 1
        elif k == "set":
            out.append(["set", draw(st.booleans())])
        else:
            out.append(["probe"])
    return out + [["exit"]] * stack


@st.composite
def schedules(draw):
    progs = draw(st.lists(thread_program(), min_size=2, max_size=3))
    n = sum(map(len, progs))
    order = draw(st.lists(st.integers(0, len(progs) - 1), min_size=n, max_size=2 * n))
    return {"initial": draw(st.booleans()), "threads": progs, "order": order}


class Worker(threading.Thread):
    """Runs its program one step per token."""

    def __init__(self, prog, log):
        super().__init__(daemon=True)
        self.prog, self.log = prog, log
        self.go = threading.Semaphore(0)
        self.done = threading.Semaphore(0)
        self.pending = False  # a step was started and not seen to end
        self.pos = 0
        self.errors = []

    def run(self):
        stack = []  # (context manager, what this thread expects inside it)
        for op in self.prog:
            self.go.acquire()
            try:
                if op[0] == "enter":
                    cm = make(op[1], op[2])
                    cm.__enter__()
                    stack.append([cm, wanted(op[1], op[2])])
                elif op[0] == "exit":
                    stack.pop()[0].__exit__(None, None, None)
                elif op[0] == "raise":
                    cm = stack.pop()[0]
                    e = Boom()
                    if cm.__exit__(Boom, e, None):
                        self.errors.append("the exception was swallowed")
                elif op[0] == "set":
                    logic.set_approx(op[1])
                    if stack:
                        stack[-1][1] = op[1]
                if stack:
                    seen = logic.ENABLE_APPROX
                    self.log.append((self.name, op, seen))
                    if seen is not stack[-1][1]:
                        self.errors.append(f"after {op} the switch is {seen} inside a context that expects {stack[-1][1]}")
                else:
                    self.log.append((self.name, op, "outside"))
            except Boom:
                pass
            except Exception as e:  # noqa: BLE001
                self.errors.append(f"{op}: {type(e).__name__}: {e}")
            self.done.release()

    def step(self, wait):
        """Starts the next step, or waits for the one already started."""
        if not self.pending:
            if self.pos == len(self.prog):
                return False
            self.pos += 1
            self.pending = True
            self.go.release()
        if self.done.acquire(timeout=wait):
            self.pending = False
            return True
        return False

    @property
    def finished(self):
        return self.pos == len(self.prog) and not self.pending


def check_threads(c):
    logic._LOCK = type(logic._LOCK)() if hasattr(logic, "_LOCK") else None
    if logic._LOCK is None:
        del logic._LOCK
    logic.ENABLE_APPROX = c["initial"]
    log = []
    ws = [Worker(p, log) for p in c["threads"]]
    for i, w in enumerate(ws):
        w.name = f"T{i}"
        w.start()
    blocked = 0
    try:
        for i in c["order"]:
            w = ws[i]
            if w.finished:
                continue
            if not w.step(WAIT):
                blocked += 1
        idle = 0
        while not all(w.finished for w in ws):
            moved = False
            for w in ws:
                if not w.finished and w.step(WAIT):
                    moved = True
            idle = 0 if moved else idle + 1
            ensure(idle * WAIT * len(ws) < 15, "the threads are stuck: %s", [(w.name, w.pos, w.prog) for w in ws])
        errors = [f"{w.name}: {e}" for w in ws for e in w.errors]
        ensure(not errors, "%s; history: %s", errors, log)
        end = logic.ENABLE_APPROX
        outside = set()
        for p in c["threads"]:
            d = 0
            for op in p:
                d += {"enter": 1, "exit": -1, "raise": -1}.get(op[0], 0)
                if op[0] == "set" and d == 0:
                    outside.add(op[1])
        # The last setting made outside any context (by the log's order) stands
        ensure(end in ({c["initial"]} | outside if outside else {c["initial"]}), "once all contexts are left the switch is %s, it was %s; history: %s", end, c["initial"], log)
    finally:
        logic.ENABLE_APPROX = False
    inter = len({n for n, _, _ in log}) > 1
    return Res(inter and any(op[0] == "enter" for p in c["threads"] for op in p), (f"threads={len(ws)}", "blocked" if blocked else "free", "sets" if outside else "contexts only"), len(log) + 1)


# --- every function of the library ----------------------------------------------

X = np.array([[0.0, 0.0], [1.0, 0.5]], dtype=np.float32)
Y = np.array([[0.0, 1.0], [1.0, -0.25]], dtype=np.float32)


def _scene():
    return Scene(transmitters={"tx": Point(xy=jnp.array([0.1, 0.2]))}, receivers={"rx": Point(xy=jnp.array([0.7, 0.9]))}, objects=[Wall(xys=jnp.asarray(X)), Wall(xys=jnp.asarray(Y))])


def _path():
    return ImagePath(xys=jnp.array([[0.1, 0.2], [0.5, 0.25], [0.7, 0.9]]))


def _walls():
    return [Wall(xys=jnp.asarray(X)), Wall(xys=jnp.asarray(Y))]


def _t(b):
    return jnp.asarray(b)


# name -> call; each returns an array, boolean in exact mode, floating in approximate mode
CALLS = {
    "greater": lambda k: logic.greater(_t(1.0), _t(0.0), **k),
    "greater_equal": lambda k: logic.greater_equal(_t(1.0), _t(0.0), **k),
    "less": lambda k: logic.less(_t(1.0), _t(0.0), **k),
    "less_equal": lambda k: logic.less_equal(_t(1.0), _t(0.0), **k),
    "logical_and": lambda k: logic.logical_and(_t(1.0), _t(0.0), **k),
    "logical_or": lambda k: logic.logical_or(_t(1.0), _t(0.0), **k),
    "logical_not": lambda k: logic.logical_not(_t(1.0), **k),
    "logical_all": lambda k: logic.logical_all(_t(1.0), _t(0.0), **k),
    "logical_any": lambda k: logic.logical_any(_t(1.0), _t(0.0), **k),
    "true_value": lambda k: logic.true_value(**k),
    "false_value": lambda k: logic.false_value(**k),
    "segments_intersect": lambda k: segments_intersect(*jnp.asarray(X), *jnp.asarray(Y), **k),
    "Wall.contains_parametric": lambda k: _walls()[0].contains_parametric(jnp.array([0.5]), **k),
    "Wall.intersects_cartesian": lambda k: _walls()[0].intersects_cartesian(jnp.asarray(Y), **k),
    "Vertex.contains_parametric": lambda k: Vertex(xy=jnp.zeros(2)).contains_parametric(jnp.zeros(0), **k),
    "Vertex.intersects_cartesian": lambda k: Vertex(xy=jnp.zeros(2)).intersects_cartesian(jnp.asarray(Y), **k),
    "Path.on_objects": lambda k: _path().on_objects(_walls()[:1], **k),
    "Path.intersects_with_objects": lambda k: _path().intersects_with_objects(_walls(), jnp.array([0]), **k),
    "Path.is_valid": lambda k: _path().is_valid(_walls(), jnp.array([0]), _walls()[:1], **k),
    "Scene.all_paths": lambda k: next(_scene().all_paths(**k))[2],
}
# A tolerance that no number meets tells the mode from the answer
TRUTH = {
    "is_true": lambda k: logic.is_true(_t(True), tol=-0.5, **k),
    "is_false": lambda k: logic.is_false(_t(False), tol=-0.5, **k),
}


def mode_cases():
    return st.fixed_dictionaries(
        {
            "call": st.sampled_from(sorted(CALLS) + sorted(TRUTH)),
            "how": st.sampled_from(["set", "enable", "disable", "nested"]),
            "on": st.booleans(),
            "approx": st.sampled_from([None, None, True, False]),
        }
    )


def run_call(name, kw):
    if name in TRUTH:
        return not bool(TRUTH[name](kw))
    return np.asarray(CALLS[name](kw)).dtype != bool


def check_mode(c):
    jax.clear_caches()
    kw = {} if c["approx"] is None else {"approx": c["approx"]}
    want = c["on"] if c["approx"] is None else c["approx"]
    logic.ENABLE_APPROX = not c["on"]
    try:
        if c["how"] == "set":
            logic.set_approx(c["on"])
            got = run_call(c["call"], kw)
        elif c["how"] == "enable":
            with logic.enable_approx(c["on"]):
                got = run_call(c["call"], kw)
        elif c["how"] == "disable":
            with logic.disable_approx(not c["on"]):
                got = run_call(c["call"], kw)
        else:
            with logic.enable_approx(c["on"]):
                with logic.enable_approx(not c["on"]):
                    pass
                got = run_call(c["call"], kw)
    finally:
        logic.ENABLE_APPROX = False
    ensure(got == want, "%s with approx=%s while the switch is %s (by %s) ran in %s mode", c["call"], c["approx"], c["on"], c["how"], "approximate" if got else "exact")
    return Res(True, (c["call"], f"approx={c['approx']}", c["how"]), 1)


# --- the environment ---------------------------------------------------------------


def env_cases():
    return st.fixed_dictionaries(
        {
            "value": st.sampled_from([None, None, "", "0", "1", "true", "False", "off"]),
            "other": st.sampled_from([None, "DISABLE_APPROX", "enable_approx", "APPROX", "DIFFERT2D_ENABLE_APPROX"]),
        }
    )


CODE = """
import json, sys
import differt2d.logic as L
import jax.numpy as jnp
a = L.ENABLE_APPROX
b = str(L.greater(jnp.array(1.0), jnp.array(0.0)).dtype)
with L.enable_approx(not a):
    c = L.ENABLE_APPROX
print(json.dumps([a, b, c, L.ENABLE_APPROX]))
"""


def check_env(c):
    env = {k: v for k, v in os.environ.items() if k != "ENABLE_APPROX"}
    if c["value"] is not None:
        env["ENABLE_APPROX"] = c["value"]
    if c["other"]:
        env[c["other"]] = "1"
    p = subprocess.run([sys.executable, "-c", CODE], env=env, capture_output=True, text=True, timeout=200)
    if p.returncode:
        raise Violation(f"importing the library with {c} failed: {p.stderr[-1500:]}")
    try:
        a, b, inside, after = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception as e:
        raise HarnessError(f"{p.stdout!r} {e}") from e
    want = c["value"] is not None
    ensure(a is want, "ENABLE_APPROX=%r in the environment: the switch starts as %s", c["value"], a)
    ensure((b != "bool") == want, "ENABLE_APPROX=%r in the environment: comparisons give %s", c["value"], b)
    ensure(inside is (not want) and after is want, "ENABLE_APPROX=%r: %s in a context asking for %s, %s after it", c["value"], inside, not want, after)
    return Res(True, (f"value={c['value']}",), 4)


SUBS = [
    Sub("programs", programs(), check_program, 800, 20000, "at least one context and four observations", weight=8),
    Sub("threads", schedules(), check_threads, 800, 12000, "steps of at least two threads, with a context", weight=10),
    Sub("modes", mode_cases(), check_mode, 160, 800, "every case", weight=60),
    Sub("environment", env_cases(), check_env, 12, 48, "every case", shards=4, weight=600),
]
