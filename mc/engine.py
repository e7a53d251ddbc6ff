"""Bounded-exhaustive exploration engine.

A property module (mc/props/cNN.py) defines

    PROPERTY = "CNN"
    def explore(mc): ...

and calls ``mc.run(name, iterable, fn)`` to enumerate a finite space of cases completely.  Each case is executed
against the real riptable code in /repo and compared with an independent reference model; comparison failures are
raised with ``mc.fail`` / ``Violation``.  The space is split over worker processes by case index (every case is
executed by exactly one worker); nothing is sampled.
"""
import contextlib, faulthandler, hashlib, io, itertools, json, mmap, os, sys, time, traceback, warnings


class Violation(Exception):
    pass


class Stop(Exception):
    pass


def jsonable(x):
    import numpy as np

    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return "b:" + x.decode("latin1")
    if isinstance(x, np.ndarray):
        return {"dtype": str(x.dtype), "v": [jsonable(i) for i in x.tolist()]}
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(i) for i in x]
    return repr(x)[:200]


class MC:
    def __init__(self, prop, shard, nshards, tier, seed, scratch, replay=None):
        self.prop, self.shard, self.nshards, self.tier, self.seed, self.scratch = prop, shard, nshards, tier, seed, scratch
        self.replay = replay  # (space, index) to run only that case
        self.thorough = tier == "thorough"
        self.states = 0          # distinct model states / inputs explored by this shard
        self.transitions = 0     # real operations executed and compared against the model
        self.traces = 0          # complete cases (model traces) replayed against the implementation
        self.spaces = {}
        self.outcomes = {}
        self.samples = {}
        self.violations = []
        self.known_hits = []
        self.maxviol = int(os.environ.get("MC_MAXVIOL", "3"))
        self.cur = None
        self._space = None
        self._idx = None
        self._case = None
        self._mm = None
        self.t0 = time.time()
        self.space_time = {}
        self.only = os.environ.get("MC_ONLY")  # development aid: restrict to spaces whose name contains this
        self.known = []
        self.mode = os.environ.get("MC_MODE", "")

    # -- progress slot, read by the driver if this process dies or hangs
    def attach(self, path):
        with open(path, "wb") as f:
            f.write(b"\0" * 4096)
        f = open(path, "r+b")
        self._mm = mmap.mmap(f.fileno(), 4096)

    def _mark(self, text):
        if self._mm is not None:
            b = text.encode("utf8", "replace")[:4000]
            self._mm[: len(b) + 1] = b + b"\0"

    def run(self, name, cases, fn, mode=None):
        """Exhaustively execute fn(case) for all cases of the space `name` (this shard's share).

        mode (only for modules with MODES): None/"nojit" = kernels interpreted, "jit" = compiled, "both" = both."""
        if self.mode == "nojit" and mode == "jit":
            return
        if self.mode == "jit":
            if mode not in ("jit", "both"):
                return
            name += " [jit]"
        if self.only and not any(o in name for o in self.only.split(",")):
            return
        if self.replay and self.replay[0] != name:
            return
        t0 = time.time()
        st = self.spaces.setdefault(name, {"cases": 0, "executed": 0, "ops": 0})
        # spread spaces over shards evenly: offset by a stable hash of the name
        off = int(hashlib.md5(name.encode()).hexdigest(), 16) % self.nshards
        for i, case in enumerate(cases):
            st["cases"] += 1
            if self.replay:
                if i != self.replay[1]:
                    continue
            elif (i + off) % self.nshards != self.shard:
                continue
            self._space, self._idx, self._case = name, i, case
            self._nfail = 0
            self._mark(f"{name}\t{i}\t{case!r}")
            st["executed"] += 1
            before = self.transitions
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    fn(case)
            except Violation as e:
                self._record(str(e))
            except Stop:
                raise
            except Exception as e:
                self._record("unexpected exception: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:400]
                             + " | " + " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-6:])))
            if self.transitions == before:
                self.transitions += 1
            st["ops"] += self.transitions - before
            self.traces += 1
            if name not in self.samples:
                self.samples[name] = [jsonable(case)]
            elif len(self.samples[name]) < 3 and st["executed"] % 97 == 0:
                self.samples[name].append(jsonable(case))
            if i % 64 == 0:
                self.beat()
        self.states += st["executed"]
        self.space_time[name] = self.space_time.get(name, 0) + time.time() - t0

    def beat(self):
        pass

    def op(self, n=1):
        self.transitions += n

    def observe(self, obj):
        """Record a (hash of a) distinct observed outcome, to show the exploration is not vacuous."""
        s = self.outcomes.setdefault(self._space, set())
        if len(s) < 20000:
            s.add(hash(repr(obj)))

    def fail(self, msg, **ctx):
        raise Violation(msg + (" " + json.dumps(jsonable(ctx)) if ctx else ""))

    def soft(self, msg, key=None, **ctx):
        """Record a violation but continue with the case."""
        self._record(msg + (" " + json.dumps(jsonable(ctx)) if ctx else ""), key)

    def eq(self, got, want, what, key=None, **ctx):
        self.transitions += 1
        self.observe(want)
        if not same(got, want):
            self._record(f"{what}: got {short(got)} want {short(want)}" + (" " + json.dumps(jsonable(ctx)) if ctx else ""), key)
            return False
        return True

    def raises(self, fn, what, exc=Exception):
        self.transitions += 1
        try:
            r = fn()
        except exc:
            return True
        self._record(f"{what}: expected an error, got {short(r)}")
        return False

    def _record(self, msg, key=None):
        sig = f"{self._space}|{self._case!r}|{key or ''}"
        for k in self.known:
            if k["space"] == self._space and match_known(k, self._case, key, msg):
                self.known_hits.append(k["id"])
                return
        self.violations.append({"space": self._space, "index": self._idx, "case": jsonable(self._case), "case_repr": repr(self._case)[:2000], "key": key, "msg": msg[:1500]})
        if len(self.violations) >= self.maxviol:
            raise Stop()

    def result(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces, spaces=self.spaces,
                    outcomes={k: sorted(v) for k, v in self.outcomes.items()}, samples=self.samples,
                    violations=self.violations, known=sorted(set(self.known_hits)), wall=time.time() - self.t0,
                    space_time=self.space_time)


def match_known(k, case, key, msg):
    c = k.get("case")
    if c is not None and jsonable(case) != c:
        return False
    if k.get("key") is not None and k["key"] != key:
        return False
    if k.get("msg") is not None and not msg.startswith(k["msg"]):
        return False
    return True


def short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


def same(a, b):
    """Structural equality with float tolerance; NA markers compare equal to themselves."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        if isinstance(a, (bool, str, bytes, list, tuple, dict, type(None))) or isinstance(b, (bool, str, bytes, list, tuple, dict, type(None))):
            return False
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if fa == fb:
            return True
        if fa != fa or fb != fb:
            return fa != fa and fb != fb
        if fa in (float("inf"), float("-inf")) or fb in (float("inf"), float("-inf")):
            return False
        return abs(fa - fb) <= 1e-6 * max(1.0, abs(fa), abs(fb))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


@contextlib.contextmanager
def quiet():
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        yield o
