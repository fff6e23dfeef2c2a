"""Bounded-exhaustive explorer for sequential code.

A check is a list of *spaces*.  Each space is a finite set of executions of the
real library, enumerated completely and in a fixed order (simplest first):

  Product   all tuples of a product of finite alphabets (inputs, shapes,
            configurations, environment answers)
  Tree      all operation sequences up to a depth over a finite menu, from every
            initial state, with an exact reference-model state carried alongside
            the real object (explicit-state search + conformance on every edge)
  Choices   stateless exploration: the harness body asks ctx.choose(n); every
            sequence of answers is executed (random-generator answers,
            thread schedules with a preemption bound)

Nothing is sampled.  Every execution runs the code of /repo.
"""
import os, sys, json, time, signal, math, traceback, itertools, multiprocessing

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 40.0
MAX_VIOL = 12


class Violation(Exception):
    pass


class Skip(Exception):
    """The exact model says the precondition of the property does not hold."""


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("an operation did not terminate within %g s" % CASE_LIMIT_S)


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.transitions = 0
        self.checks = 0
        self.cases = 0
        self.skipped = 0
        self.states = set()
        self.outcomes = {}
        self.samples = {}
        self.trace = None

    # -- real-code transitions ------------------------------------------------
    def call(self, f, *a, **k):
        self.transitions += 1
        try:
            return f(*a, **k)
        except (Violation, Skip, CaseTimeout):
            raise
        except Exception as e:
            raise Violation("%s(%s) raised %s: %s" % (
                getattr(f, "__qualname__", getattr(f, "__name__", f)),
                ", ".join([show(x) for x in a] + ["%s=%s" % (n, show(v)) for n, v in k.items()]),
                type(e).__name__, e))

    def get(self, obj, name):
        """Property access on the real object."""
        self.transitions += 1
        try:
            return getattr(obj, name)
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation("reading .%s raised %s: %s" % (name, type(e).__name__, e))

    def refuses(self, f, *a, **k):
        """f must raise ValueError."""
        self.transitions += 1
        self.checks += 1
        name = getattr(f, "__qualname__", getattr(f, "__name__", f))
        args = ", ".join([show(x) for x in a] + ["%s=%s" % (n, show(v)) for n, v in k.items()])
        try:
            r = f(*a, **k)
        except ValueError:
            return
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation("%s(%s) raised %s (%s) instead of ValueError" % (name, args, type(e).__name__, e))
        raise Violation("%s(%s) was accepted and returned %s" % (name, args, show(r)))

    # -- oracle ---------------------------------------------------------------
    def ok(self, cond, msg, *args):
        self.checks += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def close(self, got, want, what, scale=1.0, tol=1e-7):
        self.checks += 1
        if isinstance(got, complex) or isinstance(want, complex):
            d = abs(complex(got) - complex(want))
        else:
            d = abs(float(got) - float(want))
        if not (d <= tol * max(scale, 1e-300)):
            raise Violation("%s: got %r, expected %r (allowed deviation %.3g)" % (what, plain(got), plain(want), tol * scale))

    def close_pt(self, got, want, what, scale=1.0, tol=1e-7):
        self.checks += 1
        g = pt(got, what)
        d = math.hypot(g[0] - float(want[0]), g[1] - float(want[1]))
        if not (d <= tol * max(scale, 1e-300)):
            raise Violation("%s: got point %r, expected %r (allowed deviation %.3g)" % (what, g, (float(want[0]), float(want[1])), tol * scale))

    # -- bookkeeping ----------------------------------------------------------
    def state(self, key):
        self.states.add(hash(key) & 0xFFFFFFFFFFFFFFFF)

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def sample(self, space, text):
        l = self.samples.setdefault(space, [])
        if len(l) < 1:
            l.append(text)


# ---------------------------------------------------------------------------
# reading results of the real code

def plain(x):
    try:
        if isinstance(x, complex):
            return complex(x)
        return float(x)
    except Exception:
        return x


def show(x):
    try:
        d = getattr(x, "__dict__", None)
        if d and type(x).__module__.startswith("planegeometry"):
            return "%s(%s)" % (type(x).__name__, ", ".join("%s=%s" % (k, show(v)) for k, v in d.items()))
        if type(x).__module__ == "numpy":
            return repr(x.tolist())
        if isinstance(x, (list, tuple)):
            return ("[%s]" if isinstance(x, list) else "(%s)") % ", ".join(show(y) for y in x)
        s = repr(x)
        return s if len(s) < 300 else s[:300] + "..."
    except Exception:
        return "<unprintable>"


def num(x, what="result"):
    """A finite real number."""
    try:
        if isinstance(x, bool):
            raise TypeError
        if isinstance(x, complex):
            raise TypeError
        v = float(x)
    except Exception:
        raise Violation("%s: expected a real number, got %s" % (what, show(x)))
    if v != v or v in (float("inf"), float("-inf")):
        raise Violation("%s: expected a finite number, got %r" % (what, v))
    return v


def boolean(x, what="result"):
    """A truth value (Python or NumPy Boolean)."""
    if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
        return bool(x)
    raise Violation("%s: expected a Boolean, got %s" % (what, show(x)))


def ispt(x):
    try:
        if len(x) != 2:
            return False
        for y in x:
            if hasattr(y, "__len__"):
                return False
            float(y)
        return True
    except Exception:
        return False


def pt(x, what="result"):
    """A finite point (array-like of two finite real numbers)."""
    if not ispt(x):
        raise Violation("%s: expected a point, got %s" % (what, show(x)))
    a, b = float(x[0]), float(x[1])
    if not (abs(a) < 1e300 and abs(b) < 1e300):
        raise Violation("%s: expected a finite point, got %r" % (what, (a, b)))
    return (a, b)


def is_infinity(x):
    return isinstance(x, float) and math.isinf(x)


def pts(x, what="result"):
    """Result of an intersection: None -> [], a point -> [p], two points -> [p, q]."""
    if x is None:
        return []
    if ispt(x):
        return [pt(x, what)]
    try:
        n = len(x)
    except Exception:
        raise Violation("%s: expected None, a point or a list of points, got %s" % (what, show(x)))
    return [pt(y, what) for y in x]


# ---------------------------------------------------------------------------
# spaces

class Product(object):
    def __init__(self, name, dims, check, note=""):
        self.name, self.check, self.note = name, check, note
        self.names = [d[0] for d in dims]
        self.alph = [list(d[1]) for d in dims]
        self.size = 1
        for a in self.alph:
            self.size *= len(a)

    def decode(self, i):
        out = []
        for a in reversed(self.alph):
            i, r = divmod(i, len(a))
            out.append(a[r])
        out.reverse()
        return out

    def describe(self, i):
        return {n: show(v) for n, v in zip(self.names, self.decode(i))}

    def bound(self):
        return {"kind": "product", "size": self.size, "dims": {n: len(a) for n, a in zip(self.names, self.alph)}}

    def run(self, eng, shard, nsh):
        for i in range(shard, self.size, nsh):
            if not eng.case(self, i):
                return

    def execute(self, ctx, i):
        self.check(ctx, *self.decode(i))


class Tree(object):
    """All operation sequences of length <= depth from every initial state.

    init(ctx, x) -> node            node carries the real object and the model
    step(ctx, node, op) -> node     one real operation; raise Skip if not enabled
    check(ctx, node)                invariant / conformance in every state
    key(node)                       canonical model state (for counting; and, when
                                    dedup=True, to expand each state once per depth)
    Paths are executed from scratch: real objects are rebuilt and replayed, so a
    stale object can never be shared by two branches -- except that the prefix is
    reused within one depth-first descent when share=True (nodes immutable).
    """
    def __init__(self, name, inits, ops, depth, init, step, check, key=None, note="", opname=str):
        self.name, self.inits, self.ops, self.depth = name, list(inits), list(ops), depth
        self.init, self.step, self.check, self.key, self.note, self.opname = init, step, check, key, note, opname

    def bound(self):
        n = len(self.ops)
        return {"kind": "tree", "initial_states": len(self.inits), "menu": n, "depth": self.depth,
                "sequences": len(self.inits) * sum(n ** d for d in range(self.depth + 1))}

    def describe(self, path):
        return {"initial": show(self.inits[path[0]]), "operations": [self.opname(self.ops[j]) for j in path[1:]]}

    def run(self, eng, shard, nsh):
        k = 0
        for i in range(len(self.inits)):
            if shard == i % nsh:
                if not eng.case(self, [i]):
                    return
            for j in range(len(self.ops)):
                k += 1
                if k % nsh == shard:
                    if not self._descend(eng, [i, j]):
                        return

    def _descend(self, eng, path):
        ctx = eng.ctx
        # run the first step from scratch, then depth first reusing the prefix
        stack = [(path, None)]
        while stack:
            p, parent = stack.pop()
            ok, node = eng.step_case(self, p, parent)
            if ok is None:
                return False
            if node is None:
                continue
            if len(p) - 1 < self.depth:
                for j in range(len(self.ops) - 1, -1, -1):
                    stack.append((p + [j], node))
        return True

    def advance(self, ctx, path, parent):
        if parent is None:
            node = self.init(ctx, self.inits[path[0]])
            for j in path[1:]:
                node = self.step(ctx, node, self.ops[j])
        else:
            node = self.step(ctx, parent, self.ops[path[-1]])
        if self.key is not None:
            ctx.state((self.name, self.key(node)))
        self.check(ctx, node)
        return node

    def execute(self, ctx, path):
        node = self.init(ctx, self.inits[path[0]])
        if len(path) == 1:
            if self.key is not None:
                ctx.state((self.name, self.key(node)))
            self.check(ctx, node)
        for j in path[1:]:
            node = self.step(ctx, node, self.ops[j])
            if self.key is not None:
                ctx.state((self.name, self.key(node)))
            self.check(ctx, node)


class Chooser(object):
    __slots__ = ("prefix", "taken", "sizes")

    def __init__(self, prefix):
        self.prefix, self.taken, self.sizes = prefix, [], []

    def __call__(self, n):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise HarnessError("replay diverged: choice %d of %d at point %d" % (c, n, i))
        else:
            c = 0
        self.taken.append(c)
        self.sizes.append(n)
        return c


class Choices(object):
    """For every configuration, every sequence of environment answers.

    body(ctx, config, choose) runs one execution; choose(n) is a choice point.
    final(ctx, config, results), if given, is evaluated once per configuration on
    the list of body results over *all* executions (distribution properties).
    """
    def __init__(self, name, configs, body, final=None, note="", cap=None):
        self.name, self.configs, self.body, self.final, self.note = name, list(configs), body, final, note
        self.cap = cap
        self.max_points = 0

    def bound(self):
        return {"kind": "choices", "configurations": len(self.configs)}

    def describe(self, key):
        return {"configuration": show(self.configs[key[0]]), "choices": key[1]}

    def run(self, eng, shard, nsh):
        for i in range(shard, len(self.configs), nsh):
            prefix = []
            results = []
            bad = False
            while True:
                ch = Chooser(prefix)
                ok, r = eng.choice_case(self, i, ch)
                if ok is None:
                    return
                if ok is False:
                    bad = True
                results.append(r)
                # next sequence in lexicographic order
                t, s = ch.taken, ch.sizes
                k = len(t) - 1
                while k >= 0 and t[k] + 1 >= s[k]:
                    k -= 1
                if k < 0:
                    break
                prefix = t[:k] + [t[k] + 1]
            if self.final is not None and not bad:
                if not eng.final_case(self, i, results):
                    return

    def execute(self, ctx, key):
        i, choices = key
        if choices == "all":
            prefix, results = [], []
            while True:
                ch = Chooser(prefix)
                results.append(self.body(ctx, self.configs[i], ch))
                t, s = ch.taken, ch.sizes
                k = len(t) - 1
                while k >= 0 and t[k] + 1 >= s[k]:
                    k -= 1
                if k < 0:
                    break
                prefix = t[:k] + [t[k] + 1]
            self.final(ctx, self.configs[i], results)
        else:
            self.body(ctx, self.configs[i], Chooser(list(choices)))


# ---------------------------------------------------------------------------
# engine

class Engine(object):
    def __init__(self, prop, tier, progress=None, widx=0):
        self.ctx = Ctx(prop, tier)
        self.viol = []
        self.progress, self.widx = progress, widx
        self.si = 0
        signal.signal(signal.SIGALRM, _alarm)

    def _mark(self, n):
        if self.progress is not None:
            self.progress[2 * self.widx] = self.si * 10 ** 12 + n
            self.progress[2 * self.widx + 1] = time.time()

    def _guard(self, space, key, f):
        """Run f(); returns (True, value), (False, None) on violation, (None, None) to stop."""
        c = self.ctx
        c.cases += 1
        self._mark(c.cases)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
        try:
            try:
                v = f()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            c.sample(space.name, self._desc(space, key)) if space.name not in c.samples else None
            return True, v
        except Skip:
            c.skipped += 1
            return True, None
        except HarnessError:
            raise
        except (Violation, CaseTimeout) as e:
            msg = str(e)
        except (KeyboardInterrupt, SystemExit, GeneratorExit) as e:
            msg = "raised %s: %s" % (type(e).__name__, e)
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            msg = "raised %s: %s at %s" % (type(e).__name__, e, "; ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-3:]))
        self.viol.append({"space": space.name, "key": key, "message": msg, "case": self._desc(space, key)})
        if len(self.viol) >= MAX_VIOL:
            return None, None
        return False, None

    def _desc(self, space, key):
        try:
            return space.describe(key)
        except Exception as e:
            return {"undescribed": repr(e)}

    def case(self, space, key):
        r, _ = self._guard(space, key, lambda: space.execute(self.ctx, key))
        return r is not None

    def step_case(self, space, path, parent):
        return self._guard(space, path, lambda: space.advance(self.ctx, path, parent))

    def choice_case(self, space, i, ch):
        ok, r = self._guard(space, [i, list(ch.prefix)], lambda: space.body(self.ctx, space.configs[i], ch))
        if ok is False and self.viol:
            self.viol[-1]["key"] = [i, list(ch.taken)]
            self.viol[-1]["case"] = self._desc(space, [i, list(ch.taken)])
        if len(ch.taken) > space.max_points:
            space.max_points = len(ch.taken)
        self.ctx.state((space.name, i, tuple(ch.taken)))
        return ok, r

    def final_case(self, space, i, results):
        r, _ = self._guard(space, [i, "all"], lambda: space.final(self.ctx, space.configs[i], results))
        return r is not None


def _worker(mod, prop, tier, shard, nsh, conn, progress, nice=0):
    class Sink(object):
        def write(self, s):
            return len(s)
        def flush(self):
            pass
    try:
        sys.stdout = Sink()
        spaces = mod.spaces(tier)
        eng = Engine(prop, tier, progress, shard)
        per = {}
        for si, sp in enumerate(spaces):
            eng.si = si
            c0, t0 = eng.ctx.cases, time.time()
            sp.run(eng, shard, nsh)
            per[sp.name] = (eng.ctx.cases - c0, time.time() - t0, getattr(sp, "max_points", 0))
            if len(eng.viol) >= MAX_VIOL:
                break
        c = eng.ctx
        conn.send(("done", {
            "viol": eng.viol, "transitions": c.transitions, "checks": c.checks, "cases": c.cases,
            "skipped": c.skipped, "states": c.states, "outcomes": c.outcomes, "samples": c.samples, "per": per}))
    except BaseException as e:
        conn.send(("error", "".join(traceback.format_exception(type(e), e, e.__traceback__))))
    conn.close()


def run_parallel(mod, prop, tier, nworkers):
    progress = multiprocessing.Array("d", 2 * nworkers, lock=False)
    procs = []
    for w in range(nworkers):
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(target=_worker, args=(mod, prop, tier, w, nworkers, b, progress))
        p.start()
        b.close()
        procs.append((p, a))
    results, errors = [], []
    pending = dict(enumerate(procs))
    start = time.time()
    while pending:
        for w in list(pending):
            p, a = pending[w]
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = ("crash", None)
            elif not p.is_alive() and not a.poll(0):
                got = ("crash", None)
            else:
                last = progress[2 * w + 1]
                if last and time.time() - last > 3 * CASE_LIMIT_S:
                    os.kill(p.pid, signal.SIGKILL)
                    got = ("crash", "hang")
            if got is not None:
                del pending[w]
                p.join()
                if got[0] == "done":
                    results.append(got[1])
                elif got[0] == "error":
                    errors.append(got[1])
                else:
                    errors.append(("crash", w, int(progress[2 * w]), got[1] or "exit code %s" % p.exitcode))
    return results, errors
