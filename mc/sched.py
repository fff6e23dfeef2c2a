"""Two real threads under a controlled scheduler.

The sources of the library (as they are in /repo now) are loaded with a scheduling point
before every statement of every function (an import hook rewrites the syntax tree; the
files are not touched).  Control moves between the threads only at these points, where the
explorer decides: `choose(2)` is asked while the preemption budget lasts, so every schedule
of the two calls with at most `budget` preemptions is enumerated.
"""
import sys, os, ast, _thread, threading, builtins, importlib.abc, importlib.machinery, importlib.util
from mc.core import Violation, HarnessError, REPO

STALL_S = 4.0
CURRENT = [None]


def point():
    r = CURRENT[0]
    if r is not None:
        r.event()


class Points(ast.NodeTransformer):
    """a call of the scheduling point before every statement inside functions"""
    def __init__(self):
        self.depth = 0
        self.n = 0

    def block(self, body):
        out = []
        for k, st in enumerate(body):
            if not (k == 0 and isinstance(st, ast.Expr) and isinstance(getattr(st, "value", None), ast.Constant)) and not isinstance(st, (ast.Global, ast.Nonlocal)):
                c = ast.Expr(ast.Call(ast.Name("__mc_point__", ast.Load()), [], []))
                out.append(ast.copy_location(c, st))
                self.n += 1
            out.append(st)
        return out

    def generic_visit(self, node):
        fn = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        if fn:
            self.depth += 1
        cls = isinstance(node, ast.ClassDef)
        saved = self.depth
        if cls:
            self.depth = 0
        super(Points, self).generic_visit(node)
        if self.depth and not cls:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.block(b))
        self.depth = saved
        if fn:
            self.depth -= 1
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        t = Points()
        tree = t.visit(ast.parse(data, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        return self.source_to_code(self.get_data(p), p)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "planegeometry" and not name.startswith("planegeometry."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            return importlib.util.spec_from_file_location(name, os.path.join(base, "__init__.py"), loader=Loader(name, os.path.join(base, "__init__.py")), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(name, base + ".py"))
        return None


def install():
    """(re)load the library with scheduling points; before anything else imports it"""
    builtins.__mc_point__ = point
    for m in [m for m in sys.modules if m == "planegeometry" or m.startswith("planegeometry.")]:
        del sys.modules[m]
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def gate():
    """a closed gate: acquire() waits for one release()"""
    l = _thread.allocate_lock()
    l.acquire()
    return l


class Thread(object):
    """a persistent thread"""
    def __init__(self):
        self.start = gate()
        self.job = None
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            self.start.acquire()
            self.job()


_POOL = []


def threads():
    while len(_POOL) < 2:
        _POOL.append(Thread())
    return _POOL


class Run(object):
    def __init__(self, fs, choose, budget):
        self.fs, self.choose, self.budget = fs, choose, budget
        self.go = [gate(), gate()]
        self.finished = [False, False]
        self.main = gate()
        self.results = [None, None]
        self.broken = None
        self.cur = 0
        self.events = 0
        self.switches = 0

    def event(self):
        self.events += 1
        i = self.cur
        if self.budget <= 0 or self.finished[1 - i]:
            return
        try:
            c = self.choose(2)
        except BaseException as e:
            self.broken = e
            CURRENT[0] = None
            return
        if c:
            self.budget -= 1
            self.switches += 1
            self.cur = 1 - i
            self.go[1 - i].release()
            self.go[i].acquire()

    def body(self, i):
        self.go[i].acquire()
        try:
            r = ("ok", self.fs[i]())
        except Exception as e:
            r = ("error", type(e).__name__ + ": " + str(e))
        except BaseException as e:
            r = ("error", type(e).__name__)
        self.results[i] = r
        self.finished[i] = True
        if not self.finished[1 - i]:
            self.cur = 1 - i
            self.go[1 - i].release()
        else:
            self.main.release()

    def run(self):
        T = threads()
        self.cur = self.choose(2)
        for i in (0, 1):
            T[i].job = lambda i=i: self.body(i)
            T[i].start.release()
        CURRENT[0] = self
        self.go[self.cur].release()
        seen, stalled = -1, False
        while not self.main.acquire(timeout=STALL_S):
            if stalled:
                CURRENT[0] = None
                del _POOL[:]
                raise Violation("the two calls block each other (deadlock)")
            if self.events == seen:
                # a lock of the library is held by the paused thread: this switch is not enabled; both run on
                stalled = True
                CURRENT[0] = None
                for s in self.go:
                    try:
                        s.release()
                    except RuntimeError:
                        pass
            seen = self.events
        CURRENT[0] = None
        if self.broken is not None:
            raise self.broken
        return self.results
