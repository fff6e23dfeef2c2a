"""Copies, pickled objects and instances of a user's subclass serve like the original."""
import copy, itertools, pickle
from mc.lib import *
from mc import api
from mc.props.c27 import forked, needs, deps, differs, slots, with_slot
from mc.props.c38 import calls_of, public, copied, inside, values_of, others

ASSUMPTIONS = ["menu of %d calls, each with every object of the pool in the places of its class" % len(api.MENU),
               "subclasses add attributes, methods and another constructor; they override nothing else"]
NAMES = [n for n, _ in api.POOL]


def init(self, *tags):
    """the constructor of a subclass with a signature of its own"""
    raise TypeError("the constructor of the subclass needs something else")


def subclass(o):
    """an instance of a subclass with the same values"""
    t = type(o)
    s = type(t.__name__, (t,), {"__init__": init, "note": lambda self: 1, "__module__": t.__module__})
    v = copy.copy(o)
    v.__class__ = s
    v._tag = "mine"
    return v


def instance(o):
    """an instance made by the inherited constructor"""
    t = type(o)
    s = type(t.__name__, (t,), {"note": lambda self: 1, "__module__": t.__module__})
    return s(*o_args(o))


def o_args(o):
    d = {k: copied(v) for k, v in vars(o).items()}
    order = {"Line": ["A", "B", "extendA", "extendB"], "Circle": ["center", "radius"], "Triangle": ["A", "B", "C"], "Affine": ["A", "b"], "Mobius": ["M"], "Inversion": ["pole", "power"],
             "Ellipse": ["center", "rmajor", "rminor", "alpha", "degrees"], "Homothety": ["center", "scale"]}.get(type(o).__name__)
    if order is None or any(k not in d for k in order):
        raise Skip
    return [d[k] for k in order]


HOW = {"copied": copy.copy, "copied deeply": copy.deepcopy, "pickled": lambda o: pickle.loads(pickle.dumps(o, 2)), "of a subclass": subclass, "made by the constructor of a subclass": instance}


def used(ctx, x, how):
    C = calls_of(x)
    if how.startswith("made"):
        # is the constructor of this class one of those written out above?
        o_args(api.Pool(deps(x))[x])

    def child():
        n = 0
        for c in C:
            ref = api.canon(api.execute(c, api.Pool(needs(c))))
            places = [k for k, m in slots(c) if m == x]
            todo = [[p] for p in places]
            for k, m in slots(c):
                if len(places) == 1 and m != x and api.CLASS_OF[m] == api.CLASS_OF[x]:
                    todo.append([places[0], k])
            if len(places) > 1:
                todo.append(places)
            for w in todo:
                pool = api.Pool(needs(c) | deps(x))
                try:
                    v = HOW[how](pool[x])
                except Skip:
                    raise
                except Exception as e:
                    return n, "%s cannot be %s: %s" % (dict(api.POOL)[x], how, e)
                if api.canon(v) != api.canon(pool[x]):
                    return n, "%s %s: %s" % (dict(api.POOL)[x], how, differs(api.canon(v), api.canon(pool[x])))
                pool["the same, %s" % how] = v
                pool.attrs["the same, %s" % how] = sorted(vars(v))
                d, want = c, ref
                for k in w:
                    d = with_slot(d, k, "the same, %s" % how)
                if len(w) == 2 and len(places) == 1:
                    # the original against its copy
                    e = with_slot(c, w[1], x)
                    want = api.canon(api.execute(e, api.Pool(needs(e))))
                    d = with_slot(with_slot(c, w[0], x), w[1], "the same, %s" % how)
                for a in d.args:
                    pool.arg(a)
                snap = pool.snapshot()
                n += 2
                k = api.canon(api.execute(d, pool))
                if not api.agree(k, want):
                    return n, "%s, %s of %s, returned %s" % (c, how, x, differs(k, want))
                if pool.snapshot() != snap:
                    return n, "%s, %s of %s, changed an object" % (c, how, x)
        return n, None
    n, msg = forked(child)
    ctx.transitions += n
    ctx.checks += n
    ctx.cases += max(1, n // 2) - 1
    ctx.state((x, how))
    ctx.outcome(how)
    ctx.ok(msg is None, "%s", msg)


def apart(ctx, x, how):
    """a deep copy and its original do not share anything, before and after they are used"""
    C = calls_of(x)

    def child():
        n = 0
        for y in others(x):
            try:
                theirs = values_of(y)
            except Exception:
                continue
            for use in (False, True):
                for which in (0, 1):
                    pool = api.Pool(set().union(*[needs(c) for c in C]) | deps(x))
                    if use:
                        for c in C:
                            api.execute(c, pool)
                    a = pool[x]
                    b = HOW[how](a)
                    k = api.canon((a, b)[1 - which])
                    inside((a, b)[which], theirs)
                    n += 1
                    if api.canon((a, b)[1 - which]) != k:
                        return n, "%s %s: changing the %s changes the %s" % (dict(api.POOL)[x], how, *(("original", "copy"), ("copy", "original"))[which])
                    if which == 0:
                        # the copy still does what the original did
                        for c in C:
                            ref = api.canon(api.execute(c, api.Pool(needs(c))))
                            p2 = api.Pool(needs(c))
                            p2[x] = b
                            r = api.canon(api.execute(c, p2))
                            n += 1
                            if not api.agree(r, ref):
                                return n, "%s with %s %s, after the original was changed, returned %s" % (c, x, how, differs(r, ref))
        return n, None
    n, msg = forked(child)
    ctx.transitions += n
    ctx.checks += n
    ctx.cases += max(n, 1) - 1
    ctx.state((x, how, "apart"))
    ctx.outcome("independent")
    ctx.ok(msg is None, "%s", msg)


def spaces(tier):
    return [Product("copies and instances of subclasses in every place", [("object", NAMES), ("how", sorted(HOW))], used),
            Product("deep copies are independent", [("object", NAMES), ("how", ["copied deeply", "pickled"])], apart)]
