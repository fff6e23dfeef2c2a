"""Attributes: an object is what its attributes say, whatever was asked of it before they were changed."""
from mc.lib import *
from mc import api
from mc.props.c27 import forked, needs, deps, differs, slots, with_slot, _DEPS

ASSUMPTIONS = ["attributes are changed to the values they have in another valid object of the class; objects built from the changed one are not concerned",
               "menu of %d calls, each with every object of the pool in the places of its class" % len(api.MENU)]
NAMES = [n for n, _ in api.POOL]


def calls_of(x):
    """every call of the menu with the object in every place of its class"""
    out, seen = [], set()
    for c in api.MENU:
        for n, k in slots(c):
            if api.CLASS_OF[k] == api.CLASS_OF[x]:
                d = with_slot(c, n, x)
                if repr(d) not in seen:
                    seen.add(repr(d))
                    out.append(d)
    return out


def subst(c, x, y):
    for n, k in slots(c):
        if k == x:
            c = with_slot(c, n, y)
    return c


def others(x):
    return [n for n in NAMES if n != x and api.CLASS_OF[n] == api.CLASS_OF[x]] + api.siblings(x)


def copied(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if type(v).__module__.startswith("planegeometry"):
        w = object.__new__(type(v))
        for k in vars(v):
            object.__setattr__(w, k, copied(vars(v)[k]))
        return w
    return v


def assign(o, values):
    """every public attribute that differs is assigned"""
    for k in sorted(values):
        if not k.startswith("_") and api.canon(getattr(o, k)) != api.canon(values[k]):
            setattr(o, k, copied(values[k]))


def inside(o, values):
    """arrays and inner objects keep their identity: their contents are changed"""
    for k in sorted(values):
        if k.startswith("_"):
            continue
        u, v = getattr(o, k), values[k]
        if isinstance(u, np.ndarray) and isinstance(v, np.ndarray) and u.shape == v.shape:
            u[...] = v
        elif type(u).__module__.startswith("planegeometry") and type(u) is type(v):
            inside(u, public(v))
        elif api.canon(u) != api.canon(v):
            setattr(o, k, copied(v))


def public(o):
    out = {k: copied(v) for k, v in vars(o).items() if not k.startswith("_")}
    for c in type(o).__mro__:
        for k, d in vars(c).items():
            if isinstance(d, property) and d.fset is not None and not k.startswith("_"):
                out[k] = copied(getattr(o, k))
    return out


HOW = {"assigned": assign, "written in place": inside}


def values_of(name):
    return {k: copied(v) for k, v in public(api.Pool(deps(name))[name]).items()}


def reference(name, calls):
    """results on the object built with these values from the start, in a process of its own"""
    def child():
        try:
            api.Pool(deps(name))
        except Exception:
            return None
        return [api.canon(api.execute(c, api.Pool(needs(c)))) for c in calls]
    return forked(child)


def changed(ctx, x, how):
    C = calls_of(x)
    R = reference(x, C)
    Y = others(x)
    RY = {y: reference(y, [subst(c, x, y) for c in C]) for y in Y}
    Y = [y for y in Y if RY[y] is not None]

    def world():
        pool = api.Pool(set().union(*[needs(c) for c in C]) | deps(x))
        for c in C:
            for a in c.args:
                pool.arg(a)
        return pool

    def ask(pool, order, ref, what, kept=None):
        for i in order:
            r = api.execute(C[i], pool)
            k = api.canon(r)
            if not api.agree(k, ref[i]):
                return "%s, %s, returned %s" % (C[i], what, differs(k, ref[i]))
            if kept is not None:
                kept.append((C[i], r, k))
        return None

    def same(kept, desc):
        for c, r, k in kept:
            if api.canon(r) != k:
                return "%s, the earlier result of %s has changed: %s" % (desc, c, differs(api.canon(r), k))
        return None

    def child():
        n = 0
        mine, theirs = values_of(x), {y: values_of(y) for y in Y}
        ids = list(range(len(C)))
        for y in Y:
            desc = "after the attributes of %s were %s to make it %s" % (dict(api.POOL)[x], how, api.SIBLINGS.get(y) or dict(api.POOL)[y])
            for k, order in enumerate([ids, ids[::-1]] + [[i] for i in ids]):
                if k < 2 or k == 2:
                    pool = world()
                n += 3 * len(order)
                kept = []
                m = ask(pool, order, R, "before any change" if k == 0 else "after being made another object and back", kept)
                snap = [{a: b for a, b in s.items() if a != x} for s in pool.snapshot()]
                HOW[how](pool[x], theirs[y])
                s2 = [{a: b for a, b in s.items() if a != x} for s in pool.snapshot()]
                if s2 != snap:
                    return n, "%s, other objects or arrays of the caller have changed: %s" % (desc, differs(s2, snap))
                m = m or same(kept, desc) or ask(pool, order, RY[y], desc, kept)
                HOW[how](pool[x], mine)
                m = m or same(kept, desc + " and back") or ask(pool, order, R, desc + " and back")
                if m:
                    return n, m
        return n, None
    n, msg = forked(child)
    ctx.transitions += n
    ctx.checks += n
    ctx.cases += len(Y) * (len(C) + 2) - 1
    for y in Y:
        ctx.state((x, y, how))
    ctx.outcome(how)
    ctx.ok(msg is None, "%s", msg)


def pairs(ctx, x, how, first):
    """one call, the change, another call"""
    C = calls_of(x)
    if first >= len(C):
        raise Skip
    Y = others(x)
    RY = {y: reference(y, [subst(c, x, y) for c in C]) for y in Y}
    Y = [y for y in Y if RY[y] is not None]

    def child():
        n = 0
        theirs = {y: values_of(y) for y in Y}
        for y in Y:
            for j in range(len(C)):
                pool = api.Pool(needs(C[first], C[j]) | deps(x))
                n += 2
                api.execute(C[first], pool)
                HOW[how](pool[x], theirs[y])
                k = api.canon(api.execute(C[j], pool))
                if not api.agree(k, RY[y][j]):
                    return n, "after %s, and after the attributes of %s were %s to make it %s: %s returned %s" % (C[first], x, how, api.SIBLINGS.get(y) or dict(api.POOL)[y], C[j], differs(k, RY[y][j]))
        return n, None
    n, msg = forked(child)
    ctx.transitions += n
    ctx.checks += n
    ctx.cases += n // 2 - 1
    ctx.state((x, how, first))
    ctx.outcome("pair of calls")
    ctx.ok(msg is None, "%s", msg)


def spaces(tier):
    q = tier == "quick"
    out = [Product("attributes changed between calls", [("object", NAMES), ("how", sorted(HOW))], changed)]
    out.append(Product("one call, a change, another call", [("object", [n for n in NAMES if not q or n in ("L2", "C1", "E1", "T1", "F1", "M1", "I1", "R1", "J1", "Q1", "S1", "A1")]), ("how", ["assigned"] if q else sorted(HOW)),
                                                           ("first", range(0, max(len(calls_of(n)) for n in NAMES), 4 if q else 1))], pairs))
    return out
