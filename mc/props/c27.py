"""Purity: operation sequences on shared objects, each started in a pristine process."""
import os, pickle, signal, sys
from mc.lib import *
from mc import api

ASSUMPTIONS = ["menu of %d calls covering every public constructor, method, property and function, on a pool of %d shared objects and shared caller arrays" % (len(api.MENU), len(api.POOL)),
               "single process; the random generator restarts identically for every call"]

_DEPS = {}
for n, c in api.POOL:
    s = {n}
    for a in c.args:
        if isinstance(a, api.O):
            s |= _DEPS[a.v]
    _DEPS[n] = s


def deps(n):
    if n in api.SIBLINGS:
        s = {n}
        for a in api.SIBLINGS[n].args:
            if isinstance(a, api.O):
                s |= _DEPS[a.v]
        return s
    return _DEPS[n]


def needs(*calls):
    s = set()
    for c in calls:
        if c.receiver():
            s |= deps(c.receiver())
        for a in c.args:
            if isinstance(a, api.O):
                s |= deps(a.v)
    return s


def forked(f):
    """run f() in a child process forked from this (pristine) one; returns its picklable result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(200)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            data = pickle.dumps(f())
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    try:
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            out += b
    finally:
        os.close(r)
        try:
            if not out:
                os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(pid, 0)
    if not out:
        raise Violation("the process running the sequence died (status %d)" % st)
    return pickle.loads(out)


class Bad(Exception):
    pass


def call_of(i):
    return i if isinstance(i, api.Call) else api.MENU[i]


def ref_one(i):
    c = call_of(i)
    try:
        p = api.Pool(needs(c))
    except Exception:
        # not a valid object
        return None
    return api.canon(api.execute(c, p))


_REF = {}


def refs(idx):
    """result of each call on freshly built objects in a fresh process"""
    for i in idx:
        if i not in _REF:
            _REF[i] = forked(lambda: ref_one(i))
    return _REF


def differs(a, b):
    s, t = repr(a), repr(b)
    k = 0
    while k < min(len(s), len(t)) and s[k] == t[k]:
        k += 1
    return "...%s instead of ...%s" % (s[max(0, k - 60):k + 60], t[max(0, k - 60):k + 60])


def one_history(seq, ref, names=None):
    """run the calls in order on one pool; message or None"""
    calls = [call_of(i) for i in seq]
    pool = api.Pool(needs(*calls) if names is None else None)
    for c in calls:
        for a in c.args:
            pool.arg(a)
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    snap = pool.snapshot()
    env = pool.environment()
    kept = []
    for n, (i, c) in enumerate(zip(seq, calls)):
        r = api.execute(c, pool)
        k = api.canon(r)
        if not api.agree(k, ref[i]):
            return n, "%s returned %s" % (c, differs(k, ref[i]))
        s = pool.snapshot()
        if s != snap:
            for part in (0, 1):
                for key in snap[part]:
                    if s[part][key] != snap[part][key]:
                        return n, "%s changed %s: %s" % (c, ("the object " if part == 0 else "the caller's array ") + str(key), differs(s[part][key], snap[part][key]))
        for m, (r0, k0) in enumerate(kept):
            if api.canon(r0) != k0:
                return n, "%s changed the result returned earlier by %s: %s" % (c, calls[m], differs(api.canon(r0), k0))
        kept = kept[-3:] if len(seq) > 5 else kept
        kept.append((r, k))
    e = pool.environment()
    if e != env:
        return n, "%s, or a call before it, changed the %s" % (c, ", ".join("%s: %s" % (k, differs(e[k], env[k])) for k in env if e[k] != env[k]))
    return None


def names_of(seq):
    return [str(call_of(i)) for i in seq]


def pairs(ctx, i, targets, quick):
    ref = refs(sorted({i} | set(targets)))

    def child():
        n = 0
        for j in targets:
            seq = [i, j, i] if not quick or api.MENU[j].target.split('.')[-1] == api.MENU[i].target.split('.')[-1] else [i, j]
            b = one_history(seq, ref)
            n += len(seq)
            if b:
                return n, seq[:b[0] + 1], b[1]
        return n, None, None
    n, seq, msg = forked(child)
    ctx.transitions += n
    ctx.checks += 3 * n
    ctx.cases += len(targets) - 1
    ctx.state(i)
    ctx.outcome("pure")
    if msg:
        raise Violation("after %s: %s" % (names_of(seq[:-1]), msg) + locate(seq, ref, [(i, x, i) for x in targets]))


def locate(seq, ref, before):
    """does the sequence alone, in a pristine process, fail too?"""
    alone = forked(lambda: one_history(seq, ref))
    return " (this sequence alone, in a fresh process, %s)" % ("fails too" if alone else "does not fail: the calls before it in this process matter too")


def triple(ctx, i, j, targets):
    ref = refs(sorted({i, j} | set(targets)))

    def child():
        n = 0
        for k in targets:
            b = one_history([i, j, k], ref)
            n += 3
            if b:
                return n, [i, j, k][:b[0] + 1], b[1]
        return n, None, None
    n, seq, msg = forked(child)
    ctx.transitions += n
    ctx.checks += 3 * n
    ctx.cases += len(targets) - 1
    ctx.state((i, j))
    if msg:
        raise Violation("after %s: %s" % (names_of(seq[:-1]), msg) + locate(seq, ref, []))


def nearby(ctx, i):
    """a call, the same call with one argument changed, and the call again"""
    ref = dict(refs([i]))
    vs = api.variants(api.MENU[i], deep=True)
    if not vs:
        raise Skip
    for v in vs:
        ref[v] = forked(lambda: ref_one(v))
    vs = [v for v in vs if ref[v] is not None]

    def child():
        n = 0
        for v in vs:
            for seq in ([i, v, i], [v, i, v]):
                n += 3
                b = one_history(seq, ref)
                if b:
                    return n, names_of(seq[:b[0]]), b[1]
        return n, None, None
    n, seq, msg = forked(child)
    ctx.transitions += n
    ctx.checks += 3 * n
    ctx.cases += 2 * len(vs) - 1
    ctx.state(("nearby", i))
    ctx.outcome("pure")
    if msg:
        raise Violation("after %s: %s" % (seq, msg))


def long(ctx, start, stride):
    n = len(api.MENU)
    seq = [(start + stride * k) % n for k in range(n)]
    ref = refs(range(n))
    b = forked(lambda: one_history(seq, ref, names="all"))
    ctx.transitions += n
    ctx.checks += 3 * n
    ctx.state((start, stride))
    ctx.outcome("long history")
    if b:
        raise Violation("after %d calls %s: %s" % (b[0], names_of(seq[max(0, b[0] - 3):b[0]]), b[1]))


def representatives():
    """one call per target name (classes of the pool merged)"""
    seen, out = set(), []
    for i, c in enumerate(api.MENU):
        t = c.target
        if t.startswith("@"):
            k = t[1:].replace(":", ".").split(".")
            t = api.CLASS_OF[k[0]] + "." + k[1]
        if t not in seen:
            seen.add(t)
            out.append(i)
    return out


def arrays_of(x, depth=0):
    """all the arrays reachable from a result"""
    if depth > 6:
        return
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            for a in arrays_of(y, depth + 1):
                yield a
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            for a in arrays_of(x[k], depth + 1):
                yield a
    elif type(x).__module__.startswith("planegeometry"):
        for k in sorted(vars(x)):
            for a in arrays_of(vars(x)[k], depth + 1):
                yield a


def scribble(a):
    if a.flags.writeable and a.dtype.kind in "fciu":
        a[...] = -77


def spoil(x, keep, depth=0):
    """empty the containers of a result and overwrite the numbers its objects hold"""
    if depth > 6 or id(x) in keep:
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            spoil(y, keep, depth + 1)
        if isinstance(x, list):
            del x[:]
    elif isinstance(x, dict):
        for k in list(x):
            spoil(x[k], keep, depth + 1)
        x.clear()
    elif type(x).__module__.startswith("planegeometry"):
        for k in list(vars(x)):
            v = vars(x)[k]
            spoil(v, keep, depth + 1)
            if isinstance(v, bool):
                setattr(x, k, not v)
            elif isinstance(v, (int, float)):
                setattr(x, k, -77)


def written(ctx, call, what):
    """the arrays given to a call, or found in its result, are written to afterwards"""
    c = call_of(call)

    def child():
        pool = api.Pool(needs(c))
        own = [api.Pool(()).arg(a) if isinstance(a, (api.P, api.V, api.ARR, api.MAT)) else pool.arg(a) for a in c.args]
        snap = pool.snapshot()
        r = api.execute(c, pool, own)
        k = api.canon(r)
        if what == "arguments":
            for n, a in enumerate(own):
                if isinstance(a, np.ndarray):
                    scribble(a)
                    if api.canon(r) != k:
                        return "%s: writing in the array given as argument %d afterwards changes the result: %s" % (c, n + 1, differs(api.canon(r), k))
        elif what == "arguments of the objects":
            for n, a in sorted(pool.arrays.items(), key=str):
                scribble(a)
                if api.canon(r) != k:
                    return "%s: writing in the array %s, which only its objects were built from, changes the result: %s" % (c, n, differs(api.canon(r), k))
            s = pool.snapshot()[0]
            if s != snap[0]:
                x = [n for n in s if s[n] != snap[0][n]][0]
                return "writing in the arrays it was built from changes the object %s: %s" % (dict(api.POOL)[x], differs(s[x], snap[0][x]))
        else:
            mine = [api.canon(a) for a in own]
            for a in arrays_of(r[1]):
                scribble(a)
            spoil(r[1], set(map(id, pool.values())))
            s = pool.snapshot()
            for part in (0, 1):
                for key in snap[part]:
                    if s[part][key] != snap[part][key]:
                        return "%s: writing in its result changes %s" % (c, ("the object " if part == 0 else "the caller's array ") + str(key))
            for n, (a, b) in enumerate(zip(own, mine)):
                if api.canon(a) != b:
                    return "%s: writing in its result changes its argument %d" % (c, n + 1)
            again = api.canon(api.execute(c, pool))
            if not api.agree(again, k):
                return "%s: after writing in its result, it returns %s" % (c, differs(again, k))
        return None
    msg = forked(child)
    ctx.transitions += 2
    ctx.checks += len(c.args) + 1
    ctx.state((call, what))
    ctx.ok(msg is None, "%s", msg)
    ctx.outcome("written " + what)


def slots(c):
    """positions holding objects: 0 is the receiver, k the k-th argument"""
    s = [(0, c.receiver())] if c.receiver() else []
    return s + [(n + 1, a.v) for n, a in enumerate(c.args) if isinstance(a, api.O)]


def with_slot(c, n, k):
    if n == 0:
        return api.Call("@" + k + c.target[1 + len(c.receiver()):], *c.args)
    return api.Call(c.target, *(c.args[:n - 1] + (api.O(k),) + c.args[n:]))


def own_points(o, n):
    """the arrays of two numbers an object holds"""
    return [(n + "." + k, a) for k, a in sorted(vars(o).items()) if isinstance(a, np.ndarray) and a.shape == (2,)]


def meetings(c):
    """(description, pool specification, call, argument number or None, attribute or argument it is taken from)"""
    spec = [(n, k) for n, k in api.POOL]
    s = slots(c)
    out = []
    for x in range(len(s)):
        for y in range(x + 1, len(s)):
            if api.CLASS_OF[s[x][1]] == api.CLASS_OF[s[y][1]]:
                for k in [n for n in api.CLASS_OF if api.CLASS_OF[n] == api.CLASS_OF[s[x][1]]]:
                    d = with_slot(with_slot(c, s[x][0], k), s[y][0], k)
                    out.append(("one object twice", spec, d, ("object", [s[y][0]])))
            if s[x][1] != s[y][1]:
                ca, cb = dict(api.POOL)[s[x][1]], dict(api.POOL)[s[y][1]]
                for a in ca.args:
                    for n, b in enumerate(cb.args):
                        if isinstance(a, (api.P, api.V)) and isinstance(b, (api.P, api.V)) or isinstance(a, api.POS) and isinstance(b, api.POS) or isinstance(a, api.MAT) and isinstance(b, api.MAT):
                            nb = api.Call(cb.target, *(cb.args[:n] + (type(b)(*([a.v] if isinstance(a, (api.MAT, api.POS)) else a.v)),) + cb.args[n + 1:]))
                            out.append(("argument %d of %s equal to one of %s" % (n + 1, s[y][1], s[x][1]), [(m, nb if m == s[y][1] else k) for m, k in spec], c, None))
    for n, a in enumerate(c.args):
        if isinstance(a, (api.P, api.V)):
            for m, b in enumerate(c.args[:n]):
                if isinstance(b, (api.P, api.V)):
                    out.append(("argument %d again as argument %d" % (m + 1, n + 1), spec, api.Call(c.target, *(c.args[:n] + (type(a)(*b.v),) + c.args[n + 1:])), ("array", [n])))
            for k in [k for _, k in s]:
                for j in range(3):
                    out.append(("an array of %s as argument %d" % (k, n + 1), spec, c, ("own", n, k, j)))
    return out


def meeting(ctx, i):
    c0 = api.MENU[i]
    todo = meetings(c0)
    if not todo:
        raise Skip

    def one(label, spec, c, how):
        try:
            pool = api.Pool(needs(c), spec)
            twin = api.Pool(needs(c), spec)
        except Exception:
            return None
        args = [pool.arg(a) for a in c.args]
        copies = [x.copy() if isinstance(x, np.ndarray) else x for x in args]
        call = c
        if how and how[0] == "object":
            copies[how[1][0] - 1] = twin[c.args[how[1][0] - 1].v]
        if how and how[0] == "own":
            own = own_points(pool[how[2]], how[2])
            if how[3] >= len(own):
                return None
            label = "%s as argument %d" % (own[how[3]][0], how[1] + 1)
            args[how[1]] = own[how[3]][1]
            copies[how[1]] = args[how[1]].copy()
        snap = pool.snapshot()
        w = "%s, %s" % (c, label)
        k = api.canon(api.execute(c, pool, copies))
        r = api.execute(c, pool, args)
        if not api.agree(api.canon(r), k):
            return "%s: %s (right: given equal but distinct values)" % (w, differs(api.canon(r), k))
        for x in range(2):
            s = pool.snapshot()
            for part in (0, 1):
                for key in snap[part]:
                    if s[part][key] != snap[part][key]:
                        return "%s: %s changes %s" % (w, "the call" if x == 0 else "writing in its result", ("the object " if part == 0 else "the caller's array ") + str(key))
            if x == 0:
                for a in arrays_of(r[1]):
                    scribble(a)
                spoil(r[1], set(map(id, pool.values())))
        again = api.canon(api.execute(c, pool, args))
        if not api.agree(again, k):
            return "%s: after writing in its result, it returns %s" % (w, differs(again, k))
        return None

    def child():
        n = 0
        for t in todo:
            n += 3
            m = one(*t)
            if m:
                return n, m
        return n, None
    n, msg = forked(child)
    ctx.transitions += n
    ctx.checks += n
    ctx.cases += len(todo) - 1
    ctx.state(("meeting", i))
    ctx.outcome("operands that coincide")
    ctx.ok(msg is None, "%s", msg)


def spaces(tier):
    q = tier == "quick"
    n = len(api.MENU)
    rep = representatives()
    out = [Product("all pairs of calls", [("first", range(n)), ("second", ["every call" if not q else "one call of every kind"])],
                   lambda ctx, i, _: pairs(ctx, i, rep if q else list(range(n)), q)),
           Product("calls differing in one argument", [("call", range(n))], nearby),
           Product("arrays written afterwards", [("call", range(n)), ("what", ["arguments", "arguments of the objects", "result"])], written),
           Product("operands that coincide", [("call", range(n))], meeting),
           Product("long histories", [("start", range(0, n, 35 if q else 1)), ("stride", [1, n - 1] if q else [1, n - 1, 3, 11])], long)]
    if not q:
        r2 = rep
        out.append(Product("all triples of calls", [("first", r2), ("second", r2), ("third", ["one call of every kind"])], lambda ctx, i, j, _: triple(ctx, i, j, r2)))
    return out
