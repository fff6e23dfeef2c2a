"""Two threads on shared objects: every schedule with a bounded number of preemptions."""
import threading
from mc import sched
sched.install()
from mc.lib import *
from mc import api, rng
from mc.props.c27 import needs, representatives, differs

ASSUMPTIONS = ["two threads, switches before any statement of the library (not inside one statement)",
               "at most 1 preemption (2 in the thorough tier for the core pairs) besides the switch when a call ends",
               "one call per thread"]

TL = threading.local()


def _fx():
    f = getattr(TL, "fx", None)
    if f is None:
        f = TL.fx = api.Fixed()
    return f


def runner(call, pool):
    args = [pool.arg(a) for a in call.args]

    def f():
        TL.fx = api.Fixed()
        return call.function(pool)(*args)
    return f


_SEQ = {}
_CUR = {}


def alone(call):
    """result of the call alone, on fresh objects"""
    k = call.name
    if k not in _SEQ:
        pool = api.Pool(needs(call))
        _SEQ[k] = api.canon(api.execute(call, pool))
    return _SEQ[k]


class Pair(object):
    def __init__(self, a, b, budget):
        self.a, self.b, self.budget = a, b, budget

    def __repr__(self):
        return "%s || %s, at most %d preemptions" % (self.a, self.b, self.budget)


def body(ctx, p, choose):
    want = [alone(p.a), alone(p.b)]
    if _CUR.get("pair") is not p:
        # one pool per pair; reused by its schedules as long as its values are unchanged (checked after each)
        pool = api.Pool(needs(p.a, p.b))
        fs = [runner(p.a, pool), runner(p.b, pool)]
        _CUR.clear()
        _CUR.update(pair=p, pool=pool, fs=fs, snap=pool.snapshot())
    pool, fs, snap = _CUR["pool"], _CUR["fs"], _CUR["snap"]
    with rng.Installed(rng.Stub(lambda n: _fx().i(n), lambda: _fx().q())):
        R = sched.Run(fs, choose, p.budget)
        res = R.run()
    ctx.transitions += R.events
    ctx.checks += 3
    for call, r, w, other in ((p.a, res[0], want[0], p.b), (p.b, res[1], want[1], p.a)):
        k = api.canon(r)
        if not api.agree(k, w):
            raise Violation("%s while another thread runs %s: %s" % (call, other, differs(k, w)))
    s = pool.snapshot()
    if s != snap:
        _CUR.clear()
        raise Violation("%s and %s in two threads changed shared objects or arrays" % (p.a, p.b))
    ctx.outcome("%d preemptions" % R.switches)
    return None


def steps(call):
    """number of scheduling points of the call alone"""
    pool = api.Pool(needs(call))
    with rng.Installed(rng.Stub(lambda n: _fx().i(n), lambda: _fx().q())):
        R = sched.Run([runner(call, pool), lambda: None], lambda n: 0, 0)
        R.run()
    return R.events


def spaces(tier):
    q = tier == "quick"
    rep = [api.MENU[i] for i in representatives()]
    same = []
    for c in rep:
        if c.is_property():
            continue
        vs = api.variants(c)
        pick = [c]
        if vs:
            pick.append(vs[0])
            if len(vs) > 1:
                pick.append(vs[-1])
        for v in pick if not q else pick[-2:]:
            same.append(Pair(c, v, 1))
    core_names = ["@L1.rotate", "@L1.perpendicular", "@C1.intersection_with_circle", "mid_circles", "@E1.point_from_angle", "@E1.equation", "@I1.invert_circle", "@T1.incircle", "@T1.malfatti_circles", "@F1.transform_ellipse",
                  "@M1.transform_circle", "@M1.gpower", "@Q1.rotate", "@S1.transform", "@R1.reflect_circle", "SteinerChain", "unimodular_matrices", "Ellipse.from_five_points", "intersection_ellipse_line", "@C1.random_points", "Ellipse.LownerJohnEllipse", "@J1.project"]
    core = []
    for n in core_names:
        core += [c for c in api.MENU if c.target == n][:1]
    assert len(core) == len(core_names)
    if q:
        core = [c for c in core if c.target not in ("Ellipse.LownerJohnEllipse", "@T1.malfatti_circles", "SteinerChain")][::2] + core[11:12]
    cross = [Pair(core[i], core[j], 1) for i in range(len(core)) for j in range(i + 1, len(core))]
    out = [Choices("same operation twice", same, body), Choices("different operations", cross, body)]
    if not q:
        n = {c: steps(c) for c in rep if not c.is_property()}
        small = sorted((c for c in n if n[c] <= 60), key=lambda c: n[c])
        out.append(Choices("all pairs of operations of at most 60 steps", [Pair(a, b, 1) for i, a in enumerate(small) for b in small[i:]], body))
        two = []
        for c in small:
            v = api.variants(c)
            if n[c] <= 45:
                two += [Pair(c, v[0] if v else c, 2)]
        out.append(Choices("two preemptions", two, body))
    return out
