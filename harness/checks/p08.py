"""P08 axis-aligned boxes as point sets"""
import math
import numpy as np
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer.geometry import BBox, Point, Vector

TASKS, task = tasklist()
RULE = ("boxes from random, coincident, flat and grid-snapped corners; points on faces, edges and off; rays with zero and "
        "negative components, finite ranges, origins inside, on and outside; distinct by corner and ray values")


def coord(r):
    return float(r.randrange(-3, 4)) if r.random() < .5 else r.gauss(0, 2)


def corners(r):
    a = [coord(r) for _ in range(3)]
    b = [coord(r) for _ in range(3)]
    if r.random() < .2:
        i = r.randrange(3)
        b[i] = a[i]
    return a, b


def box(r):
    a, b = corners(r)
    return BBox(g.P(a), g.P(b)), [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]


@task(quick=2500, thorough=60000)
def sets(c):
    r = c.rng
    A, la, ha = box(r)
    B, lb, hb = box(r)
    if r.random() < .25:    # just touching, just overlapping or just apart
        i = r.randrange(3)
        lb = [x + r.choice([0., .1]) for x in la]
        hb = [x + r.choice([0., .1, 1.]) for x in ha]
        gap = r.choice([1., -1., 0.]) * 10 ** r.uniform(-14, -2)
        if r.random() < .5:
            lb[i], hb[i] = ha[i] + gap, ha[i] + 1.
        else:
            lb[i], hb[i] = la[i] - 1., la[i] - gap
        lb, hb = [min(x, y) for x, y in zip(lb, hb)], [max(x, y) for x, y in zip(lb, hb)]
        B = BBox(g.P(lb), g.P(hb))
        c.event("touching")
    c.note(A=[la, ha], B=[lb, hb])
    c.sig(la, ha, lb, hb)
    sA, sB = (g.snap(A.pMin), g.snap(A.pMax)), (g.snap(B.pMin), g.snap(B.pMax))

    def same(mech):
        c.check((g.snap(A.pMin), g.snap(A.pMax)) == sA and (g.snap(B.pMin), g.snap(B.pMax)) == sB, mech,
                "operation modified an argument")
    c.close(A.pMin, la, "ctor-min", "constructor", tol=0)
    c.close(A.pMax, ha, "ctor-max", "constructor", tol=0)
    U = BBox.Union(A, B)
    c.close(U.pMin, [min(x, y) for x, y in zip(la, lb)], "union-min", "union is not the hull", tol=0)
    c.close(U.pMax, [max(x, y) for x, y in zip(ha, hb)], "union-max", "union is not the hull", tol=0)
    same("union-pure")
    U.pMin.x -= 1.
    U.pMax.z += 1.
    same("union-alias")
    p = [coord(r) if r.random() < .6 else r.choice([la[i], ha[i], .5 * (la[i] + ha[i])]) for i in range(3)]
    if r.random() < .3:
        p = [la[i] + r.random() * (ha[i] - la[i]) for i in range(3)]
        i = r.randrange(3)
        gap = r.choice([1., -1.]) * 10 ** r.uniform(-14, -2)
        p[i] = r.choice([la[i] - gap, ha[i] + gap])
        c.event("near-face")
    Pp = g.P(p)
    UP = BBox.Union(A, Pp)
    c.close(UP.pMin, [min(x, y) for x, y in zip(la, p)], "union-point-min", "", tol=0)
    c.close(UP.pMax, [max(x, y) for x, y in zip(ha, p)], "union-point-max", "", tol=0)
    UP.pMin.x -= 1.
    UP.pMax.x += 2.
    same("union-point-alias")
    c.check(g.snap(Pp) == g.snap(p), "union-point-pure", "point modified")
    E = BBox()
    c.check(E.union(A) is E and E == A, "empty-neutral", "empty box is not neutral for union")
    E.pMin.x -= 5.
    same("inplace-union-alias")
    E2 = BBox()
    E2.union(Pp)
    c.close(E2.pMin, p, "empty-point", "", tol=0)
    c.close(E2.pMax, p, "empty-point", "", tol=0)
    M = BBox.from_bbox(A)
    ret = M.union(B)
    c.check(ret is M and M == BBox.Union(A, B), "inplace-union", "in-place union differs from union")
    same("from_bbox-alias")
    M = BBox.from_bbox(A)
    M.union(Pp)
    c.check(M == BBox.Union(A, Pp), "inplace-union-point", "")
    ov = all(la[i] <= hb[i] and lb[i] <= ha[i] for i in range(3))
    c.check(bool(A.overlaps(B)) == ov and bool(B.overlaps(A)) == ov, "overlaps", "overlap test wrong", want=ov)
    ins = all(la[i] <= p[i] <= ha[i] for i in range(3))
    c.check(bool(A.inside(Pp)) == ins, "inside", "containment wrong", p=p, want=ins)
    eq = la == lb and ha == hb
    c.check(bool(A == B) == eq and bool(A != B) == (not eq), "eq-ne", "== and != are not complements", eq=eq)
    C = BBox.from_bbox(A)
    c.check(bool(A == C) and not bool(A != C), "copy-eq", "copy is not equal")
    for i in range(3):
        C = BBox.from_bbox(A)
        (C.pMax if r.random() < .5 else C.pMin)[i] += .5
        c.check(bool(A != C) and not bool(A == C), "differs", "boxes differing in one coordinate compare equal", axis=i)
    d = abs(r.gauss(0, 1))
    X = BBox.from_bbox(A)
    X.expand(d)
    c.close(X.pMin, [x - d for x in la], "expand", "", tol=1e-12)
    c.close(X.pMax, [x + d for x in ha], "expand", "", tol=1e-12)
    e = [ha[i] - la[i] for i in range(3)]
    c.close(A.surface_area(), 2 * (e[0] * e[1] + e[1] * e[2] + e[0] * e[2]), "area", "surface area", tol=1e-9)
    c.close(A.volume(), e[0] * e[1] * e[2], "volume", "volume", tol=1e-9)
    ax = A.maximum_extent()
    c.check(ax in (0, 1, 2) and e[ax] >= max(e) - 1e-12, "extent", "maximum_extent is not the longest axis", e=e, got=ax)
    t = [r.choice([0., 1., r.random(), r.uniform(-1, 2)]) for _ in range(3)]
    q = A.lerp(*t)
    c.close(q, [(1 - t[i]) * la[i] + t[i] * ha[i] for i in range(3)], "lerp", "lerp", tol=1e-9)
    if min(e) > 1e-6:
        c.close(A.offset(q), t, "offset", "offset does not undo lerp", tol=1e-6)
    ctr, rad = A.bounding_sphere()
    c.close(ctr, [.5 * (la[i] + ha[i]) for i in range(3)], "sphere-centre", "", tol=1e-9)
    c.close(rad, .5 * g.ln(e), "sphere-radius", "bounding sphere radius", tol=1e-9)
    c.close(A[0], la, "getitem", "", tol=0)
    c.close(A[1], ha, "getitem", "", tol=0)
    same("queries-pure")
    # boxes open on one side
    lo = r.random() < .5
    Q = g.P(p)
    H = BBox(Q) if lo else BBox(None, Q)
    q = [coord(r) for _ in range(3)]
    c.check(bool(H.inside(g.P(q))) == all(q[i] >= p[i] if lo else q[i] <= p[i] for i in range(3)), "open-inside", "containment in a box open on one side", corner=p, q=q)
    H.union(g.P(q))
    H.expand(.5)
    c.check(g.snap(Q) == g.snap(p), "open-pure", "growing a box moved the corner it was made from")
    H = BBox(Q) if lo else BBox(None, Q)
    Q.x += 1.
    c.close(H.pMin if lo else H.pMax, p, "open-own", "moving the caller's corner moved the box", tol=0)
    em = BBox.from_bbox(BBox())
    c.check(not em.inside(Pp) and bool(em == BBox()), "empty-copy", "copy of the empty box is not empty")


@task(quick=5000, thorough=120000)
def ray(c):
    r = c.rng
    A, la, ha = box(r)
    o = [coord(r) if r.random() < .7 else r.choice([la[i], ha[i], .5 * (la[i] + ha[i])]) for i in range(3)]
    d = [r.choice([0., 0., -0., 1., -1., r.gauss(0, 1), r.gauss(0, 1), r.gauss(0, 1)]) for _ in range(3)]
    if not any(d):
        d[r.randrange(3)] = r.choice([1., -1., 2.5])
    mint = r.choice([0., 0., r.uniform(0, 2), 1.])
    maxt = r.choice([math.inf, math.inf, mint + abs(r.gauss(0, 2)), 1. + mint])
    R = geo.Ray(g.P(o), g.V(d), mint, maxt)
    c.note(lo=la, hi=ha, o=o, d=d, mint=mint, maxt=maxt)
    c.sig(la, ha, o, d, mint, maxt)
    s = g.ray_snap(R)
    c.check(not BBox().intersect_p(R)[0], "empty-missed", "a ray hits the empty box")
    hit, t0, t1 = A.intersect_p(R)
    c.check(g.ray_snap(R) == s, "ray-mutated", "ray-box test modified the ray")
    # reference with margin: [w0,w1] exact range, decide only when not within rounding of the boundary
    w0, w1 = mint, maxt
    gap = math.inf
    boundary = False
    for i in range(3):
        if d[i] == 0:
            if o[i] < la[i] or o[i] > ha[i]:
                w0, w1 = 1., 0.
                w_out = True
                break
            if o[i] == la[i] or o[i] == ha[i]:
                boundary = True
        else:
            a, b = (la[i] - o[i]) / d[i], (ha[i] - o[i]) / d[i]
            a, b = min(a, b), max(a, b)
            w0, w1 = max(w0, a), min(w1, b)
    want = w0 <= w1
    tol = 1e-9 * (1 + abs(w0) + (abs(w1) if math.isfinite(w1) else 0))
    if w0 != w1 and abs(w0 - w1) < tol:
        c.event("too-close-to-call")
        return
    c.event("hit" if want else "miss")
    if boundary:
        c.event("parallel-on-face")
    c.check(bool(hit) == want, "hit", "ray-box answer wrong", want=want, w0=w0, w1=w1)
    if want and hit:
        c.close(t0, w0, "enter", "entry parameter wrong", tol=1e-9)
        if math.isfinite(w1):
            c.close(t1, w1, "leave", "exit parameter wrong", tol=1e-9)
        else:
            c.check(t1 == math.inf, "leave", "exit parameter wrong", got=t1)
