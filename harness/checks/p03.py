"""P03 acceleration structures against exhaustive search"""
import math
import threading
from core import tasklist
import gen as g
import shapes as S
import pytracer.geometry as geo
from pytracer.transform import Transform
from pytracer.shape import Sphere, create_triangle_mesh
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate, GridAccel, BVH, Intersection

TASKS, task = tasklist()
RULE = ("collections of 0..150 shapes: scattered, clustered, coincident, concentric, collinear, flat, exponentially spaced, lattice meshes; "
        "list, grid and hierarchy (three split rules, leaf sizes 1..16), refined at once or lazily; distinct by structure and ray")
METHODS = ["list", "grid", "sah", "middle", "equal"]


def build(r, kind, prims, lazy=False):
    if kind == "list":
        return SimpleAggregate(prims, True)
    if kind == "grid":
        return GridAccel(prims, not lazy)
    return BVH(prims, r.choice([1, 2, 3, 4, 8, 16]), kind)


def ball(p, R, ro=False):
    T = Transform.translate(g.V(p))
    return Sphere(T, T.inverse(), ro, R, -R, R, 360.)


def collection(r, layout, n):
    """(list of (primitive, Ref-like or None), aim points)"""
    out = []
    if layout == "shapes":
        for _ in range(n):
            ref = S.rand_shape(r)
            u, v = ref.rand_uv(r)
            out.append((GeometricPrimitive(ref.shape, None), ref.world(u, v)))
        return out
    base, dr = [r.gauss(0, 2) for _ in range(3)], g.unit(r)
    big = r.random() < .3
    for i in range(n):
        if layout == "scatter":
            p, R = [r.gauss(0, 3) for _ in range(3)], math.exp(r.gauss(-1.5, .7))
        elif layout == "cluster":
            c = [float(r.randrange(-1, 2)) * 20 for _ in range(3)]
            p, R = g.add(c, [r.gauss(0, .3) for _ in range(3)]), r.uniform(.02, .4)
        elif layout == "coincident":
            p, R = base, 1. if big else .5 + .5 * i / n
        elif layout == "line":
            p, R = g.add(base, g.mul(dr, .7 * i)), r.uniform(.1, .6)
        elif layout == "exp":
            p, R = [base[0] + 2. ** (-i % 40), base[1], base[2]], 2. ** (-i % 40) * .3
        elif layout == "axis":
            p = list(base)
            p[n % 3] += i * .5
            R = .25
        else:  # lattice
            p, R = [float(i % 4), float(i // 4 % 4), float(i // 16)], r.choice([.5, .3])
        out.append((GeometricPrimitive(ball(p, R), None), g.add(p, g.mul(g.gunit(r), R * r.uniform(0, .95)))))
    return out


def brute(prims, o, d, mint, maxt):
    """exhaustive: [(t, primitive id)] sorted"""
    res = []
    for p in prims:
        R = geo.Ray(g.P(o), g.V(d), mint, maxt)
        isect = Intersection()
        if p.intersect(R, isect):
            res.append((float(R.maxt), p.primitiveId))
    res.sort()
    return res


def judge(c, agg, prims, o, d, mint, maxt, what):
    want = brute(prims, o, d, mint, maxt)
    R = geo.Ray(g.P(o), g.V(d), mint, maxt)
    before = g.ray_snap(R)
    isect = Intersection()
    hit = agg.intersect(R, isect)
    Rp = geo.Ray(g.P(o), g.V(d), mint, maxt)
    occ = agg.intersect_p(Rp)
    c.note(ray=[o, d, mint, maxt], agg=what)
    c.sig(what, o, d, mint, maxt)
    c.event(what + (".hit" if want else ".miss"))
    c.check(bool(hit) == bool(want), "hit", "nearest-hit answer differs from exhaustive search", want=want[:3], got=bool(hit))
    c.check(bool(occ) == bool(want), "occlusion", "occlusion answer differs from exhaustive search", want=want[:3])
    if want and hit:
        t = want[0][0]
        tol = 1e-9 * (1 + abs(t))
        c.check(abs(float(R.maxt) - t) <= tol, "nearest", "ray not shortened to the nearest hit", got=R.maxt, want=want[:3])
        ids = [i for x, i in want if x <= t + tol]
        c.check(isect.primitiveId in ids and isect.primitive is not None and isect.primitive.primitiveId in ids, "primitive",
                "wrong primitive reported", got=isect.primitiveId, want=ids)
        p = g.lst(isect.dg.p)
        on = [o[i] + d[i] * t for i in range(3)]
        c.check(g.ln(g.sub(p, on)) < 1e-3 * (1 + g.ln(on)), "point", "hit record is of another hit", got=p, want=on)
    elif not want and not hit:
        c.check(g.ray_snap(R) == before and isect.dg is None and isect.primitive is None, "miss-clean", "a miss changed the ray or the record")
    return want


def rays(r, coll, k):
    for _ in range(k):
        tgt = r.choice(coll)[1] if coll and r.random() < .85 else [r.gauss(0, 5) for _ in range(3)]
        o = g.add(tgt, g.mul(g.unit(r), math.exp(r.uniform(-1, 3))))
        d = g.sub(tgt, o)
        L = g.ln(d)
        d = g.mul(d, r.choice([1. / L, 1. / L, 1., r.uniform(.01, 5)]))
        t = L / g.ln(d)
        mint = r.choice([0., 0., 1e-5, t * r.random()])
        maxt = r.choice([math.inf, math.inf, mint + t * r.random() * 2])
        yield o, d, mint, maxt


@task(quick=300, thorough=12000, min_events=50)
def structures(c):
    r = c.rng
    layout = r.choice(["shapes", "scatter", "cluster", "coincident", "line", "exp", "axis", "lattice"])
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 13, 20, 35]) if r.random() < .9 else r.randrange(60, 150)
    coll = collection(r, layout, n)
    prims = [p for p, _ in coll]
    kind = r.choice(METHODS)
    given = list(prims)
    agg = build(r, kind, given)
    c.note(layout=layout, n=n)
    c.check(given == prims, "input-list", "building changed the caller's list")
    hull = geo.BBox()
    for p in prims:
        hull.union(p.world_bound())
    b = agg.world_bound()
    if n:
        c.close(b.pMin, hull.pMin, "bound", "aggregate bound is not the hull of its members", tol=1e-9)
        c.close(b.pMax, hull.pMax, "bound", "aggregate bound is not the hull of its members", tol=1e-9)
    c.event("built.%s.%s" % (kind, layout))
    for o, d, mint, maxt in rays(r, coll, 6 if n < 30 else 4):
        judge(c, agg, prims, o, d, mint, maxt, kind)


@task(quick=100, thorough=4000, min_events=50)
def nothing_lost(c):
    """every primitive is found by a ray whose range only holds that primitive's first hit"""
    r = c.rng
    layout = r.choice(["scatter", "cluster", "line", "exp", "axis", "lattice", "coincident"])
    n = r.randrange(1, 24)
    coll = collection(r, layout, n)
    prims = [p for p, _ in coll]
    kind = r.choice(METHODS)
    agg = build(r, kind, list(prims))
    c.note(layout=layout, n=n)
    for p, tgt in coll:
        o = g.add(tgt, g.mul(g.gunit(r), r.uniform(.5, 6)))
        d = g.nrm(g.sub(tgt, o))
        one = brute([p], o, d, 0., math.inf)
        if not one:
            continue
        t = one[0][0]
        w = 1e-4 * max(1., t)
        judge(c, agg, prims, o, d, max(0., t - w), t + w, kind)
        c.event("targeted")


@task(quick=240, thorough=6000, min_events=50)
def lattice_mesh(c):
    """meshes with integer vertices, axis-parallel and lattice-aligned rays through cells, edges and box faces"""
    r = c.rng
    k = r.randrange(1, 5)
    ax = r.randrange(3)
    z = float(r.randrange(-2, 3))
    pts, idx = [], []
    for j in range(k + 1):
        for i in range(k + 1):
            p = [float(i), float(j)]
            p.insert(ax, z + (float((i + j) % 2) if r.random() < .0 else 0.))
            pts.append(p)
    for j in range(k):
        for i in range(k):
            a = j * (k + 1) + i
            idx += [a, a + 1, a + k + 2, a, a + k + 2, a + k + 1]
    T = Transform()
    layers = r.randrange(1, 3)
    meshes = []
    for l in range(layers):
        q = [list(p) for p in pts]
        for p in q:
            p[ax] += 2. * l
        meshes.append(create_triangle_mesh(T, T, False, {'indices': list(idx), 'P': [g.P(p) for p in q]}))
    mp = [GeometricPrimitive(m, None) for m in meshes]
    kind = r.choice(METHODS)
    lazy = kind == "grid" and r.random() < .4
    agg = build(r, kind, mp, lazy)
    tris = []
    for m in meshes:
        tris += [GeometricPrimitive(t, None) for t in m.refine()]
    for _ in range(5):
        u = [r.choice([float(r.randrange(0, k + 1)), r.randrange(0, 2 * k) * .5 + .25, r.uniform(-.5, k + .5)]) for _ in range(2)]
        sgn = r.choice([1., -1.])
        o = list(u)
        o.insert(ax, z - sgn * r.choice([1., 3.5, 7.]))
        d = [r.choice([0., -0.]), r.choice([0., -0.])]
        if r.random() < .3:
            d = [float(r.randrange(-1, 2)), float(r.randrange(-1, 2))]
        d.insert(ax, sgn)
        R = geo.Ray(g.P(o), g.V(d))
        want = brute(tris, o, d, 0., math.inf)
        oblique = any(x != 0 for i, x in enumerate(d) if i != ax)
        # oblique rays exactly through a lattice line are decided by rounding of the box test
        if oblique:
            t = (z - o[ax]) / d[ax]
            p = [o[i] + d[i] * t for i in range(3) if i != ax]
            if any(abs(x - round(x)) < 1e-9 for x in p) or abs(p[0] - p[1] - round(p[0] - p[1])) < 1e-9:
                c.event("on-lattice-line-oblique")
                continue
        isect = Intersection()
        if r.random() < .5:
            occ = agg.intersect_p(geo.Ray(g.P(o), g.V(d)))
            hit = agg.intersect(R, isect)
        else:
            hit = agg.intersect(R, isect)
            occ = agg.intersect_p(geo.Ray(g.P(o), g.V(d)))
        c.note(k=k, ax=ax, z=z, layers=layers, agg=kind, lazy=lazy, o=o, d=[repr(x) for x in d])
        c.sig(k, ax, z, kind, o, d)
        c.event("%s.%s" % (kind, "hit" if want else "miss"))
        c.check(bool(hit) == bool(want), "hit", "nearest-hit answer differs from exhaustive search", want=want[:3])
        c.check(bool(occ) == bool(want), "occlusion", "occlusion answer differs from exhaustive search", want=want[:3])
        if hit and want:
            c.close(R.maxt, want[0][0], "nearest", "not the nearest hit", tol=1e-9)


@task(quick=30, thorough=600, min_events=20)
def lazy_threads(c):
    """grids refine meshes on first touch: concurrent first queries must agree with exhaustive search"""
    import sys
    r = c.rng
    T = Transform()
    meshes, tris = [], []
    for _ in range(r.randrange(1, 6)):
        n = r.randrange(1, 6)
        ctr = [r.gauss(0, 2) for _ in range(3)]
        pts = [g.add(ctr, [r.gauss(0, 1) for _ in range(3)]) for _ in range(3 * n)]
        m = create_triangle_mesh(T, T, False, {'indices': list(range(3 * n)), 'P': [g.P(p) for p in pts]})
        meshes.append(GeometricPrimitive(m, None))
        tris += [(GeometricPrimitive(t, None), [sum(p[i] for p in pts[3 * k:3 * k + 3]) / 3 for i in range(3)]) for k, t in enumerate(m.refine())]
    agg = GridAccel(meshes, False)
    qs = list(rays(r, tris, 16))
    # in some runs shadow rays touch the cells first, in others nearest-hit rays do
    mode = r.choice([0., .5, 1.])
    first = [r.random() < mode for _ in qs]
    got = {}

    def work(k):
        for i in range(k, len(qs), 4):
            o, d, mint, maxt = qs[i]
            R = geo.Ray(g.P(o), g.V(d), mint, maxt)
            isect = Intersection()
            early = bool(agg.intersect_p(geo.Ray(g.P(o), g.V(d), mint, maxt))) if first[i] else None
            h = agg.intersect(R, isect)
            occ = bool(agg.intersect_p(geo.Ray(g.P(o), g.V(d), mint, maxt)))
            got[i] = (bool(h), float(R.maxt), occ, occ if early is None else early)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        [t.start() for t in th]
        [t.join() for t in th]
    finally:
        sys.setswitchinterval(old)
    c.check(len(got) == len(qs), "answered", "a concurrent query died", got=len(got))
    prims = [p for p, _ in tris]
    for i, (o, d, mint, maxt) in enumerate(qs):
        want = brute(prims, o, d, mint, maxt)
        if i not in got:
            continue
        c.note(ray=[o, d, mint, maxt], n=len(prims))
        c.sig(o, d)
        h, t, occ, early = got[i]
        c.check(h == bool(want) and occ == bool(want) and early == bool(want), "hit", "lazily refined grid differs from exhaustive search", want=want[:2], got=got[i])
        if h and want:
            c.close(t, want[0][0], "nearest", "not the nearest hit", tol=1e-9)
            c.event("hit")
