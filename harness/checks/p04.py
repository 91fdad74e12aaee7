"""P04 bounds contain the geometry"""
import math
from core import tasklist
import gen as g
import shapes as S
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.transform import Transform, AnimatedTransform
from pytracer.shape import create_triangle_mesh
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH
from pytracer.volume.volume import HomogeneousVolumeDensity, ExponentialDensity, AggregateVolume
from pytracer.scene import Scene
import checks.p35 as LP

TASKS, task = tasklist()
RULE = ("all shapes (partial ones included) under affine placements with mirrors and shear, meshes, subdivision surfaces, instances static and moving with any key times, "
        "volume regions, aggregates and scenes; surface points drawn over the whole surface; distinct by object and transform")


def inside(b, p, slack):
    lo, hi = g.lst(b.pMin), g.lst(b.pMax)
    return all(lo[i] - slack <= p[i] <= hi[i] + slack for i in range(3))


def holds(c, b, pts, mech, msg, slack=1e-7, **w):
    for p in pts:
        s = slack * (1 + max(abs(x) for x in p)) if slack < 1e-5 else slack
        if not c.check(inside(b, p, s), mech, msg, point=p, lo=g.lst(b.pMin), hi=g.lst(b.pMax), **w):
            return False
    return True


def surface(r, ref, n=14):
    """random points plus the extreme corners of the parameter domain"""
    uv = [ref.rand_uv(r) for _ in range(n)]
    if ref.kind == "triangle":
        uv += [(0., 0.), (1., 0.), (0., 1.)]
    else:
        k = 0.
        uv += [(0., 0.), (1., 1.), (0., 1.), (1., 0.)]
        for a in (0., .5 * math.pi, math.pi, 1.5 * math.pi):
            if a <= ref.pm:
                uv += [(a / ref.pm, 0.), (a / ref.pm, 1.), (a / ref.pm, r.random())]
    return [ref.point(u, v) for u, v in uv]


@task(quick=1800, thorough=60000, min_events=50)
def shape(c):
    r = c.rng
    ref = S.rand_shape(r)
    c.note(**ref.info)
    c.sig(ref.info)
    pts = surface(r, ref)
    holds(c, ref.shape.object_bound(), pts, "object", "object bound does not contain a surface point")
    wp = [g.m_pt(ref.M, p) for p in pts]
    holds(c, ref.shape.world_bound(), wp, "world", "world bound does not contain a surface point")
    holds(c, GeometricPrimitive(ref.shape, None).world_bound(), wp, "primitive", "primitive bound does not contain a surface point")
    if ref.kind == "triangle":
        holds(c, ref.mesh.object_bound(), pts, "mesh-object", "mesh object bound does not contain its triangle")
        holds(c, ref.mesh.world_bound(), wp, "mesh-world", "mesh world bound does not contain its triangle")
    # a bound is a value: changing it changes nothing else
    b = ref.shape.world_bound()
    b.pMax.x -= 100.
    holds(c, ref.shape.world_bound(), wp[:3], "alias", "changing a returned bound changed the shape's bound")


@task(quick=200, thorough=8000, min_events=50)
def instance(c):
    r = c.rng
    ref = S.rand_shape(r)
    moving = r.random() < .7
    (T1, M1, d1, t0), (T2, M2, d2, t1) = g.motion(r)
    if moving:
        if r.random() < .4:
            s = [math.exp(r.uniform(-.7, .7)) for _ in range(3)]
            T2, d2 = T2 * Transform.scale(*s), d2 + "*scale(%s)" % s
    else:
        T1, M1, d1 = g.affine(r)
        T2, d2 = T1, d1
    w2p = AnimatedTransform(T1, t0, T2, t1)
    inst = TransformedPrimitive(GeometricPrimitive(ref.shape, None), w2p)
    c.note(w2p=[d1, d2, t0, t1], **ref.info)
    c.sig(d1, d2, t0, t1, ref.info)
    wp = [g.m_pt(ref.M, p) for p in surface(r, ref, 6)]
    b = inst.world_bound()
    ext = g.ln(g.sub(g.lst(b.pMax), g.lst(b.pMin)))
    holds(c, ref.shape.world_bound(), wp, "member", "")
    for time in [t0, t1] + [t0 + (t1 - t0) * x for x in [-.5, 1.5] + [r.random() for _ in range(5)]]:
        inv = w2p.interpolate(time).inverse()
        pts = [g.lst(inv(g.P(p))) for p in wp]
        holds(c, b, pts, "moving" if moving else "static", "instance bound does not contain the geometry", slack=max(2e-5, 1e-3 * ext), time=time)
    c.event("moving" if moving else "static")
    # same through an aggregate
    agg = SimpleAggregate([inst], True) if r.random() < .5 else BVH([inst])
    inv = w2p.interpolate(t0 + .3 * (t1 - t0)).inverse()
    holds(c, agg.world_bound(), [g.lst(inv(g.P(p))) for p in wp], "aggregate", "aggregate bound does not contain its instance",
          slack=max(2e-5, 1e-3 * ext))


def volume(r):
    T, M, desc = g.affine(r)
    a = [r.uniform(-2, 1) for _ in range(3)]
    b = [x + r.uniform(.3, 3) for x in a]
    box = geo.BBox(g.P(a), g.P(b))
    s = Spectrum(.5)
    if r.random() < .5:
        V = HomogeneousVolumeDensity(s, s, 0., s, box, T)
    else:
        V = ExponentialDensity(s, s, 0., s, box, T, 1., 1., g.V([0, 1, 0]))
    # the constructor's transform takes the region to the world or the reverse?  settled by the region's own
    # containment of its density (see p32): regions are given volume-to-world
    pts = [g.m_pt(M, [r.choice([a[i], b[i], r.uniform(a[i], b[i])]) for i in range(3)]) for _ in range(10)]
    return V, pts, desc


@task(quick=500, thorough=12000, min_events=50)
def volumes_and_scenes(c):
    r = c.rng
    vs = [volume(r) for _ in range(r.randrange(1, 4))]
    c.note(vols=[v[2] for v in vs])
    c.sig([v[2] for v in vs], r.random())
    for V, pts, desc in vs:
        holds(c, V.world_bound(), pts, "volume", "region bound does not contain the region", slack=1e-6)
    agg = AggregateVolume([v[0] for v in vs])
    for V, pts, desc in vs:
        holds(c, agg.world_bound(), pts, "volume-aggregate", "aggregate region bound does not contain a member", slack=1e-6)
    refs = [S.rand_shape(r) for _ in range(r.randrange(1, 5))]
    prims = [GeometricPrimitive(x.shape, None) for x in refs]
    k = r.randrange(3)
    A = [lambda: SimpleAggregate(prims, True), lambda: GridAccel(prims, True), lambda: BVH(prims)][k]()
    c.event(["list", "grid", "bvh"][k])
    before = (g.snap(A.world_bound().pMin), g.snap(A.world_bound().pMax))
    sc = Scene(A, [], agg if r.random() < .6 else vs[0][0])
    none = Scene(A, [], None)
    c.check((g.snap(A.world_bound().pMin), g.snap(A.world_bound().pMax)) == before, "aggregate-bound-changed",
            "building a scene changed its aggregate's bound")
    for x in refs:
        wp = [g.m_pt(x.M, p) for p in surface(r, x, 4)]
        holds(c, A.world_bound(), wp, "aggregate", "aggregate bound does not contain a member")
        holds(c, sc.world_bound(), wp, "scene", "scene bound does not contain its geometry")
        holds(c, none.world_bound(), wp, "scene", "scene bound does not contain its geometry")
    for V, pts, desc in (vs if sc.vr is agg else vs[:1]):
        holds(c, sc.world_bound(), pts, "scene-volume", "scene bound does not contain its volume region", slack=1e-6)


@task(quick=200, thorough=5000, min_events=50)
def mesh(c):
    r = c.rng
    T, M, desc = g.affine(r)
    n = r.randrange(3, 12)
    pts = [g.vec3(r) for _ in range(n)]
    idx = [r.randrange(n) for _ in range(3 * r.randrange(1, 8))]
    m = create_triangle_mesh(T, T.inverse(), False, {'indices': idx, 'P': [g.P(p) for p in pts]})
    c.note(T=desc, P=pts, idx=idx)
    c.sig(desc, idx, pts)
    for k, t in enumerate(m.refine()):
        P3 = [pts[i] for i in idx[3 * k:3 * k + 3]]
        W3 = [g.m_pt(M, p) for p in P3]
        holds(c, t.object_bound(), P3, "tri-object", "triangle object bound misses a vertex", slack=1e-6)
        holds(c, t.world_bound(), W3, "tri-world", "triangle world bound misses a vertex")
        b = t.world_bound()
        c.close(b.pMin, [min(p[i] for p in W3) for i in range(3)], "tri-tight", "triangle bound is not that of its vertices", tol=1e-8)
        c.close(b.pMax, [max(p[i] for p in W3) for i in range(3)], "tri-tight", "triangle bound is not that of its vertices", tol=1e-8)
        holds(c, m.world_bound(), W3, "mesh", "mesh bound misses a vertex")
        holds(c, m.object_bound(), P3, "mesh-object", "mesh object bound misses a vertex", slack=1e-6)


@task(quick=120, thorough=3000, min_events=50)
def subdivided(c):
    """subdivision surfaces: control mesh and surface lie in the bounds"""
    r = c.rng
    kind, v, f = LP.control(r)
    T, M, desc = g.affine(r)
    lv = r.choice([0, 1, 2] if len(f) <= 12 else [0, 1])
    c.note(mesh=kind, nv=len(v), nf=len(f), level=lv, T=desc)
    c.sig(kind, v, desc)
    s = LP.run_loop(r, v, f, lv, T, r.random() < .3)
    holds(c, s.object_bound(), v, "loop-object", "object bound misses a control vertex")
    W = [g.m_pt(M, p) for p in v]
    holds(c, s.world_bound(), W, "loop-world", "world bound misses a control vertex")
    holds(c, GeometricPrimitive(s, None).world_bound(), W, "loop-primitive", "primitive bound misses a control vertex")
    out = []
    GeometricPrimitive(s, None).full_refine(out)
    b = s.world_bound()
    for q in out[:60]:
        holds(c, b, [g.lst(q.shape[i]) for i in range(3)], "loop-surface", "world bound misses the surface")
    agg = r.choice([SimpleAggregate, GridAccel])([GeometricPrimitive(s, None)], r.random() < .5)
    holds(c, agg.world_bound(), [g.lst(q.shape[i]) for q in out[:60] for i in range(3)], "loop-aggregate", "aggregate bound misses the surface")
    c.event("level%d" % lv)
