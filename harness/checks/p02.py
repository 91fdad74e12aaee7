"""P02 shadow-ray predicates agree with full intersection"""
import math
from core import tasklist
import gen as g
import shapes as S
import pytracer.geometry as geo
from pytracer.transform import AnimatedTransform
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH, Intersection
from pytracer.scene import Scene
from pytracer.shape import create_triangle_mesh

TASKS, task = tasklist()
RULE = ("every shape alone, as a primitive, as a static and moving instance, and inside list, grid and hierarchy aggregates and "
        "scenes; triangles cut out by alpha masks that depend on the whole local geometry; rays with finite ranges ending before, between and after hits; distinct by scene and ray")


def both(c, obj, o, d, mint, maxt, time, what, want=None, prim=True):
    R1 = geo.Ray(g.P(o), g.V(d), mint, maxt, 0, time)
    R2 = geo.Ray(g.P(o), g.V(d), mint, maxt, 0, time)
    s = g.ray_snap(R2)
    order = c.rng.random() < .5
    if order:
        occ = obj.intersect_p(R2)
    if prim:
        isect = Intersection()
        hit = obj.intersect(R1, isect)
    else:
        hit = obj.intersect(R1)[0]
    if not order:
        occ = obj.intersect_p(R2)
    c.check(g.ray_snap(R2) == s, "ray-unchanged", "occlusion predicate modified the ray", what=what)
    c.check(bool(occ) == bool(hit), "agree", "predicate and full intersection disagree", what=what, occ=bool(occ), hit=bool(hit))
    if want is not None:
        c.check(bool(occ) == want, "truth", "predicate differs from the exhaustive reference", what=what, want=want)
    c.event(what + (".occluded" if hit else ".free"))
    # the same question again gives the same answer
    R3 = geo.Ray(g.P(o), g.V(d), mint, maxt, 0, time)
    c.check(bool(obj.intersect_p(R3)) == bool(occ), "repeat", "second query differs", what=what)
    return bool(hit)


@task(quick=3500, thorough=120000, min_events=50)
def shape(c):
    r = c.rng
    ref = S.rand_shape(r)
    for _ in range(2):
        o, d, mint, maxt = S.aimed_ray(r, ref)
        c.note(ray=[o, d, mint, maxt], **ref.info)
        want, close = ref.hits(o, d, mint, maxt)
        if close:
            c.event("too-close-to-call")
            continue
        c.sig(ref.info, o, d, mint, maxt)
        both(c, ref.shape, o, d, mint, maxt, 0., ref.kind, bool(want), prim=False)
        both(c, GeometricPrimitive(ref.shape, None), o, d, mint, maxt, 0., "primitive", bool(want))


@task(quick=1200, thorough=40000, min_events=2000)
def partial(c):
    """swept and clipped quadrics, rays through two points of the full surface"""
    r = c.rng
    ref = S.partial_shape(r)
    for _ in range(3):
        o, d, mint, maxt = S.chord_ray(r, ref)
        c.note(ray=[o, d, mint, maxt], **ref.info)
        want, close = ref.hits(o, d, mint, maxt)
        if close:
            c.event("too-close-to-call")
            continue
        c.sig(ref.info, o, d)
        c.event("crossings%d" % len(want))
        both(c, ref.shape, o, d, mint, maxt, 0., ref.kind, bool(want), prim=False)


@task(quick=400, thorough=12000, min_events=50)
def instance(c):
    r = c.rng
    ref = S.rand_shape(r)
    T1, M1, d1 = g.affine(r, mirror=False)
    t0, t1 = 0., 1.
    moving = r.random() < .6
    if moving:
        (T1, M1, d1, t0), (T2, M2, d2, t1) = g.motion(r)
        w2p = AnimatedTransform(T1, t0, T2, t1)
    else:
        w2p = AnimatedTransform(T1, 0., T1, 1.)
        d2 = d1
    inst = TransformedPrimitive(GeometricPrimitive(ref.shape, None), w2p)
    for _ in range(3):
        time = r.choice([t0, t1, t0 + (t1 - t0) * r.random(), t0 + (t1 - t0) * r.uniform(-.5, 1.5)])
        W = w2p.interpolate(time)
        # a ray aimed in the instance's own space, taken to world
        o, d, mint, maxt = S.aimed_ray(r, ref)
        want, close = ref.hits(o, d, mint, maxt)
        c.note(ray=[o, d, mint, maxt], time=time, w2p=[d1, d2, t0, t1], **ref.info)
        if close:
            continue
        inv = W.inverse()
        wo, wd = g.lst(inv(g.P(o))), g.lst(inv(g.V(d)))
        c.sig(ref.info, wo, wd, time)
        both(c, inst, wo, wd, mint, maxt, time, "moving" if moving else "static", bool(want))


@task(quick=240, thorough=6000, min_events=50)
def aggregate(c):
    r = c.rng
    n = r.choice([1, 2, 3, 5, 9, 14])
    refs = [S.rand_shape(r) for _ in range(n)]
    prims = [GeometricPrimitive(x.shape, None) for x in refs]
    kind = r.choice(["list", "grid", "sah", "middle", "equal"])
    if kind == "list":
        agg = SimpleAggregate(prims, True)
    elif kind == "grid":
        agg = GridAccel(prims, True)
    else:
        agg = BVH(prims, r.choice([1, 2, 4, 8]), kind)
    obj = agg if r.random() < .6 else Scene(agg, [], None)
    for _ in range(6):
        o, d, mint, maxt = S.aimed_ray(r, r.choice(refs))
        if r.random() < .25:
            i = r.randrange(3)
            d[i] = r.choice([0., -0.])
            if not any(d):
                d[(i + 1) % 3] = 1.
        res = [x.hits(o, d, mint, maxt) for x in refs]
        c.note(ray=[o, d, mint, maxt], agg=kind, shapes=[x.info for x in refs])
        want = any(h for h, cl in res)
        if any(cl for h, cl in res):
            c.event("too-close-to-call")
            continue
        c.sig(kind, n, o, d, mint, maxt)
        both(c, obj, o, d, mint, maxt, 0., kind, want)


class Cut(object):
    """alpha mask: any function of the local geometry; remembers how close to its threshold it was asked"""
    def __init__(self, r):
        self.w = [r.gauss(0, 1) for _ in range(14)]
        if r.random() < .5:
            self.w[2:] = [0.] * 12
        self.f = r.uniform(1., 7.)
        self.off = r.uniform(0, 6)
        self.on = r.choice([1., .5, .01])
        self.near = 9.

    def __call__(self, dg):
        x = [dg.u, dg.v] + [x / 8. for x in g.lst(dg.p)] + g.lst(dg.nn) + [math.tanh(x) for x in g.lst(dg.dpdu) + g.lst(dg.dpdv)]
        v = math.sin(self.f * sum(a * float(b) for a, b in zip(self.w, x)) + self.off)
        self.near = min(self.near, abs(v))
        return self.on if v > 0 else 0.


@task(quick=500, thorough=15000, min_events=300)
def masked(c):
    r = c.rng
    T, M, desc = g.affine(r)
    ro = r.random() < .3
    n, nt = r.randrange(3, 9), r.randrange(1, 7)
    while True:
        pts = [[r.gauss(0, 2) for _ in range(3)] for _ in range(n)]
        idx = [r.sample(range(n), 3) for _ in range(nt)]
        if all(g.ln(g.cross(g.sub(pts[t[1]], pts[t[0]]), g.sub(pts[t[2]], pts[t[0]]))) > .1 for t in idx):
            break
    cut = Cut(r)
    q = {'indices': [i for t in idx for i in t], 'P': [g.P(p) for p in pts], 'alphatex': 'a'}
    if r.random() < .7:
        q['uv'] = [r.uniform(-1, 2) for _ in range(2 * n)]
    tris = create_triangle_mesh(T, T.inverse(), ro, q, {'a': cut}).refine()
    prims = [GeometricPrimitive(t, None) for t in tris]
    aggs = [("list", SimpleAggregate(prims, True)), ("hierarchy", BVH(prims, 1, r.choice(["sah", "middle", "equal"])))]
    for _ in range(3):
        k = r.randrange(nt)
        b = [r.uniform(.05, 1) for _ in range(3)]
        b = [x / sum(b) for x in b]
        w = [g.m_pt(M, pts[i]) for i in idx[k]]
        at = [sum(b[i] * w[i][j] for i in range(3)) for j in range(3)]
        nn = g.nrm(g.cross(g.sub(w[1], w[0]), g.sub(w[2], w[0])))
        d = g.gunit(r)
        if abs(g.dot(d, nn)) < .1:
            continue
        d = g.mul(d, r.choice([1., r.uniform(.1, 5)]))
        t = r.uniform(.5, 5)
        o = g.sub(at, g.mul(d, t))
        mint, maxt = r.choice([(0., math.inf), (0., t * 1.01), (0., t * .99), (t * .9, t * 3)])
        c.note(T=desc, ro=ro, P=pts, idx=idx, uv=q.get('uv'), ray=[o, d, mint, maxt], mask=[cut.w, cut.f, cut.off])
        c.sig(desc, idx, o, d)
        for what, obj in [("triangle", prims[k])] + aggs:
            # when the mask is asked at its threshold the two queries may round differently
            cut.near = 9.
            a, bb = geo.Ray(g.P(o), g.V(d), mint, maxt), geo.Ray(g.P(o), g.V(d), mint, maxt)
            obj.intersect(a, Intersection()), obj.intersect_p(bb)
            if cut.near < 1e-6:
                c.event("too-close-to-call")
                continue
            c.event("masked" if cut.near < 9 else "unasked")
            want = None
            if what != "triangle":
                want = any(p.intersect_p(geo.Ray(g.P(o), g.V(d), mint, maxt)) for p in prims)
            both(c, obj, o, d, mint, maxt, 0., what, want)
