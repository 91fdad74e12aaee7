"""P37 primitives, instances and scenes delegate faithfully"""
import math
from core import tasklist
import gen as g
import shapes as S
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.transform import Transform, AnimatedTransform
from pytracer.shape import create_triangle_mesh, create_loop_subdiv, Sphere, Disk, Cylinder
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH, Intersection
from pytracer.scene import Scene

TASKS, task = tasklist()
RULE = ("shapes wrapped as primitives, static and moving instances, instances of instances and of aggregates, scenes; rays hitting and missing; "
        "recording materials and lights; distinct by shape, placement and ray")


class Mat(object):
    """records what reaches the material"""
    def __init__(self):
        self.calls = []

    def get_bsdf(self, dg, dgs):
        self.calls.append(("bsdf", dg, dgs))
        return ("bsdf", len(self.calls))

    def get_bssrdf(self, dg, dgs):
        self.calls.append(("bssrdf", dg, dgs))
        return ("bssrdf", len(self.calls))


class Light(object):
    def __init__(self):
        self.calls = []

    def l(self, p, n, w):
        self.calls.append((g.lst(p), g.lst(n), g.lst(w)))
        return ("light", len(self.calls))


def placed(ref, T, M):
    """the same shape placed by T * ref.o2w"""
    r = S.Ref(ref.kind, T * ref.o2w, g.mm(M, ref.M), "composed", ref.ro, ref.prm)
    return r


def ask(c, obj, o, d, mint, maxt, time=0.):
    R = geo.RayDifferential(g.P(o), g.V(d), mint, maxt, 0, time)
    s = g.ray_snap(R)
    isect = Intersection()
    hit = bool(obj.intersect(R, isect))
    if not hit:
        c.check(g.ray_snap(R) == s, "miss-ray", "a miss changed the ray")
        c.check(isect.dg is None and isect.primitive is None and isect.w2o is None and isect.o2w is None, "miss-record", "a miss changed the record")
    else:
        s2 = g.ray_snap(R)
        c.check(s2[:3] == s[:3] and s2[4:] == s[4:] and mint <= R.maxt <= maxt, "hit-ray", "a hit must only shorten the ray", got=s2, was=s)
    return hit, float(R.maxt), isect, R


def record(c, isect, prim, ref, mat, light, o, d, t, R, Minst=None):
    """everything an integrator reads from the record"""
    c.check(isect.primitive is prim, "primitive", "record names another primitive")
    c.check(isect.shapeId == ref.shape.shapeId, "shape-id", "record names another shape")
    p = [o[i] + d[i] * t for i in range(3)]
    M = ref.M if Minst is None else g.mm(Minst, ref.M)
    inv = g.m_inv_affine(M)
    sc = 1 + g.ln(p) + ref.size
    amp = 1 + max(abs(x) for row in inv[:3] for x in row)
    c.close(isect.w2o(g.P(p)), g.m_pt(inv, p), "w2o", "world-to-object of the record", tol=1e-6, rel=sc * amp)
    c.close(isect.o2w(isect.w2o(g.P(p))), p, "o2w", "object-to-world of the record is not the inverse", tol=1e-6, rel=sc * amp)
    w = g.unit(c.rng)
    n0 = len(light.calls) if light else 0
    le = isect.le(g.V(w))
    if light is None:
        c.check(Spectrum(0.) == le if not isinstance(le, tuple) else False, "no-light", "emission without a light") if False else \
            c.check(not isinstance(le, tuple) and float(le.y() if callable(getattr(le, 'y', None)) else le[0]) == 0., "no-light", "emission without a light")
    else:
        c.check(le == ("light", n0 + 1), "light", "emission did not come from the primitive's light")
        q = light.calls[-1]
        c.close(q[0], isect.dg.p, "light-p", "light asked at another point", tol=1e-9)
        c.close(q[1], isect.dg.nn, "light-n", "light asked with another normal", tol=1e-9)
        c.close(q[2], w, "light-w", "light asked for another direction", tol=1e-12)
    k0 = len(mat.calls)
    b = isect.get_bsdf(R)
    c.check(b == ("bsdf", k0 + 1) and mat.calls[-1][0] == "bsdf", "bsdf", "scattering did not come from the primitive's material")
    c.close(mat.calls[-1][1].p, isect.dg.p, "bsdf-dg", "material asked at another point", tol=1e-12)
    s = isect.get_bssrdf(R)
    c.check(s == ("bssrdf", k0 + 2), "bssrdf", "subsurface did not come from the primitive's material")
    return mat.calls[-2][2]


def same_dg(c, got, want, sc, what):
    for nme, tol in (("p", 1e-5), ("dpdu", 1e-4), ("dpdv", 1e-4)):
        b = g.lst(getattr(want, nme))
        c.close(getattr(got, nme), b, what + "-" + nme, "differs from the directly placed shape", tol=tol, rel=sc + g.ln(b))
    c.close(got.nn, want.nn, what + "-nn", "normal differs from the directly placed shape", tol=1e-4, rel=1.)
    for nme in ("dndu", "dndv"):
        b = g.lst(getattr(want, nme))
        c.close(getattr(got, nme), b, what + "-" + nme, "normal derivative differs from the directly placed shape", tol=1e-3, rel=1. + g.ln(b))
    c.close([got.u, got.v], [want.u, want.v], what + "-uv", "(u,v) differ", tol=1e-4, rel=1.)


@task(quick=1200, thorough=30000, min_events=50)
def geometric(c):
    r = c.rng
    ref = S.rand_shape(r)
    mat, light = Mat(), Light() if r.random() < .5 else None
    prim = GeometricPrimitive(ref.shape, mat, light)
    c.check(prim.can_intersect() and prim.get_area_light() is light, "attrs", "primitive lost its light")
    top = prim if r.random() < .6 else Scene(r.choice([lambda: SimpleAggregate([prim], True), lambda: BVH([prim])])(), [], None)
    for _ in range(3):
        o, d, mint, maxt = S.aimed_ray(r, ref)
        want, close = ref.hits(o, d, mint, maxt)
        if close:
            continue
        c.note(ray=[o, d, mint, maxt], **ref.info)
        c.sig(ref.info, o, d)
        hit, t, isect, R = ask(c, top, o, d, mint, maxt)
        c.check(hit == bool(want), "hit", "primitive and shape disagree")
        c.event("hit" if hit else "miss")
        if not hit or not want:
            continue
        tt, dg = ref.shape.intersect(geo.Ray(g.P(o), g.V(d), mint, maxt))[1:4:2]
        c.close(t, tt, "t", "parameter differs from the shape's", tol=1e-12)
        same_dg(c, isect.dg, dg, ref.size * ref.scale, "geometry")
        c.check(isect.primitiveId == prim.primitiveId, "prim-id", "record carries another primitive id")
        record(c, isect, prim, ref, mat, light, o, d, t, R)


@task(quick=700, thorough=20000, min_events=50)
def instance(c):
    r = c.rng
    ref = S.rand_shape(r)
    mat, light = Mat(), Light() if r.random() < .5 else None
    prim = GeometricPrimitive(ref.shape, mat, light)
    moving = r.random() < .5
    depth = r.choice([1, 1, 2])
    (_, _, _, t0), (_, _, _, t1) = g.motion(r)
    time = r.choice([t0, t1, r.uniform(t0, t1), r.uniform(t0, t1)])
    obj = prim
    Ptot, Mtot = Transform(), g.ident()
    descs = []
    for _ in range(depth):
        # p2w placements; the primitive stores world-to-primitive
        if moving:
            (T1, M1, d1, _), (T2, M2, d2, _) = g.motion(r)
            w2p = AnimatedTransform(T1.inverse(), t0, T2.inverse(), t1)
            W = w2p.interpolate(time)
            P = W.inverse()
            Mp = [[float(x) for x in row] for row in P.m]
            descs.append([d1, d2, t0, t1])
        else:
            T1, M1, d1 = g.affine(r, mirror=False)
            w2p = AnimatedTransform(T1.inverse(), 0., T1.inverse(), 1.)
            P, Mp = T1, M1
            descs.append(d1)
        if r.random() < .25:
            obj = r.choice([lambda x: SimpleAggregate([x], True), lambda x: BVH([x]), lambda x: GridAccel([x], True)])(obj)
        obj = TransformedPrimitive(obj, w2p)
        Ptot = P * Ptot
        Mtot = g.mm(Mp, Mtot)
    outer = obj
    repr(outer)
    flat = placed(ref, Ptot, Mtot)
    Mi = g.m_inv_affine(Mtot)
    for _ in range(3):
        o, d, mint, maxt = S.aimed_ray(r, flat)
        want, close = flat.hits(o, d, mint, maxt)
        if close:
            continue
        c.note(ray=[o, d, mint, maxt], inst=descs, time=time, **ref.info)
        c.sig(ref.info, descs, o, d)
        hit, t, isect, R = ask(c, outer, o, d, mint, maxt, time)
        c.check(hit == bool(want), "hit", "instance and directly placed shape disagree", want=want)
        occ = bool(outer.intersect_p(geo.RayDifferential(g.P(o), g.V(d), mint, maxt, 0, time)))
        c.check(occ == bool(want), "occlusion", "instance and directly placed shape disagree on blocking a ray", want=want, time=time)
        c.event(("moving" if moving else "static") + (".hit" if hit else ".miss"))
        if not hit or not want:
            continue
        sh = flat.shape.intersect(geo.Ray(g.P(o), g.V(d), mint, maxt))
        if not sh[0]:
            continue
        c.close(t, sh[1], "t", "parameter differs from the placed shape's", tol=1e-6)
        same_dg(c, isect.dg, sh[3], flat.size * flat.scale + 1e-3 * g.ln(o), "geometry")
        c.check(isect.primitiveId == outer.primitiveId, "prim-id", "record carries another id than the instance's")
        record(c, isect, prim, ref, mat, light, o, d, t, R, Mtot)
    c.check(outer.can_intersect(), "can-intersect", "instance is not intersectable")


@task(quick=300, thorough=8000, min_events=50)
def shading_through(c):
    """vertex normals reach the material in world space through instances"""
    r = c.rng
    n = 3
    pts = [[r.gauss(0, 1) for _ in range(3)] for _ in range(3)]
    e1, e2 = g.sub(pts[1], pts[0]), g.sub(pts[2], pts[0])
    if g.ln(g.cross(e1, e2)) < .2:
        return
    fn = g.nrm(g.cross(e1, e2))
    Ns = [g.nrm(g.add(fn, g.mul(g.gunit(r), .5))) for _ in range(3)]
    T, M, desc = g.affine(r)
    Ti, Mi, di = g.affine(r, mirror=False)
    mat = Mat()
    q = {'indices': [0, 1, 2], 'P': [g.P(p) for p in pts], 'N': [g.N(x) for x in Ns]}
    me = create_triangle_mesh(T, T.inverse(), False, q)
    out = []
    GeometricPrimitive(me, mat).full_refine(out)
    inst = TransformedPrimitive(out[0], AnimatedTransform(Ti.inverse(), 0., Ti.inverse(), 1.))
    Mt = g.mm(Mi, M)
    b = [r.uniform(.1, 1) for _ in range(3)]
    s = sum(b)
    b = [x / s for x in b]
    w = [g.m_pt(Mt, p) for p in pts]
    p = [sum(b[k] * w[k][i] for k in range(3)) for i in range(3)]
    nw = g.nrm(g.cross(g.sub(w[1], w[0]), g.sub(w[2], w[0])))
    o = g.add(p, g.mul(nw, r.choice([-2., 2.])))
    R = geo.RayDifferential(g.P(o), g.V(g.nrm(g.sub(p, o))))
    isect = Intersection()
    c.note(T=desc, inst=di, P=pts, N=Ns)
    c.sig(desc, di, pts)
    if not c.check(inst.intersect(R, isect), "hit", "instance missed"):
        return
    isect.get_bsdf(R)
    dgs = mat.calls[-1][2]
    raw = [sum(b[k] * Ns[k][i] for k in range(3)) for i in range(3)]
    c.close(dgs.nn, g.nrm(g.m_nrm(Mt, raw)), "normal", "interpolated normal did not reach the material in world space", tol=1e-4, rel=1.)
    c.check(g.dot(g.lst(dgs.nn), g.lst(isect.dg.nn)) > 0, "sides", "shading and geometric normals lie on opposite sides",
            ns=dgs.nn, ng=isect.dg.nn)
    a, e = (0. - 1., 0. - 1.), (1. - 1., 0. - 1.)
    dd = a[0] * e[1] - a[1] * e[0]
    n1, n2 = g.sub(Ns[0], Ns[2]), g.sub(Ns[1], Ns[2])
    du = [(e[1] * n1[i] - a[1] * n2[i]) / dd for i in range(3)]
    wd = g.m_nrm(Mt, du)
    c.close(dgs.dndu, wd, "dndu", "normal derivative did not reach the material in world space", tol=1e-5, rel=1 + g.ln(wd))


@task(quick=150, thorough=3000, min_events=20)
def refinement(c):
    """full refinement gives only intersectable primitives, which together answer as the original would"""
    r = c.rng
    mat, light = Mat(), Light()
    T, M, desc = g.affine(r)
    n = r.randrange(1, 6)
    pts = [[r.gauss(0, 1.5) for _ in range(3)] for _ in range(3 * n)]
    me = create_triangle_mesh(T, T.inverse(), False, {'indices': list(range(3 * n)), 'P': [g.P(p) for p in pts]})
    prim = GeometricPrimitive(me, mat, light)
    out = []
    prim.full_refine(out)
    c.note(T=desc, P=pts)
    c.sig(desc, pts)
    c.check(len(out) == n and all(p.can_intersect() for p in out), "pieces", "refined into the wrong pieces", got=len(out))
    c.check(all(p.get_area_light() is light and p.material is mat for p in out), "inherit", "pieces lost the material or the light")
    c.check(len(set(p.primitiveId for p in out)) == n, "ids", "pieces share an id")
    for k in range(n):
        ctr = g.m_pt(M, [sum(p[i] for p in pts[3 * k:3 * k + 3]) / 3. for i in range(3)])
        o = g.add(ctr, g.mul(g.gunit(r), 3.))
        d = g.sub(ctr, o)
        got = [p for p in out if p.intersect_p(geo.Ray(g.P(o), g.V(d), .999, 1.001))]
        c.check(len(got) >= 1, "covered", "no piece covers a point of the original", k=k)
    one = []
    ref = S.rand_shape(r)
    p = GeometricPrimitive(ref.shape, mat)
    p.full_refine(one)
    c.check(one == [p], "already", "an intersectable primitive must refine to itself")
