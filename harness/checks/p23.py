"""P23 lights: radiance, direction, visibility segment"""
import io
import math
import shutil
import tempfile
import contextlib
from core import tasklist
import gen as g
import shapes as S
import lights as LT
import numpy as np
import pytracer.geometry as geo
import pytracer.light as L
from pytracer import Spectrum
from pytracer.transform import AnimatedTransform
from pytracer.light import LightSample, VisibilityTester
from pytracer.shape import create_triangle_mesh
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, BVH
from pytracer.scene import Scene

TASKS, task = tasklist()
RULE = ("all eight light types in rigid and mirrored frames, cones and fields of view, image profiles read from files and missing files, shaded points at all distances, "
        "occluders before, behind and beside the segment, still and moving; distinct by light, point and random numbers")
DELTA = ("point", "spot", "projection", "gonio")


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="p23-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def ls(r):
    return LightSample(r.random(), r.random(), r.random())


def segment(c, vis, p, eps, q, time):
    """the tester's ray covers the open segment p..q from eps on"""
    R = vis.ray
    c.check(isinstance(R, geo.Ray), "vis-ray", "no shadow ray")
    d = g.lst(R.d)
    n = g.ln(d)
    D = g.ln(g.sub(q, p))
    c.close(R.o, p, "vis-origin", "shadow ray starts elsewhere", tol=1e-9)
    c.close([x / n for x in d], g.nrm(g.sub(q, p)), "vis-dir", "shadow ray does not point to the light sample", tol=1e-7)
    c.close(float(R.mint) * n, eps * n, "vis-mint", "shadow ray starts at another offset", tol=1e-9)
    far = float(R.maxt) * n
    c.check(D * (1 - 1e-3) <= far <= D * (1 + 1e-9), "vis-maxt", "shadow ray must end at the light", got=far, dist=D)
    c.check(float(R.time) == time, "vis-time", "shadow ray at another time", got=R.time, want=time)


def towards(c, vis, p, eps, wi, time):
    R = vis.ray
    c.close(R.o, p, "vis-origin", "shadow ray starts elsewhere", tol=1e-9)
    d = g.lst(R.d)
    c.close(g.nrm(d), wi, "vis-dir", "shadow ray does not follow the incident direction", tol=1e-9)
    c.close(float(R.mint), eps, "vis-mint", "shadow ray starts at another offset", tol=1e-9)
    c.check(math.isinf(R.maxt) and R.maxt > 0, "vis-maxt", "shadow ray to infinity must not end", got=R.maxt)
    c.check(float(R.time) == time, "vis-time", "shadow ray at another time", got=R.time, want=time)


def kept(c, light, p, eps, s, time, li):
    """the answer belongs to the caller: changing it changes nothing"""
    first = LT.rgb(li)
    wi0 = None
    li *= 3.
    li += 1.
    out = light.sample_l(g.P(p), eps, s, time)
    out[1] *= -2.
    again = light.sample_l(g.P(p), eps, s, time)
    c.close(LT.rgb(again[0]), first, "no-alias", "changing a returned radiance changed the light", tol=1e-12)
    return again


@task(quick=700, thorough=20000, min_events=50)
def positional(c):
    r = c.rng
    with folder() as f:
        lit = LT.Lit(r, r.choice(DELTA), f, scaled=True)
    c.note(**lit.info)
    c.check(lit.light.is_delta_light() is True or lit.light.is_delta_light() == True, "delta", "a light without extent must say so")
    for _ in range(6):
        w = LT.direction_in(r, lit)
        ref, near = lit.profile(w)
        if near:
            continue
        D = math.exp(r.uniform(-3, 5))
        out = []
        for k in (1., r.uniform(1.5, 4)):
            p = g.add(lit.pos, g.mul(w, D * k))
            w2 = g.nrm(g.sub(p, lit.pos))
            ref, near = lit.profile(w2)
            D2 = g.ln(g.sub(p, lit.pos))
            s, time, eps = ls(r), r.random(), r.choice([0., 1e-5, 1e-3 * D])
            snap = g.snap(p)
            P = g.P(p)
            li, wi, pdf, vis = lit.light.sample_l(P, eps, s, time)
            c.check(g.snap(P) == snap, "args", "sampling a light moved the shaded point")
            c.sig(lit.info, p)
            if near:
                continue
            v = LT.rgb(li)
            c.check(all(x >= 0 and math.isfinite(x) for x in v), "valid", "radiance must be finite and non-negative", got=v)
            want = [lit.I[i] * ref[i] / D2 ** 2 for i in range(3)]
            top = max(lit.I) * (1. if lit.img is None else float(lit.img.max())) / D2 ** 2
            # profiles change quickly with direction: allow for rounding of the direction
            amp = 1e-9 * (1 + g.ln(p) / D2) * (2000. if lit.kind != "point" else 1.)
            c.check(all(abs(a - b) <= amp * top + 1e-12 * top for a, b in zip(v, want)), "radiance",
                    "arriving radiance is not profile x intensity / squared distance", got=v, want=want, dir=w2, dist=D2)
            c.close(wi, g.mul(w2, -1.), "wi", "incident direction must point to the light", tol=1e-7, rel=1.)
            c.close(g.ln(g.lst(wi)), 1., "wi-unit", "incident direction must be unit length", tol=1e-9)
            c.check(float(pdf) == 1., "pdf-one", "a light without extent has density one", got=pdf)
            c.check(float(lit.light.pdf(P, wi)) == 0., "pdf-zero", "no other sampling reaches a light without extent")
            segment(c, vis, p, eps, lit.pos, time)
            c.event(lit.kind + (".lit" if max(v) > 0 else ".dark"))
            out.append((D2, v))
        kept(c, lit.light, p, eps, s, time, li)
        le = LT.rgb(lit.light.le(geo.RayDifferential(P, wi)))
        c.check(max(le) == 0. == min(le), "no-le", "rays that miss everything must not see this light", got=le)


@task(quick=300, thorough=8000, min_events=50)
def distant(c):
    r = c.rng
    lit = LT.Lit(r, "distant", "/nonexistent")
    c.note(**lit.info)
    c.check(lit.light.is_delta_light() == True, "delta", "a directional light has no extent")
    for _ in range(5):
        p = [r.gauss(0, 10 ** r.uniform(-1, 4)) for _ in range(3)]
        s, time, eps = ls(r), r.random(), r.choice([0., 1e-5, 1e-2])
        li, wi, pdf, vis = lit.light.sample_l(g.P(p), eps, s, time)
        c.sig(lit.info, p)
        c.close(LT.rgb(li), lit.I, "radiance", "directional radiance does not depend on the point", tol=1e-9)
        c.close(wi, lit.wi, "wi", "incident direction must be the light's, in world space", tol=1e-9, rel=1.)
        c.check(float(pdf) == 1. and float(lit.light.pdf(g.P(p), wi)) == 0., "pdf", "directional light density", got=pdf)
        towards(c, vis, p, eps, lit.wi, time)
        kept(c, lit.light, p, eps, s, time, li)
        le = LT.rgb(lit.light.le(geo.RayDifferential(g.P(p), g.V(lit.wi))))
        c.check(max(le) == 0. == min(le), "no-le", "rays that miss everything must not see a directional light", got=le)


@task(quick=300, thorough=8000, min_events=50)
def environment(c):
    r = c.rng
    with folder() as f:
        lit = LT.Lit(r, "infinite", f)
    c.note(**lit.info)
    c.check(lit.light.is_delta_light() == False, "delta", "an environment has extent")
    top = float(lit.img.max())
    tol = 1e-7 * top * max(lit.img.shape[:2])

    def seen(w):
        """(map value along w, near the poles where the azimuth is ill-conditioned)"""
        wl = lit.local(w)
        s, t = LT.sph(wl)
        return LT.bilinear(lit.img, s, t), math.hypot(wl[0], wl[1]) < 1e-3

    for _ in range(6):
        p = [r.gauss(0, 10 ** r.uniform(-1, 3)) for _ in range(3)]
        w = g.unit(r)
        want, pole = seen(w)
        d = g.mul(w, math.exp(r.gauss(0, 1)))
        v = LT.rgb(lit.light.le(geo.RayDifferential(g.P(p), g.V(d), 0., math.inf)))
        c.sig(lit.info, w)
        if not pole:
            c.check(all(abs(a - b) <= tol for a, b in zip(v, want)), "le", "escaping ray does not see the map in its direction", got=v, want=want, dir=w)
        s, time, eps = ls(r), r.random(), r.choice([0., 1e-5, 1e-2])
        li, wi, pdf, vis = lit.light.sample_l(g.P(p), eps, s, time)
        u = g.lst(wi)
        v = LT.rgb(li)
        c.close(g.ln(u), 1., "wi-unit", "incident direction must be unit length", tol=1e-7)
        c.check(all(x >= 0 and math.isfinite(x) for x in v), "valid", "radiance must be finite and non-negative", got=v)
        want, pole = seen(u)
        if not pole:
            c.check(all(abs(a - b) <= tol for a, b in zip(v, want)), "radiance", "sampled radiance is not the map's in the sampled direction", got=v, want=want, dir=u)
            le = LT.rgb(lit.light.le(geo.RayDifferential(g.P(p), wi)))
            c.check(all(abs(a - b) <= tol for a, b in zip(v, le)), "radiance-le", "sampled radiance differs from what an escaping ray sees", got=v, want=le)
        towards(c, vis, p, eps, u, time)
        again = kept(c, lit.light, p, eps, s, time, li)
        le = lit.light.le(geo.RayDifferential(g.P(p), wi))
        a = LT.rgb(le)
        le *= 3.
        c.close(LT.rgb(lit.light.le(geo.RayDifferential(g.P(p), wi))), a, "no-alias-le", "changing a returned radiance changed the environment", tol=1e-12)
        c.event(lit.imgkind)


@task(quick=120, thorough=2000, min_events=40)
def unreadable(c):
    """a light whose picture cannot be read shines as if it had been given none"""
    r = c.rng
    T, M, info = LT.placement(r)
    I = LT.colour(r)
    kind = r.choice(["projection", "gonio", "infinite"])
    how = r.choice(["missing", "folder", "text", "truncated", "empty"])
    fov = r.uniform(20, 120)
    c.note(kind=kind, how=how, I=I, place=info)
    c.sig(kind, how, I, info)
    with folder() as f:
        path = f + "/a.png"
        if how == "folder":
            path = f
        elif how == "empty":
            open(path, "wb").close()
        elif how == "text":
            with open(path, "w") as h:
                h.write("not a picture")
        elif how == "truncated":
            import PIL.Image
            PIL.Image.fromarray((np.arange(16 * 16 * 3) % 251).astype("uint8").reshape(16, 16, 3)).save(path)
            with open(path, "rb") as h:
                data = h.read()
            with open(path, "wb") as h:
                h.write(data[:len(data) * r.randrange(1, 4) // 8])
        both = []
        with contextlib.redirect_stdout(io.StringIO()):
            for name in (None, path):
                both.append(L.ProjectionLight(T, LT.spec(I), name, fov) if kind == "projection" else
                            L.GonioPhotometricLight(T, LT.spec(I), name) if kind == "gonio" else L.InfiniteAreaLight(T, LT.spec(I), 1, name))
    c.event(how)
    sc = Scene(SimpleAggregate([GeometricPrimitive(S.rand_shape(r).shape, None, None)], True), both, None)
    for _ in range(4):
        p, s, u = [r.gauss(0, 5) for _ in range(3)], ls(r), [r.random(), r.random()]
        w = g.unit(r)
        got = []
        for li in both:
            v, wi, pdf, vis = li.sample_l(g.P(p), 1e-4, s, .5)
            ray, n, pd, e = li.sample_r(sc, s, u[0], u[1], .5)
            got.append(LT.rgb(v) + g.lst(wi) + [float(pdf)] + LT.rgb(li.power(sc)) + LT.rgb(li.le(geo.RayDifferential(g.P(p), g.V(w)))) +
                       g.lst(ray.o) + g.lst(ray.d) + [float(pd)] + LT.rgb(e))
        c.close(got[1], got[0], "unreadable", "a light whose picture cannot be read differs from one without a picture", tol=1e-9)
        if kind == "infinite":
            c.close(LT.rgb(both[1].le(geo.RayDifferential(g.P(p), g.V(w)))), I, "unreadable-le", "the surroundings do not have the light's radiance", tol=1e-7)
        elif kind == "gonio":
            d2 = sum((a - b) ** 2 for a, b in zip(p, g.m_pt(M, [0., 0., 0.])))
            c.close(got[1][:3], [x / d2 for x in I], "unreadable-even", "a lamp without a picture does not shine evenly", tol=1e-7)


def rigid_shape(r):
    kind = r.choice(S.KINDS)
    return S.rand_shape(r, kind, place=g.affine if kind == "triangle" else LT.placement)


@task(quick=350, thorough=10000, min_events=50)
def area(c):
    """light samples of area lights: on the shape, one-sided, right segment"""
    r = c.rng
    ref = rigid_shape(r)
    E = LT.colour(r)
    ns = r.choice([1, 1, 4, 0, -3])
    light = L.DiffuseAreaLight(ref.o2w, LT.spec(E), ns, ref.shape)
    c.note(E=E, **ref.info)
    c.check(light.ns == max(1, ns), "ns", "at least one sample", got=light.ns)
    c.check(light.is_delta_light() == False, "delta", "an area light has extent")
    sz = ref.size * ref.scale
    for _ in range(5):
        # radiance leaving a point of the light
        q = ref.world(*ref.rand_uv(r))
        n = ref.out_normal(ref.point(*ref.rand_uv(r)))
        w = g.unit(r)
        cs = g.dot(n, w)
        if abs(cs) > 1e-9:
            v = LT.rgb(light.l(g.P(q), g.N(n), g.V(w)))
            c.check(v == (E if cs > 0 else [0.] * 3), "one-sided", "emission is constant on the normal's side and black behind", got=v, cos=cs)
            out = light.l(g.P(q), g.N(n), g.V(w))
            out *= 2.
            v2 = LT.rgb(light.l(g.P(q), g.N(n), g.V(w)))
            c.check(v2 == v, "no-alias", "changing a returned radiance changed the light", got=v2)
        p = g.add(ref.world(*ref.rand_uv(r)), g.mul(g.gunit(r), sz * r.uniform(.3, 6)))
        s, time, eps = ls(r), r.random(), r.choice([0., 1e-5])
        li, wi, pdf, vis = light.sample_l(g.P(p), eps, s, time)
        c.sig(ref.info, p)
        v, wi = LT.rgb(li), g.lst(wi)
        c.close(g.ln(wi), 1., "wi-unit", "incident direction must be unit length", tol=1e-7)
        # the sampled point, from the shadow ray: where the reference says the ray meets the shape
        far = float(vis.ray.maxt) * g.ln(g.lst(vis.ray.d))
        x = g.add(p, g.mul(wi, far))
        ts, close = ref.hits(p, wi, 0., math.inf)
        if close:
            continue
        tn = min(ts, key=lambda t: abs(t - far)) if ts else None
        c.check(tn is not None and abs(tn - far) <= 1e-3 * tn + 1e-5 * sz, "on-light", "shadow ray does not end at the light's surface", far=far, hits=ts)
        if tn is None:
            continue
        q = g.add(p, g.mul(wi, tn))
        segment(c, vis, p, eps, q, time)
        c.check(far < tn * (1 + 1e-12), "stops-short", "shadow ray reaches the light itself", far=far, t=tn)
        n = ref.out_normal(g.m_pt(ref.inv, q))
        cs = -g.dot(n, wi)
        if abs(cs) > 1e-4:
            c.check(v == (E if cs > 0 else [0.] * 3), "radiance", "arriving radiance must be the emission of the sampled side", got=v, want=E, cos=cs)
            c.event("front" if cs > 0 else "back")
        kept(c, light, p, eps, s, time, li)
        le = LT.rgb(light.le(geo.RayDifferential(g.P(p), g.V(wi))))
        c.check(max(le) == 0. == min(le), "no-le", "rays that miss everything must not see an area light", got=le)


def blocker(r, at, normal, size, moving=None):
    """a triangle facing `normal` whose centroid is `at`"""
    s, t, _ = g.onb(normal)
    pts = []
    a0 = r.uniform(0, 6.28)
    for k in range(3):
        a = a0 + k * 2 * math.pi / 3
        pts.append(g.add(at, g.add(g.mul(s, size * math.cos(a)), g.mul(t, size * math.sin(a)))))
    from pytracer.transform import Transform
    T = Transform()
    mesh = create_triangle_mesh(T, T, False, {'indices': [0, 1, 2], 'P': [g.P(q) for q in pts]})
    prims = [GeometricPrimitive(x, None, None) for x in mesh.refine()]
    if moving is not None:
        # displaced by `moving` at time 0, in place at time 1
        A, B = Transform.translate(g.V(g.mul(moving, -1.))), Transform()
        prims = [TransformedPrimitive(p, AnimatedTransform(A, 0., B, 1.)) for p in prims]
    return prims


@task(quick=500, thorough=12000, min_events=50)
def occlusion(c):
    """occluders strictly between block, all others do not"""
    r = c.rng
    kind = r.choice(["point", "spot", "distant", "infinite", "area", "projection", "gonio"])
    with folder() as f:
        if kind == "area":
            ref = rigid_shape(r)
            light = L.DiffuseAreaLight(ref.o2w, LT.spec([1., 2., 3.]), 1, ref.shape)
            info = ref.info
            base = ref.world(*ref.rand_uv(r))
            sz = ref.size * ref.scale
            own = [GeometricPrimitive(ref.shape, None, None)] if r.random() < .7 else []
        else:
            lit = LT.Lit(r, kind, f)
            light, info, base, sz, own = lit.light, lit.info, lit.pos, 1., []
    c.note(**info)
    p = g.add(base, g.mul(g.gunit(r), sz * math.exp(r.uniform(0, 2.5))))
    time = r.choice([0., 1., r.random()])
    li, wi, pdf, vis = light.sample_l(g.P(p), 1e-5, ls(r), time)
    wi = g.lst(wi)
    infinite = kind in ("distant", "infinite")
    D = math.exp(r.uniform(-1, 4)) if infinite else float(vis.ray.maxt) * g.ln(g.lst(vis.ray.d))
    if kind == "area" and own:
        # the light's own surface between counts as an occluder
        ts, close = ref.hits(p, wi, 0., D * (1 + 1e-3))
        if close:
            return
        if len(ts) != 1:
            c.event("self-occluded")
            if len(ts) > 1 and ts[0] < .999 * D and ts[0] > 1e-3 * D:
                c.check(not vis.unoccluded(Scene(SimpleAggregate(own, True), [], None)), "self", "the light's own near side must block its far side")
            return
    for _ in range(3):
        where = r.choice(["between", "beyond", "behind", "beside", "empty", "moving"])
        nrm = g.nrm(g.add(wi, g.mul(g.gunit(r), .3)))
        size = .05 * D
        mv = None
        if where == "between":
            fr, want = r.choice([r.uniform(.02, .98), r.uniform(.02, .98), .002, .998]), False
            size = D * .001 if fr in (.002, .998) else size
            at = g.add(p, g.mul(wi, fr * D))
        elif where == "beyond":
            fr = r.choice([1.1, r.uniform(1.1, 5)])
            size = .05 * D
            at, want = g.add(p, g.mul(wi, fr * D)), not infinite
        elif where == "behind":
            at, want = g.add(p, g.mul(wi, -r.uniform(.1, 3) * D)), True
        elif where == "beside":
            s, t, _n = g.onb(wi)
            a = r.uniform(0, 6.28)
            off = g.mul(g.add(g.mul(s, math.cos(a)), g.mul(t, math.sin(a))), D * r.uniform(.1, 1))
            at, want = g.add(g.add(p, g.mul(wi, r.random() * D)), off), True
            size = .04 * D
        elif where == "moving":
            # slides across the segment; in the way only near time 1
            s, t, _n = g.onb(wi)
            at = g.add(p, g.mul(wi, r.uniform(.2, .8) * D))
            mv = g.mul(s, D)
            nrm, size = wi, .04 * D
            gap = (1 - time) * D
            if .01 * D < gap < .08 * D:
                continue
            want = gap > .04 * D
        else:
            at, want, size = g.add(p, g.mul(wi, -50. * D)), True, .05 * D
        prims = own + blocker(r, at, nrm, size, mv)
        if where == "empty" and own:
            prims = own
        agg = SimpleAggregate(prims, True) if r.random() < .7 or where == "moving" else BVH(prims)
        c.sig(info, p, where, at)
        R0 = g.ray_snap(vis.ray)
        got = vis.unoccluded(Scene(agg, [], None))
        c.check(bool(got) == want, "occluded." + where, "visibility is wrong", light=kind, got=got, want=want, p=p, wi=wi, at=at, D=D, time=time)
        c.check(g.ray_snap(vis.ray) == R0, "reusable", "testing visibility changed the shadow ray")
        c.event(where)


@task(quick=400, thorough=10000, min_events=50)
def tester(c):
    """the visibility tester by itself"""
    r = c.rng
    p, q = [[r.gauss(0, 10 ** r.uniform(-1, 2)) for _ in range(3)] for _ in range(2)]
    D = g.ln(g.sub(q, p))
    if D < 1e-3:
        return
    e1, e2, time = r.choice([0., 1e-5, 1e-3]) * D, r.choice([0., 1e-5, 1e-3, .1]), r.random()
    c.note(p=p, q=q, e1=e1, e2=e2)
    c.sig(p, q, e1, e2)
    v = VisibilityTester()
    v.set_segment(g.P(p), e1, g.P(q), e2, time)
    R = v.ray
    c.close(R.o, p, "origin", "segment starts elsewhere")
    c.close(R.d, g.mul(g.sub(q, p), 1. / D), "dir", "segment direction must be unit length towards its end", tol=1e-9)
    c.close([float(R.mint), float(R.maxt)], [e1, D * (1 - e2)], "range", "segment must be shortened by its two offsets", tol=1e-9)
    c.check(float(R.time) == time, "time", "segment at another time")
    w = g.unit(r)
    v.set_ray(g.P(p), e1, g.V(w), time)
    R2 = v.ray
    c.close(R2.d, w, "ray-dir", "ray direction", tol=1e-12)
    c.check(float(R2.mint) == e1 and math.isinf(R2.maxt) and float(R2.time) == time, "ray-range", "ray range")
    k = geo.Ray(g.P(p), g.V(w), e1, D, time=time)
    v3 = VisibilityTester(k)
    c.check(v3.ray is not None and g.ray_snap(v3.ray) == g.ray_snap(k), "ctor", "a tester given a ray must keep it")

    class Sc(object):
        def __init__(self):
            self.rays = []

        def intersect_p(self, ray):
            self.rays.append(g.ray_snap(ray))
            return len(self.rays) % 2 == 1
    sc = Sc()
    a, b = v3.unoccluded(sc), v3.unoccluded(sc)
    c.check((bool(a), bool(b)) == (False, True) and sc.rays == [g.ray_snap(k)] * 2, "shadow", "the tester must ask the scene about its ray and negate the answer", got=(a, b))

    class Ren(object):
        def transmittance(self, scene, ray, sample, rng, *a):
            self.got = (scene, ray, sample, rng)
            return Spectrum(.25)
    ren, smp = Ren(), object()
    rng = np.random.rand
    tr = v3.transmittance(sc, ren, smp, rng)
    c.close(LT.rgb(tr), [.25] * 3, "transmittance", "the renderer's answer must come through")
    c.check(ren.got[0] is sc and ren.got[2] is smp and g.ray_snap(ren.got[1])[:4] == g.ray_snap(k)[:4] and float(ren.got[1].time) == time,
            "transmittance-ray", "the renderer must be asked about the tester's ray")
