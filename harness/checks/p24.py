"""P24 light densities, emission sampling, power"""
import math
import shutil
import tempfile
import contextlib
from core import tasklist
import gen as g
import shapes as S
import lights as LT
import pytracer.geometry as geo
import pytracer.light as L
from pytracer.light import LightSample, ShapeSet
from pytracer.shape import create_triangle_mesh, create_loop_subdiv
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate
from pytracer.scene import Scene

TASKS, task = tasklist()
RULE = ("area lights on every shape and on whole meshes, environments of constant, sparse and noisy maps, all emission samplers; reference points near and far; "
        "averages compared with quadrature over the light; distinct by light and point")
ASSUMPTIONS = ["power of spot, projection and goniometric lights is a documented approximation: only bounds are required of it",
               "area lights are placed without scaling"]
PI = math.pi


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="p24-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def ls(r):
    return LightSample(r.random(), r.random(), r.random())


class Box(object):
    """only what lights ask of a scene"""
    def __init__(self, lo, hi):
        self.b = geo.BBox(g.P(lo), g.P(hi))
        self.ctr = [(lo[i] + hi[i]) * .5 for i in range(3)]
        self.rad = g.ln(g.sub(hi, lo)) * .5

    def world_bound(self):
        return self.b


def scene(r):
    lo = [r.gauss(0, 3) for _ in range(3)]
    return Box(lo, g.add(lo, [math.exp(r.uniform(-1, 2)) for _ in range(3)]))


def earlier(r, light):
    """the light may have served another scene before"""
    if r.random() < .6:
        o = scene(r)
        light.power(o)
        light.sample_r(o, ls(r), r.random(), r.random(), r.random())
        if r.random() < .5:
            light.sample_l(g.P([r.gauss(0, 3) for _ in range(3)]), 1e-4, ls(r), r.random())


def tri_mesh(T, verts, idx, ro=False):
    return create_triangle_mesh(T, T.inverse(), ro, {'indices': [k for f in idx for k in f], 'P': [g.P(v) for v in verts]})


def solid(r):
    """closed convex mesh: vertices and outward faces"""
    k = r.choice(["tetra", "box", "octa"])
    if k == "tetra":
        v = [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]
        f = [(0, 1, 2), (0, 3, 1), (0, 2, 3), (1, 3, 2)]
    elif k == "box":
        v = [[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
        f = [(0, 1, 3), (0, 3, 2), (4, 6, 7), (4, 7, 5), (0, 4, 5), (0, 5, 1), (2, 3, 7), (2, 7, 6), (0, 2, 6), (0, 6, 4), (1, 5, 7), (1, 7, 3)]
    else:
        v = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
        f = [(a, b, c_) for a in (0, 1) for b in (2, 3) for c_ in (4, 5)]
    s = [math.exp(r.uniform(-.7, .7)) for _ in range(3)]
    v = [[p[i] * s[i] for i in range(3)] for p in v]
    out = []
    for (a, b, c_) in f:
        n = g.cross(g.sub(v[b], v[a]), g.sub(v[c_], v[a]))
        out.append((a, b, c_) if g.dot(n, v[a]) > 0 else (a, c_, b))
    return v, out, k


def smooth(r):
    """positive smooth function of direction"""
    a, k = g.gunit(r), r.uniform(0, .8)
    return (lambda w: 1. + k * g.dot(a, w)), dict(a=a, k=k)


def rigid_shape(r, kinds=S.KINDS):
    kind = r.choice(kinds)
    return S.rand_shape(r, kind, place=g.affine if kind == "triangle" else LT.placement)


def away(r, ref, lo=1.7, hi=6.):
    ctr = g.m_pt(ref.M, [0., 0., 0.]) if ref.kind != "triangle" else ref.world(1 / 3., 1 / 3.)
    return g.add(ctr, g.mul(g.gunit(r), ref.size * ref.scale * r.uniform(lo, hi)))


def gridded(ref, n):
    """points of the surface with equal area shares: (world point, outward normal)"""
    out = []
    for i in range(n):
        for j in range(n):
            a, b = (i + .5) / n, (j + .5) / n
            if ref.kind == "triangle":
                s = math.sqrt(a)
                uv = (s * (1 - b), s * b)
            elif ref.kind == "sphere":
                z = ref.zlo + b * (ref.zhi - ref.zlo)
                t0, t1 = math.acos(max(-1., min(1., ref.zlo / ref.prm['r']))), math.acos(max(-1., min(1., ref.zhi / ref.prm['r'])))
                uv = (a, (math.acos(max(-1., min(1., z / ref.prm['r']))) - t0) / (t1 - t0))
            elif ref.kind == "disk":
                R, q = ref.prm['r'], ref.prm['ri']
                rr = math.sqrt(q * q + b * (R * R - q * q))
                uv = (a, 1 - (rr - q) / (R - q))
            else:
                uv = (a, b)
            o = ref.point(*uv)
            out.append((g.m_pt(ref.M, o), ref.out_normal(o)))
    return out


def arriving(pts, area, p, f):
    """integral over directions at p of f, over the part of the light whose outward side faces p"""
    t = 0.
    for q, n in pts:
        d = g.sub(p, q)
        D2 = g.dot(d, d)
        w = g.mul(d, 1. / math.sqrt(D2))
        cs = g.dot(n, w)
        if cs > 0:
            t += cs / D2 * f(g.mul(w, -1.))
    return t * area / len(pts)


@task(quick=40, thorough=2500, min_events=30)
def area_mean(c):
    """E[L f / pdf] over light samples = integral of arriving light"""
    r = c.rng
    ref = rigid_shape(r)
    E = r.uniform(.5, 4)
    light = L.DiffuseAreaLight(ref.o2w, LT.spec([E, 2 * E, .5 * E]), 1, ref.shape)
    p = away(r, ref)
    f, fi = smooth(r)
    c.note(p=p, f=fi, **ref.info)
    c.sig(ref.info, p)
    # open cylinders and spheres: inner walls may hide behind outer ones, but they face away unless the light is turned inside out
    inside_out = ref.ro and ref.kind in ("sphere", "cylinder")
    n = 20
    pts = gridded(ref, n)
    fine = gridded(ref, 10)
    # no density for hidden parts: keep only lights whose lit side is not hidden by itself
    if inside_out:
        vis = []
        for q, nn in pts:
            d = g.sub(q, p)
            ts, close = ref.hits(p, d, 0., 1. - 1e-4)
            vis.append(not ts)
        pts_v = [x for x, k in zip(pts, vis) if k]
        want = arriving(pts_v, ref.area() * len(pts_v) / len(pts), p, f) if pts_v else 0.
        coarse = None
    else:
        want = arriving(pts, ref.area(), p, f)
        coarse = arriving(fine, ref.area(), p, f)
    N = 500
    xs = []
    prim = SimpleAggregate([GeometricPrimitive(ref.shape, None, None)], True)
    sc = Scene(prim, [light], None)
    for _ in range(N):
        li, wi, pdf, vis = light.sample_l(g.P(p), 1e-5, ls(r), 0.)
        v = LT.rgb(li)
        pdf = float(pdf)
        c.check(pdf >= 0. and math.isfinite(pdf), "pdf-valid", "density must be finite and non-negative", got=pdf)
        w = g.lst(wi)
        x = 0.
        if pdf > 0 and max(v) > 0:
            x = v[0] * f(w) / pdf
            if inside_out and not vis.unoccluded(sc):
                x = 0.
            c.close(v, [v[0], 2 * v[0], .5 * v[0]], "colour", "emission changed colour", tol=1e-9)
        xs.append(x)
    bias = E * (abs(want - coarse) if coarse is not None else .06 * abs(want) + .02 * ref.area() / g.dot(g.sub(p, pts[0][0]), g.sub(p, pts[0][0])))
    bad, m, se = g.mean_bad(xs, E * want, 6.5, bias)
    c.check(not bad, "mean", "mean of radiance over density is not the arriving light", got=m, want=E * want, se=se, bias=bias)
    c.event(ref.kind + (".inside-out" if inside_out else ""))


@task(quick=20, thorough=700, min_events=30)
def mesh_mean(c):
    """area lights made of many shapes"""
    r = c.rng
    T, M, desc = LT.placement(r)
    v, f_, k = solid(r)
    mirrored = g.m_inv3(M)[1] < 0
    E = r.uniform(.5, 4)
    mesh = tri_mesh(T, v, f_)
    light = L.DiffuseAreaLight(T, LT.spec([E] * 3), 1, mesh)
    wv = [g.m_pt(M, q) for q in v]
    A = sum(.5 * g.ln(g.cross(g.sub(wv[b], wv[a]), g.sub(wv[d], wv[a]))) for a, b, d in f_)
    c.close(light.area, A, "area", "area of a mesh light is the sum of its faces'", tol=1e-6)
    R = max(g.ln(q) for q in v)
    p = g.m_pt(M, g.mul(g.gunit(r), R * r.uniform(1.5, 5)))
    f, fi = smooth(r)
    c.note(mesh=k, T=desc, v=v, p=p, f=fi)
    c.sig(k, desc, v, p)
    want = coarse = 0.
    for a, b, d in f_:
        n = g.nrm(g.cross(g.sub(wv[b], wv[a]), g.sub(wv[d], wv[a])))
        if mirrored:
            n = g.mul(n, -1.)
        ar = .5 * g.ln(g.cross(g.sub(wv[b], wv[a]), g.sub(wv[d], wv[a])))

        def pts(m):
            out = []
            for i in range(m):
                for j in range(m):
                    s, q = math.sqrt((i + .5) / m), (j + .5) / m
                    b1, b2 = s * (1 - q), s * q
                    out.append(([(1 - b1 - b2) * wv[a][x] + b1 * wv[b][x] + b2 * wv[d][x] for x in range(3)], n))
            return out
        want += arriving(pts(12), ar, p, f)
        coarse += arriving(pts(6), ar, p, f)
    xs = []
    N = 200
    # which way triangles face is the placement's business: measure with the light's own one-sidedness
    sc = Scene(SimpleAggregate([GeometricPrimitive(s, None, None) for s in light.shape_set.shapes], True), [light], None)
    for k_ in range(N):
        li, wi, pdf, vis = light.sample_l(g.P(p), 1e-5, ls(r), 0.)
        pdf, l0 = float(pdf), LT.rgb(li)[0]
        q = float(light.pdf(g.P(p), wi))
        c.check(abs(q - pdf) <= 1e-6 * pdf, "pdf-agrees", "density of the sampled direction differs from the density query", sampled=pdf, query=q)
        x = 0.
        if pdf > 0 and l0 > 0 and (k_ % 10 or vis.unoccluded(sc)):
            x = l0 * f(g.lst(wi)) / pdf
        xs.append(x)
    bad, m, se = g.mean_bad(xs, E * want, 6.5, E * 2 * abs(want - coarse))
    c.check(not bad, "mean", "mean of radiance over density is not the arriving light", got=m, want=E * want, se=se)
    c.event(k)


@task(quick=250, thorough=8000, min_events=50)
def area_pdf(c):
    """density with a sample = density query = solid-angle density of the surface met"""
    r = c.rng
    n = r.choice([1, 1, 2, 3])
    refs = [rigid_shape(r, ("triangle",)) for _ in range(n)] if n > 1 else [rigid_shape(r)]
    if n > 1:
        tris = [[ref.world(0, 0), ref.world(1, 0), ref.world(0, 1)] for ref in refs]
        T, M, desc = g.rigid(r)
        inv = g.m_inv_affine(M)
        verts = [g.m_pt(inv, q) for t in tris for q in t]
        mesh = tri_mesh(T, verts, [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(n)])
        light = L.DiffuseAreaLight(T, LT.spec([1.] * 3), 1, mesh)
    else:
        light = L.DiffuseAreaLight(refs[0].o2w, LT.spec([1.] * 3), 1, refs[0].shape)
    A = [ref.area() for ref in refs]
    c.close(light.area, sum(A), "area", "area is not the sum of the shapes'", tol=1e-6)
    p = away(r, refs[0])
    c.note(p=p, shapes=[ref.info for ref in refs])
    c.sig(n, p)
    for _ in range(5):
        li, wi, pdf, vis = light.sample_l(g.P(p), 1e-5, ls(r), 0.)
        w = g.lst(wi)
        q = float(light.pdf(g.P(p), wi))
        pdf = float(pdf)
        c.check(abs(q - pdf) <= 1e-6 * abs(pdf), "pdf-agrees", "density of the sampled direction differs from the density query", sampled=pdf, query=q)
        best = None
        unsure = False
        for i, ref in enumerate(refs):
            ts, close = ref.hits(p, w, 1e-5, math.inf)
            unsure |= close
            if ts and (best is None or ts[0] < best[0]):
                best = (ts[0], i)
        if unsure or best is None:
            continue
        t, i = best
        ref = refs[i]
        full = ref.kind == "sphere" and ref.pm > 6.28318 and ref.zhi - ref.zlo > 1.9999999 * ref.prm['r']
        if full:
            st2 = ref.prm['r'] ** 2 / g.dot(g.sub(p, g.m_pt(ref.M, [0., 0., 0.])), g.sub(p, g.m_pt(ref.M, [0., 0., 0.])))
            want = 1. / (2 * PI * (1 - math.sqrt(1 - st2)))
        else:
            nn = ref.out_normal(g.m_pt(ref.inv, g.add(p, g.mul(w, t))))
            cs = abs(g.dot(nn, w))
            if cs < 1e-3:
                continue
            want = t * t / (cs * sum(A))
        c.check(abs(pdf - want) <= 1e-4 * want, "pdf-value", "density is not the solid-angle density of the nearest surface", got=pdf, want=want)
        c.event("set%d" % n)
    # a direction away from the light
    if n > 1 or refs[0].kind != "sphere":
        w = g.gunit(r)
        res = [ref.hits(p, w, 1e-5, math.inf) for ref in refs]
        if not any(ts or close for ts, close in res):
            q = float(light.pdf(g.P(p), g.V(w)))
            c.check(q == 0., "pdf-miss", "density of a direction that misses the light must be zero", got=q)


@task(quick=350, thorough=10000, min_events=50)
def env_pdf(c):
    """environment: density with a sample = query; no lit direction without density"""
    r = c.rng
    with folder() as f:
        lit = LT.Lit(r, "infinite", f)
    c.note(**lit.info)
    h, w = lit.img.shape[:2]
    p = g.P([r.gauss(0, 3) for _ in range(3)])
    for _ in range(6):
        u0 = [r.random() for _ in range(3)]
        li, wi, pdf, vis = lit.light.sample_l(p, 1e-5, LightSample(*u0), 0.)
        u = g.lst(wi)
        s, t = LT.sph(lit.local(u))
        pdf = float(pdf)
        c.sig(lit.info, u)
        c.check(pdf >= 0 and math.isfinite(pdf), "pdf-valid", "density must be finite and non-negative", got=pdf)
        edge = min(abs(s * w - round(s * w)), abs(t * h - round(t * h)))
        if edge < 1e-6 or not 1e-6 < t < 1 - 1e-6:
            continue
        q = float(lit.light.pdf(p, wi))
        c.check(abs(q - pdf) <= 1e-6 * pdf, "pdf-agrees", "density of the sampled direction differs from the density query", sampled=pdf, query=q, dir=u)
        q2 = float(lit.light.pdf(p, g.V(g.mul(u, r.uniform(.2, 5)))))
        c.check(abs(q2 - q) <= 1e-6 * q, "pdf-length", "density must not depend on the length of the direction", got=q2, want=q)
        if 1e-3 < t < 1 - 1e-3:
            d = g.spread(lambda x, y: g.lst(lit.light.sample_l(p, 1e-5, LightSample(x, y, u0[2]), 0.)[1]), u0[:2])
            if d is not None:
                c.check(d <= pdf * 1.005, "crowding", "directions crowd more densely than the reported density", u=u0, local=d, pdf=pdf, dir=u)
                c.event("local-density")
    for _ in range(12):
        u = g.gunit(r)
        s, t = LT.sph(lit.local(u))
        v = LT.bilinear(lit.img, s, t)
        q = float(lit.light.pdf(p, g.V(u)))
        c.check(q >= 0 and math.isfinite(q), "pdf-valid", "density must be finite and non-negative", got=q)
        if LT.lum(v) > 1e-3 * lit.img.max():
            c.check(q > 0, "covered", "light arrives from a direction that is never sampled", radiance=v, dir=u, st=(s * w, t * h))
            c.event("lit")


def env_grid(lit, f, n):
    """quadrature over directions"""
    tot = 0.
    h, w = lit.img.shape[:2]
    nt, np_ = n * h, n * w
    for i in range(nt):
        t = (i + .5) / nt
        th = t * PI
        row = 0.
        for j in range(np_):
            s = (j + .5) / np_
            ph = s * 2 * PI
            d = [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
            row += LT.bilinear(lit.img, s, t)[1] * f(g.m_vec(lit.M, d))
        tot += row * math.sin(th)
    return tot * (PI / nt) * (2 * PI / np_)


@task(quick=24, thorough=1500, min_events=20)
def env_mean(c):
    r = c.rng
    with folder() as fo:
        lit = LT.Lit(r, "infinite", fo)
    f, fi = smooth(r)
    c.note(f=fi, **lit.info)
    c.sig(lit.info, fi)
    h, w = lit.img.shape[:2]
    n = max(1, int(48 / math.sqrt(h * w)))
    want, coarse = env_grid(lit, f, 2 * n), env_grid(lit, f, n)
    p = g.P([r.gauss(0, 3) for _ in range(3)])
    xs, ones = [], []
    for _ in range(900):
        li, wi, pdf, vis = lit.light.sample_l(p, 1e-5, ls(r), 0.)
        pdf = float(pdf)
        xs.append(LT.rgb(li)[1] * f(g.lst(wi)) / pdf if pdf > 0 else 0.)
    bad, m, se = g.mean_bad(xs, want, 6.5, 2 * abs(want - coarse))
    c.check(not bad, "mean", "mean of radiance over density is not the environment's integral", got=m, want=want, se=se)
    # the density integrates to one
    tot = 0.
    nt, np_ = 4 * h if h > 8 else 32, 2 * w
    for i in range(nt):
        th = (i + .5) / nt * PI
        for j in range(np_):
            ph = (j + .5) / np_ * 2 * PI
            d = [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
            tot += float(lit.light.pdf(p, g.V(g.m_vec(lit.M, d)))) * math.sin(th)
    tot *= (PI / nt) * (2 * PI / np_)
    if lit.img.max() > 0:
        c.check(abs(tot - 1) < .02, "normalised", "density over all directions does not integrate to one", got=tot)
    c.event(lit.imgkind)


# ---- emission
def emitted(c, out, time):
    ray, n, pdf, li = out
    c.check(isinstance(ray, geo.Ray), "ray", "emission sampling must return a ray")
    c.close(g.ln(g.lst(ray.d)), 1., "ray-unit", "emitted ray must have unit direction", tol=1e-6)
    c.check(float(ray.time) == time, "ray-time", "emitted ray at another time", got=ray.time, want=time)
    c.check(0. <= float(ray.mint) <= 1e-3 and math.isinf(ray.maxt), "ray-range", "emitted ray must run from the light to infinity", got=[ray.mint, ray.maxt])
    c.check(float(pdf) >= 0 and math.isfinite(float(pdf)), "pdf-valid", "emission density", got=pdf)
    v = LT.rgb(li)
    c.check(all(x >= 0 and math.isfinite(x) for x in v), "valid", "emitted radiance must be finite and non-negative", got=v)
    return g.lst(ray.o), g.lst(ray.d), g.lst(n), float(pdf), v


def flux(lit, n):
    """integral over directions of the profile (green)"""
    if lit.kind == "point":
        return 4 * PI
    if lit.kind == "spot":
        cw, cf = math.cos(math.radians(lit.width)), math.cos(math.radians(lit.falloff))
        return 2 * PI * ((1 - cf) + (cf - cw) / 5.)
    if lit.kind == "projection":
        # over the window: cos^3 / f^2
        f = 1. / math.tan(math.radians(lit.fov) / 2.)
        hx, hy = lit.half
        nx, ny = n * (lit.img.shape[1] if lit.img is not None else 8), n * (lit.img.shape[0] if lit.img is not None else 8)
        t = 0.
        for i in range(nx):
            for j in range(ny):
                s, q = (i + .5) / nx, (j + .5) / ny
                x, y = (2 * s - 1) * hx / f, (2 * q - 1) * hy / f
                e = LT.bilinear(lit.img, s, q)[1] if lit.img is not None else 1.
                t += e / (1 + x * x + y * y) ** 1.5
        return t * (2 * hx / f / nx) * (2 * hy / f / ny)
    if lit.img is None:
        return 4 * PI
    h, w = lit.img.shape[:2]
    nt, np_ = n * h, n * w
    t = 0.
    for i in range(nt):
        q = (i + .5) / nt
        t += math.sin(q * PI) * sum(LT.bilinear(lit.img, (j + .5) / np_, q)[1] for j in range(np_))
    return t * (PI / nt) * (2 * PI / np_)


@task(quick=64, thorough=3000, min_events=30)
def emit_positional(c):
    r = c.rng
    with folder() as fo:
        lit = LT.Lit(r, r.choice(["point", "spot", "projection", "gonio"]), fo)
    c.note(**lit.info)
    c.sig(lit.info)
    sc = scene(r)
    earlier(r, lit.light)
    xs, dirs = [], []
    wide = lit.img is not None
    N = 500
    for _ in range(N):
        time = r.random()
        s = ls(r)
        o, d, n, pdf, v = emitted(c, lit.light.sample_r(sc, s, r.random(), r.random(), time), time)
        c.close(o, lit.pos, "origin", "emitted ray must start at the light", tol=1e-6)
        c.close(n, d, "normal", "the normal of a point source is its direction", tol=1e-6, rel=1.)
        ref, near = lit.profile(d)
        if near:
            xs.append(v[1] / pdf)
            continue
        top = float(lit.img.max()) if wide else 1.
        c.check(all(abs(v[i] - lit.I[i] * ref[i]) <= 1e-5 * max(lit.I) * top for i in range(3)), "radiance", "emitted intensity is not the profile's in the ray direction",
                got=v, want=[lit.I[i] * ref[i] for i in range(3)], dir=d)
        xs.append(v[1] / pdf if pdf > 0 else 0.)
    k = 2 if wide and lit.img.size > 300 else 4
    F, F2 = flux(lit, k), flux(lit, 2 * k)
    want = lit.I[1] * F2
    bad, m, se = g.mean_bad(xs, want, 6.5, 2 * lit.I[1] * abs(F - F2))
    c.check(not bad, "flux", "mean of intensity over density is not the total emission", got=m, want=want, se=se)
    P = LT.rgb(lit.light.power(sc))
    if lit.kind == "point":
        c.close(P, [x * 4 * PI for x in lit.I], "power", "power is not the integral of emission", tol=1e-6)
    elif lit.kind == "spot":
        lo = 2 * PI * (1 - math.cos(math.radians(lit.falloff)))
        hi = 2 * PI * (1 - math.cos(math.radians(lit.width)))
        c.check(all(lo * i * (1 - 1e-6) <= x <= hi * i * (1 + 1e-6) for x, i in zip(P, lit.I)), "power-bounds", "power is outside what the inner and outer cones emit", got=P, lo=lo, hi=hi)
    else:
        c.check(all(x >= 0 and math.isfinite(x) for x in P), "power-valid", "power must be finite and non-negative", got=P)
        if lit.img is None or lit.imgkind == "const":
            e = lit.img[0, 0] if lit.img is not None else [1.] * 3
            tot = [lit.I[i] * float(e[i]) * (F2 / (float(e[1])) if lit.kind == "projection" else 4 * PI) for i in range(3)]
            if lit.kind == "gonio":
                c.close(P, tot, "power", "power of a constant distribution is not the integral of emission", tol=1e-6)
            else:
                c.check(all(a >= .98 * b for a, b in zip(P, tot)), "power-bounds", "power is less than what the image window emits", got=P, want=tot)
    c.event(lit.kind)


@task(quick=32, thorough=2000, min_events=30)
def emit_distant(c):
    r = c.rng
    lit = LT.Lit(r, "distant", "/nonexistent")
    sc = scene(r)
    earlier(r, lit.light)
    c.note(lo=g.lst(sc.b.pMin), **lit.info)
    c.sig(lit.info)
    N = 400
    a, b, n_ = g.onb(lit.wi)
    cnt = [0.] * 12
    for _ in range(N):
        time = r.random()
        o, d, n, pdf, v = emitted(c, lit.light.sample_r(sc, ls(r), r.random(), r.random(), time), time)
        disk(c, sc, o, d, g.mul(lit.wi, -1.), cnt, a, b)
        c.close(pdf, 1. / (PI * sc.rad ** 2), "density", "density is not one over the disk", tol=1e-6)
        c.close(v, lit.I, "radiance", "emitted radiance", tol=1e-9)
        c.close(n, d, "normal", "normal of the emitted ray", tol=1e-6, rel=1.)
    bad, stat, k = g.chi2_bad(cnt, [N / 12.] * 12)
    c.check(not bad, "uniform", "origins are not uniform over the disk", counts=cnt, stat=stat)
    c.close(LT.rgb(lit.light.power(sc)), [x * PI * sc.rad ** 2 for x in lit.I], "power", "power is not radiance times disk area", tol=1e-6)
    c.event("distant")


def disk(c, sc, o, d, want_d, cnt, a, b):
    """origin on the disk of the bounding sphere facing the ray, outside the scene"""
    if want_d is not None:
        c.close(d, want_d, "direction", "rays must travel along the light's direction", tol=1e-6, rel=1.)
    x = g.sub(o, sc.ctr)
    c.close(-g.dot(x, d), sc.rad, "disk-plane", "origin is not on the plane touching the scene's sphere", tol=1e-5, rel=sc.rad + g.ln(sc.ctr))
    y = g.add(x, g.mul(d, sc.rad))
    c.check(g.ln(y) <= sc.rad * (1 + 1e-5) + 1e-5 * g.ln(sc.ctr), "disk-radius", "origin is outside the disk", got=g.ln(y), rad=sc.rad)
    i = min(2, int(3 * min(.999999, (g.ln(y) / sc.rad) ** 2)))
    j = int(4 * ((math.atan2(g.dot(y, b), g.dot(y, a)) / (2 * PI)) % 1.)) % 4
    cnt[i * 4 + j] += 1


@task(quick=28, thorough=1500, min_events=20)
def emit_env(c):
    r = c.rng
    with folder() as fo:
        lit = LT.Lit(r, "infinite", fo)
    sc = scene(r)
    earlier(r, lit.light)
    c.note(lo=g.lst(sc.b.pMin), **lit.info)
    c.sig(lit.info)
    h, w = lit.img.shape[:2]
    f, fi = smooth(r)
    n = max(1, int(32 / math.sqrt(h * w)))
    want, coarse = env_grid(lit, f, 2 * n), env_grid(lit, f, n)
    N = 500
    cnt = [0.] * 12
    xs, ys = [], []
    for _ in range(N):
        time = r.random()
        out = lit.light.sample_r(sc, ls(r), r.random(), r.random(), time)
        if out[0] is None:
            c.check(float(out[2]) == 0., "none", "no ray but a density")
            xs.append(0.)
            continue
        o, d, nn, pdf, v = emitted(c, out, time)
        u = g.mul(d, -1.)
        a, b, _n = g.onb(d)
        disk(c, sc, o, d, None, cnt, a, b)
        c.close(nn, d, "normal", "normal of the emitted ray", tol=1e-6, rel=1.)
        wl = lit.local(u)
        if math.hypot(wl[0], wl[1]) > 1e-3:
            s, t = LT.sph(wl)
            ref = LT.bilinear(lit.img, s, t)
            c.check(all(abs(x - y) <= 1e-6 * float(lit.img.max()) * max(h, w) for x, y in zip(v, ref)), "radiance", "emitted radiance is not the map's against the ray", got=v, want=ref)
            edge = min(abs(s * w - round(s * w)), abs(t * h - round(t * h)))
            if edge > 1e-6:
                q = float(lit.light.pdf(g.P(o), g.V(u))) / (PI * sc.rad ** 2)
                c.check(abs(q - pdf) <= 1e-6 * pdf, "density", "density is not direction density over disk area", got=pdf, want=q)
        xs.append(v[1] * f(u) / pdf if pdf > 0 else 0.)
    sel = sum(cnt)
    bad, stat, k = g.chi2_bad(cnt, [sel / 12.] * 12)
    c.check(not bad, "uniform", "origins are not uniform over the disk", counts=cnt, stat=stat)
    A = PI * sc.rad ** 2
    bad, m, se = g.mean_bad(xs, want * A, 6.5, 2 * A * abs(want - coarse))
    c.check(not bad, "flux", "mean of emission over density is not the total", got=m, want=want * A, se=se)
    P = LT.rgb(lit.light.power(sc))
    c.check(all(x >= 0 and math.isfinite(x) for x in P), "power-valid", "power must be finite and non-negative", got=P)
    if lit.imgkind in ("const", "constant-colour"):
        c.close(P, [float(x) * 4 * PI * A for x in lit.img[0, 0]], "power", "power of a constant environment is not the integral of emission", tol=1e-6)
    c.event(lit.imgkind)


@task(quick=40, thorough=2500, min_events=30)
def emit_area(c):
    r = c.rng
    ref = rigid_shape(r)
    E = r.uniform(.5, 4)
    light = L.DiffuseAreaLight(ref.o2w, LT.spec([E] * 3), 1, ref.shape)
    sc = scene(r)
    earlier(r, light)
    c.note(**ref.info)
    c.sig(ref.info)
    A = ref.area()
    f, fi = smooth(r)
    xs = []
    N = 400
    for _ in range(N):
        time = r.random()
        o, d, n, pdf, v = emitted(c, light.sample_r(sc, ls(r), r.random(), r.random(), time), time)
        q = g.m_pt(ref.inv, o)
        ok, near = ref.covers(q, 1e-5 * ref.size)
        want_n = ref.out_normal(q)
        if ref.kind == "sphere":
            err = abs(g.ln(q) - ref.prm['r'])
        elif ref.kind == "cylinder":
            err = abs(math.hypot(q[0], q[1]) - ref.prm['r'])
        elif ref.kind == "disk":
            err = abs(q[2] - ref.prm['h'])
        else:
            err = abs(g.dot(g.sub(q, ref.pts[0]), ref.obj_normal(q)))
        c.check((ok or near) and err < 1e-5 * ref.size, "on-light", "emitted ray does not start on the light", o=o, err=err)
        c.close(n, want_n, "normal", "normal of the emitting point", tol=1e-4, rel=1.)
        cs = g.dot(n, d)
        c.check(cs >= -1e-9, "hemisphere", "ray leaves into the back of the light", cos=cs)
        c.close(pdf, 1. / (A * 2 * PI), "density", "density is not one over area times hemisphere", tol=1e-6)
        c.check(v == [E] * 3 or abs(cs) < 1e-9, "radiance", "emitted radiance", got=v)
        xs.append(v[0] * abs(cs) / pdf)
    c.close(LT.rgb(light.power(sc)), [E * A * PI] * 3, "power", "power is not emission x area x pi", tol=1e-6)
    bad, m, se = g.mean_bad(xs, E * A * PI, 6.5)
    c.check(not bad, "flux", "mean of emission over density is not the power", got=m, want=E * A * PI, se=se)
    c.event(ref.kind)


@task(quick=120, thorough=3000, min_events=30)
def shape_set(c):
    """choosing among shapes: by area, uniform over the union"""
    r = c.rng
    n = r.choice([1, 2, 3, 5])
    T, M, desc = g.rigid(r)
    verts = [[r.gauss(0, 1) for _ in range(3)] for _ in range(3 * n)]
    ar = []
    for i in range(n):
        a, b, d = verts[3 * i:3 * i + 3]
        ar.append(.5 * g.ln(g.cross(g.sub(b, a), g.sub(d, a))))
    if min(ar) < .02:
        return
    # slivers, or nothing but small shapes
    if r.random() < .4:
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(n + 1)
            o = [r.gauss(0, 1) for _ in range(3)]
            t = [g.add(o, [r.uniform(.5, 1) * 10 ** -r.uniform(3, 5) * (1 if j == i else .1) for j in range(3)]) for i in range(3)]
            verts[3 * k:3 * k] = t
            ar.insert(k, .5 * g.ln(g.cross(g.sub(t[1], t[0]), g.sub(t[2], t[0]))))
            n += 1
    small = r.choice([1., 1., 1e-2, 1e-3])
    verts = [g.mul(v, small) for v in verts]
    ar = [a * small * small for a in ar]
    c.note(verts=verts, T=desc)
    c.sig(verts)
    ss = ShapeSet(tri_mesh(T, verts, [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(n)]))
    c.close(ss.sum_area / sum(ar), 1., "area", "total area", tol=1e-6)
    inv = g.m_inv_affine(M)
    N = 200 if n > 1 else 20
    cnt = [0.] * n
    for k in range(N):
        u = (k + .5) / N
        s = LightSample(r.random(), r.random(), u)
        p, nn = ss.sample(s) if k % 2 else ss.sample_p(g.P([9., 9., 9.]), s)
        q = g.m_pt(inv, g.lst(p))
        on = []
        for i in range(n):
            a, b, d = verts[3 * i:3 * i + 3]
            e1, e2, w = g.sub(b, a), g.sub(d, a), g.sub(q, a)
            A_, B_, C_ = g.dot(e1, e1), g.dot(e1, e2), g.dot(e2, e2)
            x, y = g.dot(w, e1), g.dot(w, e2)
            det = A_ * C_ - B_ * B_
            b1, b2 = (C_ * x - B_ * y) / det, (A_ * y - B_ * x) / det
            pl = abs(g.dot(g.nrm(g.cross(e1, e2)), w))
            if min(b1, b2, 1 - b1 - b2) > -1e-6 and pl < 1e-6:
                on.append(i)
        c.check(len(on) >= 1, "on-shape", "sample is on none of the shapes", p=g.lst(p))
        for i in on:
            cnt[i] += 1. / len(on)
        c.close(float(ss.pdf_p(p)) * sum(ar), 1., "area-density", "density over the union is not one over the total area", tol=1e-6)
    # stratified choice: counts within one or two of the expected share
    c.check(all(abs(x - N * a / sum(ar)) <= 3 for x, a in zip(cnt, ar)), "by-area", "shapes are not chosen in proportion to their area", counts=cnt, areas=ar)
    c.event("set%d" % n)


@task(quick=40, thorough=600, min_events=30)
def subdivision(c):
    """lights on refined surfaces collect all their triangles"""
    r = c.rng
    T, M, desc = LT.placement(r)
    v, f_, k = solid(r)
    lv = r.choice([1, 1, 2])
    surf = create_loop_subdiv(T, T.inverse(), False, {'nlevels': lv, 'indices': [i for q in f_ for i in q], 'P': [x for q in v for x in q]})
    c.note(mesh=k, levels=lv, T=desc)
    c.sig(k, lv, v)
    ss = ShapeSet(surf)
    c.check(len(ss.shapes) == len(f_) * 4 ** lv, "count", "number of shapes", got=len(ss.shapes), want=len(f_) * 4 ** lv)
    c.check(all(s.can_intersect() for s in ss.shapes), "intersectable", "a shape of the set cannot be intersected")
    c.close(ss.sum_area, sum(float(s.area()) for s in ss.shapes), "area", "total area", tol=1e-6)
    c.check(len(set(s.shapeId for s in ss.shapes)) == len(ss.shapes), "distinct", "a shape was collected twice")
