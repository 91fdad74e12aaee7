"""P01 nearest true hit of ray-shape intersection"""
import math
from core import tasklist
import gen as g
import shapes as S
import pytracer.geometry as geo

TASKS, task = tasklist()
RULE = ("full and partial spheres, disks, annuli, cylinders and triangles, reversed or not, under random affine placements "
        "(mirrors and non-uniform scale included); rays aimed at, past and from inside, unnormalised, with finite ranges; "
        "distinct by shape parameters and ray")
ASSUMPTIONS = ["rays within a relative 1e-6 of an edge, a tangency or a range end are observed but not judged"]


def run(c, kind):
    r = c.rng
    ref = S.rand_shape(r, kind)
    for _ in range(4):
        o, d, mint, maxt = S.aimed_ray(r, ref)
        one(c, ref, o, d, mint, maxt)


def one(c, ref, o, d, mint, maxt):
    c.note(ray=[o, d, mint, maxt], **ref.info)
    R = geo.Ray(g.P(o), g.V(d), mint, maxt)
    s = g.ray_snap(R)
    ret = ref.shape.intersect(R)
    want, close = ref.hits(o, d, mint, maxt)
    c.check(g.ray_snap(R) == s, "ray-unchanged", "shape intersection modified the ray")
    if close:
        c.event("too-close-to-call")
        return
    c.sig(ref.info, o, d, mint, maxt)
    c.event(ref.kind + (".hit" if want else ".miss"))
    if want and len(want) == 2:
        c.event("two-roots")
    if not c.check(bool(ret[0]) == bool(want), "hit", "hit/miss differs from the surface equation", want=want, got=ret[:2]):
        return
    if not want:
        return
    hit, t, eps, dg = ret
    O = g.m_pt(ref.inv, o)
    sc = (g.ln(O) + ref.size)
    tt = 1e-7 * (abs(want[0]) + sc / g.ln(g.m_vec(ref.inv, d)))
    c.check(abs(t - want[0]) <= tt, "nearest", "reported parameter is not the nearest hit", got=t, want=want)
    c.check(mint <= t <= maxt, "range", "parameter outside the ray's range", t=t)
    c.check(eps >= 0 and math.isfinite(eps) and eps <= 1e-2 * (abs(t) + 1), "eps", "error tolerance is not a small fraction of the parameter", eps=eps, t=t)
    p = g.lst(dg.p)
    on = [o[i] + d[i] * t for i in range(3)]
    wtol = 3e-5 * ref.size * ref.scale + 1e-9 * g.ln(o)
    c.check(g.ln(g.sub(p, on)) < wtol, "on-ray", "reported point is not on the ray", p=p, on=on)
    q = g.m_pt(ref.inv, p)
    u, v = float(dg.u), float(dg.v)
    c.check(dg.shape is ref.shape, "shape", "hit does not name its shape")
    if ref.kind == "triangle":
        a, b = [ref.pts[1][i] - ref.pts[0][i] for i in range(3)], [ref.pts[2][i] - ref.pts[0][i] for i in range(3)]
        w = g.sub(q, ref.pts[0])
        A, B, C = g.dot(a, a), g.dot(a, b), g.dot(b, b)
        det = A * C - B * B
        b1, b2 = (C * g.dot(w, a) - B * g.dot(w, b)) / det, (A * g.dot(w, b) - B * g.dot(w, a)) / det
        c.close(ref.point(b1, b2), q, "on-surface", "point not in the triangle's plane", tol=1e-5 * sc, rel=1.)
        c.close([u, v], ref.uv_of((b1, b2)), "uv", "(u,v) are not the interpolated vertex coordinates", tol=1e-4, rel=1.)
    else:
        c.check(-1e-6 <= u <= 1 + 1e-6 and -1e-6 <= v <= 1 + 1e-6, "uv-range", "u or v outside [0,1]", u=u, v=v)
        back = ref.point(u, v)
        c.check(g.ln(g.sub(back, q)) < 3e-5 * ref.size + 1e-9 * sc, "uv", "(u,v) does not map back to the hit point",
                uv=(u, v), back=back, q=q)


def mk(kind, q, t):
    def case(c):
        run(c, kind)
    task(quick=q, thorough=t, name=kind, min_events=50)(case)


mk("sphere", 1600, 60000)
mk("disk", 1200, 40000)
mk("cylinder", 1400, 60000)
mk("triangle", 1200, 40000)


@task(quick=1000, thorough=40000, min_events=2500)
def partial(c):
    """swept and clipped quadrics, rays through two points of the full surface"""
    r = c.rng
    ref = S.partial_shape(r)
    for _ in range(3):
        o, d, mint, maxt = S.chord_ray(r, ref)
        one(c, ref, o, d, mint, maxt)


@task(quick=200, thorough=6000, min_events=50)
def poles(c):
    """rays through the poles, centres and axes, where the parametrisation degenerates"""
    r = c.rng
    kind = r.choice(["sphere", "disk"])
    ref = S.rand_shape(r, kind, full=True)
    if kind == "sphere":
        tgt = [0., 0., r.choice([-1, 1]) * ref.prm['r']]
    else:
        tgt = [0., 0., ref.prm['h']]
    if r.random() < .5:
        D = [0., 0., r.choice([-1., 1.])]
    else:
        D = g.gunit(r)
        if abs(D[2]) < .1:
            D[2] = .5
    O = g.sub(tgt, g.mul(D, r.uniform(.5, 5) * ref.size))
    o, d = g.m_pt(ref.M, O), g.m_vec(ref.M, D)
    one(c, ref, o, d, 0., math.inf)
