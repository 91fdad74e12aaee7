"""P10 differential geometry at hits"""
import math
from core import tasklist
import gen as g
import shapes as S
import pytracer.geometry as geo
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, Intersection
from pytracer.transform import AnimatedTransform
from pytracer.shape import Sphere, Cylinder, Disk, create_triangle_mesh

TASKS, task = tasklist()
RULE = ("hits on all shapes under affine placements (rigid and mirrored-rigid ones for normal derivatives), reversed or not; "
        "ray differentials in random directions; distinct by shape and ray")


def rigid_or_mirror(r):
    T, M, desc = g.rigid(r)
    if r.random() < .4:
        s = [1., 1., 1.]
        s[r.randrange(3)] = -1.
        T = T * g.Transform.scale(*s)
        M = g.mm(M, g.m_scale(s))
        desc += "*mirror(%s)" % s
    return T, M, desc


def fd(f, x, h=1e-6):
    a, b = f(x + h), f(x - h)
    return [(a[i] - b[i]) / (2 * h) for i in range(3)]


def hit(c, ref, tries=4, raydiff=False):
    r = c.rng
    for _ in range(tries):
        o, d, mint, maxt = S.aimed_ray(r, ref, miss=0.)
        mint, maxt = 0., math.inf
        want, close = ref.hits(o, d, mint, maxt)
        if not want or close:
            continue
        O, D = g.m_pt(ref.inv, o), g.m_vec(ref.inv, d)
        p = g.add(O, g.mul(D, want[0]))
        if ref.kind != "triangle" and math.hypot(p[0], p[1]) < .03 * ref.prm['r']:
            continue
        R = (geo.RayDifferential if raydiff else geo.Ray)(g.P(o), g.V(d), mint, maxt)
        ret = ref.shape.intersect(R)
        if not c.check(ret[0], "hit", "expected hit missed (see P01)"):
            return None
        c.note(ray=[o, d], **ref.info)
        c.sig(ref.info, o, d)
        return ret[3], p, o, d, want[0]
    c.event("no-clear-hit")
    return None


@task(quick=3000, thorough=80000, min_events=50)
def surface(c):
    r = c.rng
    rigid = r.random() < .5
    ref = S.rand_shape(r, place=rigid_or_mirror if rigid else None)
    h = hit(c, ref)
    if h is None:
        return
    dg, q, o, d, t = h
    sc = ref.size * ref.scale
    u, v = float(dg.u), float(dg.v)
    if ref.kind == "triangle":
        W = [g.m_pt(ref.M, p) for p in ref.pts]
        uv = ref.uv
        a, b = (uv[0][0] - uv[2][0], uv[0][1] - uv[2][1]), (uv[1][0] - uv[2][0], uv[1][1] - uv[2][1])
        det = a[0] * b[1] - a[1] * b[0]
        dp1, dp2 = g.sub(W[0], W[2]), g.sub(W[1], W[2])
        du = [(b[1] * dp1[i] - a[1] * dp2[i]) / det for i in range(3)]
        dv = [(-b[0] * dp1[i] + a[0] * dp2[i]) / det for i in range(3)]
        tol = 1e-7 / abs(det)
        mag = sc
    else:
        du = fd(lambda x: ref.world(x, v), u)
        dv = fd(lambda x: ref.world(u, x), v)
        # dtheta/dv is singular nowhere on the surface away from the poles
        tol, mag = 1e-4, sc * max(1., ref.pm)
    c.close(dg.dpdu, du, "dpdu", "dp/du is not the derivative of the surface", tol=tol, rel=mag)
    c.close(dg.dpdv, dv, "dpdv", "dp/dv is not the derivative of the surface", tol=tol, rel=mag)
    n = g.lst(dg.nn)
    c.close(g.ln(n), 1., "unit", "normal is not unit length", tol=1e-6)
    # expected side: cross product of the true derivatives, flipped when ro and handedness disagree
    want = g.nrm(g.cross(du, dv))
    if ref.ro != ref.swaps:
        want = g.mul(want, -1.)
    c.close(n, want, "normal", "normal has the wrong direction or side", tol=2e-3 if ref.kind != "triangle" else 1e-4, rel=1.)
    c.event("ro=%d,swaps=%d" % (ref.ro, ref.swaps))
    if ref.kind == "triangle":
        c.close(g.lst(dg.dndu) + g.lst(dg.dndv), [0.] * 6, "dn-flat", "flat shape has curved normals", tol=1e-9)
    elif rigid:
        nw = lambda a, b: g.nrm(g.m_nrm(ref.M, ref.obj_normal(ref.point(a, b))))
        # object-space parametric orientation: dpdu x dpdv there
        c.close(dg.dndu, fd(lambda x: nw(x, v), u), "dndu", "dn/du is not the derivative of the unit normal", tol=2e-3, rel=10.)
        c.close(dg.dndv, fd(lambda x: nw(u, x), v), "dndv", "dn/dv is not the derivative of the unit normal", tol=2e-3, rel=10.)


@task(quick=500, thorough=10000, min_events=200)
def sizes(c):
    """the side of the normal when the placement shrinks or blows up a big or small shape, mirrored or not"""
    r = c.rng
    k = 10 ** r.uniform(-3, 3)
    R = r.uniform(.5, 2.) / k
    sg = [r.choice([-1., 1.]) for _ in range(3)]
    T, M, _ = g.rigid(r)
    T = T * g.Transform.scale(*[k * s for s in sg])
    ro = r.random() < .5
    c.note(k=k, R=R, sg=sg, ro=ro)
    c.sig(k, R, sg)
    swaps = sg[0] * sg[1] * sg[2] < 0
    c.check(bool(T.swaps_handedness()) == swaps, "swaps", "handedness of the placement misjudged")
    c.event("swaps=%d,small=%d" % (swaps, k < .1))
    kind = r.choice(["sphere", "cylinder", "disk", "triangle"])
    if kind == "triangle":
        pts = [[R * math.cos(a), R * math.sin(a), 0.] for a in (0., 2., 4.)]
        m = create_triangle_mesh(T, T.inverse(), ro, dict(indices=[0, 1, 2], P=[g.P(p) for p in pts]))
        sh = m.refine()[0]
        q = [0., 0., 0.]
        out = None
    else:
        th, z = r.uniform(0, 2 * g.PI), r.uniform(-.6, .6)
        if kind == "sphere":
            sh = Sphere(T, T.inverse(), ro, R, -R, R, 360.)
            n = [math.sqrt(1 - z * z) * math.cos(th), math.sqrt(1 - z * z) * math.sin(th), z]
            q = g.mul(n, R)
        elif kind == "cylinder":
            sh = Cylinder(T, T.inverse(), ro, R, -R, R, 360.)
            n = [math.cos(th), math.sin(th), 0.]
            q = [R * n[0], R * n[1], z * R]
        else:
            sh = Disk(T, T.inverse(), ro, 0., R, 0., 360.)
            n = [0., 0., 1.]
            q = [.5 * R * math.cos(th), .5 * R * math.sin(th), 0.]
        out = n
    w = g.lst(T(g.P(q)))
    nw = g.nrm(g.sub(g.lst(T(g.P(g.add(q, g.mul(out or [0., 0., 1.], R))))), w))
    o = g.add(w, g.mul(g.nrm(g.add(nw, g.mul(g.unit(r), .5))), .25))
    ret = sh.intersect(geo.Ray(g.P(o), g.V(g.sub(w, o)), 0., math.inf))
    if not c.check(bool(ret[0]), "size-hit", "aimed ray misses", kind=kind):
        return
    dg = ret[3]
    cr = g.nrm(g.cross(g.lst(dg.dpdu), g.lst(dg.dpdv)))
    c.close(dg.nn, g.mul(cr, -1.) if ro != swaps else cr, "size-side", "normal on the wrong side for reversal and handedness", tol=1e-4, kind=kind)
    if out:
        c.close(g.ln(g.cross(g.lst(dg.nn), nw)), 0., "size-normal", "normal is not perpendicular to the surface", tol=1e-4, kind=kind)


@task(quick=1200, thorough=40000, min_events=50)
def footprint(c):
    r = c.rng
    ref = S.rand_shape(r)
    h = hit(c, ref, raydiff=True)
    if h is None:
        return
    dg, q, o, d, t = h
    n = g.lst(dg.nn)
    p = g.lst(dg.p)
    if abs(g.dot(n, g.nrm(d))) < .05:
        return
    R = geo.RayDifferential(g.P(o), g.V(d))
    L = g.ln(d)
    offs = []
    for _ in range(2):
        offs.append(([x + r.gauss(0, .01) * ref.size * ref.scale for x in o],
                     [x + r.gauss(0, .01) * L for x in d]))
    c.note(offsets=offs)
    if r.random() < .12:
        dg.compute_differential(R)
        c.check(dg.dudx == 0 and dg.dvdx == 0 and dg.dudy == 0 and dg.dvdy == 0 and g.lst(dg.dpdx) == [0.] * 3 and g.lst(dg.dpdy) == [0.] * 3,
                "none", "no differentials, but a non-zero footprint")
        return
    R.has_differentials = True
    R.rxOrigin, R.rxDirection = g.P(offs[0][0]), g.V(offs[0][1])
    R.ryOrigin, R.ryDirection = g.P(offs[1][0]), g.V(offs[1][1])
    uv = dg.u, dg.v
    sp = g.snap(dg.p), g.snap(dg.nn), g.snap(dg.dpdu), g.snap(dg.dpdv)
    dg.compute_differential(R)
    c.check((g.snap(dg.p), g.snap(dg.nn), g.snap(dg.dpdu), g.snap(dg.dpdv)) == sp and (dg.u, dg.v) == uv, "hit-kept",
            "computing differentials changed the hit")
    for k, (dp, du, dv) in enumerate(((dg.dpdx, dg.dudx, dg.dvdx), (dg.dpdy, dg.dudy, dg.dvdy))):
        oo, dd = offs[k]
        den = g.dot(n, dd)
        tt = g.dot(n, g.sub(p, oo)) / den
        want = g.sub(g.add(oo, g.mul(dd, tt)), p)
        c.close(dp, want, "dpd%s" % "xy"[k], "screen-space derivative of position", tol=1e-6, rel=1 + g.ln(want) + g.ln(o) * 1e-3)
        back = g.add(g.mul(g.lst(dg.dpdu), float(du)), g.mul(g.lst(dg.dpdv), float(dv)))
        c.close(back, want, "duv-d%s" % "xy"[k], "screen-space derivative of (u,v) is not that of the position", tol=1e-5,
                rel=1 + g.ln(want) + g.ln(o) * 1e-3)
    # copies carry everything
    cp = dg.copy()
    for nme in ("p", "nn", "dpdu", "dpdv", "dndu", "dndv", "dpdx", "dpdy"):
        c.close(getattr(cp, nme), getattr(dg, nme), "copy", "copy differs in " + nme, tol=0)
    for nme in ("u", "v", "dudx", "dvdx", "dudy", "dvdy"):
        c.check(getattr(cp, nme) == getattr(dg, nme), "copy", "copy differs in " + nme)
    cp.p.x += 1.
    cp.nn.x += 1.
    cp.dpdu.x += 1.
    cp.dpdx.x += 1.
    c.close(dg.p, p, "copy-independent", "copy shares the point", tol=0)
    c.close(dg.nn, n, "copy-independent", "copy shares the normal", tol=0)


@task(quick=300, thorough=9000, min_events=50)
def shading(c):
    """default shading geometry is the hit's own geometry; instances keep the derivatives in world space"""
    r = c.rng
    ref = S.rand_shape(r)
    h = hit(c, ref)
    if h is None:
        return
    dg, q, o, d, t = h
    dgs = ref.shape.get_shading_geometry(ref.o2w, dg)
    for nme in ("p", "nn", "dpdu", "dpdv", "dndu", "dndv"):
        c.close(getattr(dgs, nme), getattr(dg, nme), "same", "default shading geometry differs in " + nme, tol=1e-12)
    T, M, desc = g.affine(r, mirror=False)
    inst = TransformedPrimitive(GeometricPrimitive(ref.shape, None), AnimatedTransform(T, 0., T, 1.))
    inv = T.inverse()
    R = geo.Ray(inv(g.P(o)), inv(g.V(d)))
    isect = Intersection()
    if not c.check(inst.intersect(R, isect), "instance-hit", "instance missed"):
        return
    Mi = g.m_inv_affine(M)
    x = isect.dg
    sc = ref.size * ref.scale * max(abs(Mi[i][j]) for i in range(3) for j in range(3))
    c.close(x.p, g.m_pt(Mi, g.lst(dg.p)), "instance-p", "instanced point", tol=1e-6, rel=1 + sc + g.ln(g.lst(x.p)))
    c.close(x.dpdu, g.m_vec(Mi, g.lst(dg.dpdu)), "instance-dpdu", "instanced dp/du", tol=1e-5, rel=1 + 10 * sc)
    c.close(x.dpdv, g.m_vec(Mi, g.lst(dg.dpdv)), "instance-dpdv", "instanced dp/dv", tol=1e-5, rel=1 + 10 * sc)
    c.close(x.nn, g.nrm(g.m_nrm(Mi, g.lst(dg.nn))), "instance-n", "instanced normal", tol=1e-5, rel=1.)
