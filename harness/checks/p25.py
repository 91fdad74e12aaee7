"""P25 sampling of shapes"""
import math
from core import tasklist
import gen as g
import shapes as S
import pytracer.geometry as geo

TASKS, task = tasklist()
RULE = ("partial and full spheres, cylinders, disks and annuli under rigid and mirrored placements, triangles under any affine one; "
        "reference points near, far and inside; distinct by shape and random numbers")
ASSUMPTIONS = ["areas and densities of quadrics are those of their object space; solid-angle densities are judged under length-preserving placements"]


def place(r):
    T, M, desc = g.rigid(r)
    if r.random() < .35:
        s = [1., 1., 1.]
        s[r.randrange(3)] = -1.
        return T * g.Transform.scale(*s), g.mm(M, g.m_scale(s)), desc + "*mirror(%s)" % s
    return T, M, desc


def pick(r, kind=None):
    kind = kind or r.choice(S.KINDS)
    return S.rand_shape(r, kind, place=g.affine if kind == "triangle" or r.random() < .3 else place)


def on_surface(ref, w):
    """(error, object point) of a world point"""
    q = g.m_pt(ref.inv, w)
    p = ref.prm
    if ref.kind == "triangle":
        e1, e2, x = g.sub(ref.pts[1], ref.pts[0]), g.sub(ref.pts[2], ref.pts[0]), g.sub(q, ref.pts[0])
        n = g.nrm(g.cross(e1, e2))
        err = abs(g.dot(n, x))
        ok, near = ref.covers(q, 1e-5 * ref.size)
        return err if ok or near else 1e9, q
    if ref.kind == "sphere":
        err = abs(g.ln(q) - p['r'])
    elif ref.kind == "cylinder":
        err = abs(math.hypot(q[0], q[1]) - p['r'])
    else:
        err = abs(q[2] - p['h'])
    ok, near = ref.covers(q, 1e-5 * ref.size)
    return err if ok or near else 1e9, q


def cell(ref, q, n):
    """equal-area cell index of an object-space surface point, n x n"""
    p = ref.prm
    if ref.kind == "triangle":
        e1, e2, w = g.sub(ref.pts[1], ref.pts[0]), g.sub(ref.pts[2], ref.pts[0]), g.sub(q, ref.pts[0])
        A, B, C = g.dot(e1, e1), g.dot(e1, e2), g.dot(e2, e2)
        det = A * C - B * B
        b1 = (C * g.dot(w, e1) - B * g.dot(w, e2)) / det
        b2 = (A * g.dot(w, e2) - B * g.dot(w, e1)) / det
        s = b1 + b2                      # area below s is s^2
        a, b = s * s, b2 / s if s > 0 else 0.
    else:
        phi = math.atan2(q[1], q[0]) % (2 * math.pi)
        a = phi / ref.pm
        if ref.kind == "disk":
            b = (q[0] ** 2 + q[1] ** 2 - p['ri'] ** 2) / (p['r'] ** 2 - p['ri'] ** 2)
        else:
            b = (q[2] - ref.zlo) / (ref.zhi - ref.zlo)
    i = min(n - 1, max(0, int(a * n)))
    j = min(n - 1, max(0, int(b * n)))
    return i * n + j


@task(quick=300, thorough=8000, min_events=50)
def points(c):
    r = c.rng
    ref = pick(r)
    c.note(**ref.info)
    c.sig(ref.info)
    c.close(ref.shape.area(), ref.area(), "area", "area is not the true surface area", tol=1e-7)
    c.close(ref.shape.pdf(g.P([9., 9., 9.])), 1. / ref.area(), "pdf", "area density is not one over the area", tol=1e-7)
    us = [(r.random(), r.random()) for _ in range(8)] + [(0., 0.), (0., .999999), (.999999, 0.), (.5, .5), (.999999, .999999)]
    for u1, u2 in us:
        p, n = ref.shape.sample(u1, u2)
        p, n = g.lst(p), g.lst(n)
        err, q = on_surface(ref, p)
        c.check(err < 1e-6 * ref.size, "on-surface", "sampled point is not on the surface", p=p, obj=q, u=(u1, u2), err=err)
        c.close(g.ln(n), 1., "unit", "sampled normal is not unit length", tol=1e-6)
        want = ref.out_normal(q)
        if ref.kind == "triangle":
            # triangles store world vertices; the outward side follows the placement
            want = g.nrm(g.m_nrm(ref.M, ref.obj_normal(q)))
            if ref.ro:
                want = g.mul(want, -1.)
        if not (ref.kind == "sphere" and g.ln(q) < 1e-9):
            c.close(n, want, "normal", "sampled normal is not the outward normal", tol=1e-5, rel=1.)
    for _ in range(4):
        u = [r.uniform(.01, .99), r.uniform(.01, .99)]
        inv = g.ident() if ref.kind == "triangle" else ref.inv
        d = g.spread(lambda x, y: g.m_pt(inv, g.lst(ref.shape.sample(x, y)[0])), u)
        if d is not None:
            c.check(d * ref.area() <= 1.005, "crowding", "samples crowd on part of the surface", u=u, local=d, area=ref.area())
            c.event("local-density")
    c.event(ref.kind)


@task(quick=300, thorough=8000, min_events=150)
def sides(c):
    """the normal of a sampled point is the one a ray finds there, whatever the texture coordinates"""
    r = c.rng
    ref = pick(r)
    if ref.kind == "triangle":
        k = r.random()
        prm = dict(ref.prm)
        prm['uv'] = [(.3, .4)] * 3 if k < .2 else [(x, 2 * x) for x in (.1, .5, .2)] if k < .3 else [(r.random(), r.random()) for _ in range(3)]
        ref = S.Ref("triangle", ref.o2w, ref.M, ref.info['T'], ref.ro, prm)
    c.note(**ref.info)
    c.sig(ref.info)
    for _ in range(3):
        p, n = [g.lst(x) for x in ref.shape.sample(r.uniform(.05, .95), r.uniform(.05, .95))]
        n = g.nrm(n)
        size = ref.size * ref.scale
        o = g.add(p, g.mul(n, r.choice([-1., 1.]) * 1e-2 * size))
        got = ref.shape.intersect(geo.Ray(g.P(o), g.V(g.sub(p, o)), 0., 2.))
        if not got[0] or abs(got[1] - 1.) > 1e-3:
            continue
        c.check(g.dot(g.lst(got[3].nn), n) > .9, "side", "a ray finds another normal than sampling gives", sampled=n, found=g.lst(got[3].nn))
        c.event(ref.kind)


@task(quick=64, thorough=1500, min_events=20)
def uniform(c):
    r = c.rng
    ref = pick(r)
    c.note(**ref.info)
    c.sig(ref.info)
    n, N = 4, 1600
    cnt = [0.] * (n * n)
    for _ in range(N):
        p, _n = ref.shape.sample(r.random(), r.random())
        cnt[cell(ref, g.m_pt(ref.inv, g.lst(p)), n)] += 1
    bad, stat, k = g.chi2_bad(cnt, [N / float(n * n)] * (n * n))
    c.check(not bad, "uniform", "samples are not uniform over the surface", counts=cnt, stat=stat)
    c.event(ref.kind)


def outside(r, ref, far=1.):
    ctr = g.m_pt(ref.M, [0., 0., 0.]) if ref.kind != "triangle" else ref.world(1 / 3., 1 / 3.)
    sz = ref.size * ref.scale
    return g.add(ctr, g.mul(g.gunit(r), far * sz * r.uniform(1.6, 6)))


def rigid_pick(r):
    kind = r.choice(S.KINDS)
    return S.rand_shape(r, kind, place=g.affine if kind == "triangle" else place)


@task(quick=300, thorough=8000, min_events=50)
def density(c):
    """density query against the density of what was sampled"""
    r = c.rng
    ref = rigid_pick(r)
    if r.random() < .15 and ref.kind == "sphere":
        pnt = g.m_pt(ref.M, g.mul(g.gunit(r), ref.prm['r'] * r.uniform(0, .8)))
        c.event("inside")
    elif r.random() < .25:
        pnt = outside(r, ref, 10. ** r.uniform(.5, 3.3))
        c.event("far")
    else:
        pnt = outside(r, ref)
    c.note(pnt=pnt, **ref.info)
    c.sig(ref.info, pnt)
    full = ref.kind == "sphere" and ref.pm > 6.28318 and ref.zhi - ref.zlo > 1.9999999 * ref.prm['r']
    ctr = g.m_pt(ref.M, [0., 0., 0.])
    dist = g.ln(g.sub(pnt, ctr))
    for k in range(6):
        u = [r.random(), r.random()]
        p, n = ref.shape.sample_p(g.P(pnt), *u)
        p, n = g.lst(p), g.lst(n)
        err, q = on_surface(ref, p)
        c.check(err < 1e-4 * ref.size, "on-surface", "point sampled for a reference point is not on the surface", p=p, obj=q, err=err)
        c.close(n, ref.out_normal(q), "normal", "its normal is not the outward normal", tol=1e-3, rel=1.)
        w = g.sub(p, pnt)
        L = g.ln(w)
        w = g.mul(w, 1. / L)
        hs, close = ref.hits(pnt, w, 1e-5, math.inf)
        if not hs or close:
            continue
        pdf = float(ref.shape.pdf_p(g.P(pnt), g.V(w)))
        if full and dist > ref.prm['r'] * 1.001:
            ct = math.sqrt(max(0., 1. - (ref.prm['r'] / dist) ** 2))
            want = 1. / (2 * math.pi * (1. - ct))
            c.check(abs(hs[0] - L) < 1e-3 * (1 + L), "visible", "a far-side point was sampled from outside a full sphere", t=hs, L=L)
        else:
            x = [pnt[i] + w[i] * hs[0] for i in range(3)]
            nn = ref.out_normal(g.m_pt(ref.inv, x))
            cos = abs(g.dot(nn, w))
            if cos < 1e-3:
                continue
            want = hs[0] ** 2 / (cos * ref.area())
        c.close(pdf, want, "pdf", "solid-angle density is not that of the sampled surface", tol=1e-4, rel=1e-9 + abs(want))
        c.event(ref.kind + ".dir")
        if k < 3 and abs(hs[0] - L) < 1e-6 * L:
            d = g.spread(lambda x, y: g.nrm(g.sub(g.lst(ref.shape.sample_p(g.P(pnt), x, y)[0]), pnt)), u)
            if d is not None:
                c.check(d <= pdf * 1.005, "crowding", "directions crowd more densely than the density query says", u=u, local=d, pdf=pdf)
                c.event("local-density")
    # a direction away from the shape has zero density
    away = g.nrm(g.sub(pnt, ctr if ref.kind != "triangle" else ref.world(1 / 3., 1 / 3.)))
    hs, close = ref.hits(pnt, away, 1e-5, math.inf)
    if not full and not hs and not close:
        c.check(float(ref.shape.pdf_p(g.P(pnt), g.V(away))) == 0., "pdf-miss", "non-zero density for a direction that misses")


@task(quick=40, thorough=900, min_events=20)
def solid_angle(c):
    """averaging visible/density over samples gives the solid angle the shape subtends"""
    r = c.rng
    ref = rigid_pick(r)
    pnt = outside(r, ref)
    c.note(pnt=pnt, **ref.info)
    c.sig(ref.info, pnt)
    N = 700
    ctr = g.m_pt(ref.M, [0., 0., 0.]) if ref.kind != "triangle" else ref.world(1 / 3., 1 / 3.)
    ax = g.sub(ctr, pnt)
    dist = g.ln(ax)
    sz = 1.01 * ref.size
    if ref.kind == "triangle":
        sz = 1.01 * max(g.ln(g.sub(g.m_pt(ref.M, q), ctr)) for q in ref.pts)
    elif ref.kind == "cylinder":
        sz = 1.01 * math.hypot(ref.prm['r'], max(abs(ref.zlo), abs(ref.zhi)))
    elif ref.kind == "disk":
        sz = 1.01 * math.hypot(ref.prm['r'], ref.prm['h'])
    ct = math.sqrt(1. - (sz / dist) ** 2) if dist > sz * 1.0001 else -1.
    a, b, n = g.onb(g.nrm(ax))
    xs, ys = [], []
    for _ in range(N):
        p, _n = ref.shape.sample_p(g.P(pnt), r.random(), r.random())
        w = g.sub(g.lst(p), pnt)
        L = g.ln(w)
        w = g.mul(w, 1. / L)
        hs, close = ref.hits(pnt, w, 1e-6, math.inf)
        vis = hs and hs[0] > L - 1e-3 * (1 + L)
        xs.append(1. / float(ref.shape.pdf_p(g.P(pnt), g.V(w))) if vis and not close else 0.)
    om = 2 * math.pi * (1 - ct)
    for _ in range(N * 6):
        z = 1 - r.random() * (1 - ct)
        s, ph = math.sqrt(max(0., 1 - z * z)), 2 * math.pi * r.random()
        w = [s * math.cos(ph) * a[i] + s * math.sin(ph) * b[i] + z * n[i] for i in range(3)]
        ys.append(om if ref.hits(pnt, w, 1e-6, math.inf)[0] else 0.)
    mx, my = sum(xs) / len(xs), sum(ys) / len(ys)
    se = math.sqrt(sum((x - mx) ** 2 for x in xs) / len(xs) ** 2 + sum((y - my) ** 2 for y in ys) / len(ys) ** 2)
    # ASSUMPTION margin: 1% systematic for excluded edge cases
    c.check(abs(mx - my) < 7 * se + .015 * my + 1e-6, "solid-angle", "sampled and true solid angle differ", sampled=mx, true=my, se=se)
    c.event(ref.kind)
