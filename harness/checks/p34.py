"""P34 triangle meshes"""
import math
import numpy as np
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer.shape import create_triangle_mesh

TASKS, task = tasklist()
RULE = ("meshes of 1..10 triangles over 3..14 shared vertices with random index triples, optional uv/st, normals, tangents and alpha "
        "masks, flat or Point positions, degenerate texture coordinates kept or discarded, affine placements; malformed inputs of every documented kind; distinct by mesh")


def mesh(r, attrs=True):
    n = r.randrange(3, 15)
    pts = [[r.gauss(0, 2) for _ in range(3)] for _ in range(n)]
    nt = r.randrange(1, 10)
    idx = []
    while len(idx) < 3 * nt:
        t = r.sample(range(n), 3)
        e1, e2 = g.sub(pts[t[1]], pts[t[0]]), g.sub(pts[t[2]], pts[t[0]])
        if g.ln(g.cross(e1, e2)) > .05 * g.ln(e1) * g.ln(e2):
            idx += t
        elif r.random() < .2:
            pts = [[r.gauss(0, 2) for _ in range(3)] for _ in range(n)]
            idx = []
    out = dict(P=pts, indices=idx)
    if attrs:
        if r.random() < .6:
            out['uv'] = [r.random() for _ in range(2 * n)]
        if r.random() < .6:
            # one side for all normals of a triangle is not needed
            out['N'] = [g.gunit(r) for _ in range(n)]
        if r.random() < .5:
            out['S'] = [g.gunit(r) for _ in range(n)]
    return out


def params(r, m):
    q = {'indices': r.choice([list, tuple, lambda x: np.array(x)])(m['indices'])}
    if isinstance(q['indices'], tuple):
        q['indices'] = list(q['indices'])
    if r.random() < .5:
        q['P'] = [g.P(p) for p in m['P']]
    else:
        q['P'] = [x for p in m['P'] for x in p]
    if 'uv' in m:
        q[r.choice(['uv', 'st'])] = list(m['uv'])
    if 'N' in m:
        q['N'] = [g.N(n) for n in m['N']]
    if 'S' in m:
        q['S'] = [g.V(n) for n in m['S']]
    return q


def uvs(m, tri):
    if 'uv' not in m:
        return [(0., 0.), (1., 0.), (1., 1.)]
    return [(m['uv'][2 * i], m['uv'][2 * i + 1]) for i in tri]


def mix(b, xs):
    return [sum(b[k] * xs[k][i] for k in range(3)) for i in range(len(xs[0]))]


@task(quick=1600, thorough=40000, min_events=50)
def faithful(c):
    r = c.rng
    m = mesh(r)
    T, M, desc = g.affine(r)
    ro = r.random() < .3
    q = params(r, m)
    c.note(T=desc, ro=ro, **m)
    c.sig(desc, m['indices'], m['P'])
    M3, det = g.m_inv3(M)
    swaps = det < 0
    me = create_triangle_mesh(T, T.inverse(), ro, q)
    # the mesh must not depend on the caller's arrays any more
    q['indices'][0] = q['indices'][1]
    for k in ('uv', 'st'):
        if k in q:
            q[k][0] += 9.
    q['P'][0] = q['P'][-1]
    tris = me.refine()
    nt = len(m['indices']) // 3
    c.check(len(tris) == nt, "count", "refinement does not give one triangle per index triple", got=len(tris), want=nt)
    c.check(not me.can_intersect() and all(t.can_intersect() for t in tris), "can-intersect", "")
    W = [g.m_pt(M, p) for p in m['P']]
    for k, t in enumerate(tris):
        tri = m['indices'][3 * k:3 * k + 3]
        w = [W[i] for i in tri]
        for j in range(3):
            c.close(t[j], w[j], "vertex", "triangle does not refer to its indexed world-space vertices", tol=1e-9)
        c.close(t.area(), .5 * g.ln(g.cross(g.sub(w[1], w[0]), g.sub(w[2], w[0]))), "area", "area is not that of the vertices", tol=1e-8)
        c.check(t.ro == ro and t.mesh is me, "attributes", "triangle lost the mesh attributes")
    k = r.randrange(nt)
    tri = m['indices'][3 * k:3 * k + 3]
    w = [W[i] for i in tri]
    uv = uvs(m, tri)
    d1, d2 = (uv[1][0] - uv[0][0], uv[1][1] - uv[0][1]), (uv[2][0] - uv[0][0], uv[2][1] - uv[0][1])
    if abs(d1[0] * d2[1] - d1[1] * d2[0]) < .03:
        c.event("degenerate-uv")
        return
    while True:
        b = [r.random() for _ in range(3)]
        s = sum(b)
        b = [x / s for x in b]
        if min(b) > .02:
            break
    p = mix(b, w)
    n = g.nrm(g.cross(g.sub(w[1], w[0]), g.sub(w[2], w[0])))
    d = g.gunit(r)
    if abs(g.dot(d, n)) < .1:
        d = g.nrm(g.add(d, n))
    o = g.sub(p, g.mul(d, r.uniform(.5, 5)))
    R = geo.RayDifferential(g.P(o), g.V(d))
    hit, t, eps, dg = tris[k].intersect(R)
    if not c.check(hit, "hit", "ray at an interior point misses the triangle"):
        return
    c.close(dg.p, p, "point", "hit point", tol=1e-7, rel=10.)
    want = mix(b, uv)
    c.close([dg.u, dg.v], want, "uv", "texture coordinates are not interpolated from the indexed vertices", tol=1e-6)
    R.has_differentials = True
    R.rxOrigin, R.rxDirection = g.P(o), g.V(g.add(d, [.01, .02, .005]))
    R.ryOrigin, R.ryDirection = g.P(o), g.V(g.add(d, [-.01, .01, .02]))
    dg.compute_differential(R)
    dgs = tris[k].get_shading_geometry(T, dg)
    for nme in ("dudx", "dvdx", "dudy", "dvdy", "u", "v"):
        c.check(getattr(dgs, nme) == getattr(dg, nme), "shading-differentials", "shading geometry lost " + nme)
    c.close(dgs.dpdx, dg.dpdx, "shading-differentials", "dpdx", tol=0)
    c.close(dgs.dpdy, dg.dpdy, "shading-differentials", "dpdy", tol=0)
    if 'N' not in m and 'S' not in m:
        c.close(dgs.nn, dg.nn, "plain", "shading normal without vertex normals", tol=1e-12)
        c.close(dgs.dpdu, dg.dpdu, "plain", "shading tangent without vertex tangents", tol=1e-12)
        return
    ng = g.lst(dg.nn)
    if 'N' in m:
        raw = mix(b, [m['N'][i] for i in tri])
        if g.ln(raw) < .2:
            return
        ns = g.nrm(g.m_nrm(M, raw))
        if ro:
            ns = g.mul(ns, -1.)
        c.close(dgs.nn, ns, "normal", "shading normal is not the interpolated vertex normal", tol=1e-5, rel=1.)
        c.event("N")
    else:
        ns = ng
        # without vertex normals the shading normal stays the geometric one up to its side
        c.close(abs(g.dot(g.lst(dgs.nn), ng)), 1., "normal-kept", "tangents alone turned the normal", tol=1e-6)
    if 'S' in m:
        raw = mix(b, [m['S'][i] for i in tri])
        ss = g.nrm(g.m_vec(M, raw)) if g.ln(raw) > .1 else None
        c.event("S")
    else:
        ss = g.nrm(g.lst(dg.dpdu))
    if ss is not None:
        proj = g.sub(ss, g.mul(ns, g.dot(ss, ns)))
        if g.ln(proj) > .05:
            c.close(abs(g.dot(g.nrm(proj), g.nrm(g.lst(dgs.dpdu)))), 1., "tangent",
                    "shading tangent is not the interpolated tangent made perpendicular to the normal", tol=1e-5)
    c.close(g.dot(g.lst(dgs.dpdu), g.lst(dgs.dpdv)), 0., "frame", "shading frame is not orthogonal", tol=1e-6)
    c.close(g.dot(g.lst(dgs.dpdu), g.lst(dgs.nn)), 0., "frame", "shading frame is not orthogonal", tol=1e-6)
    if 'N' in m:
        # dn/du of the linear interpolant, solved from n(u,v)
        a, e = (uv[0][0] - uv[2][0], uv[0][1] - uv[2][1]), (uv[1][0] - uv[2][0], uv[1][1] - uv[2][1])
        dd = a[0] * e[1] - a[1] * e[0]
        n1 = g.sub(m['N'][tri[0]], m['N'][tri[2]])
        n2 = g.sub(m['N'][tri[1]], m['N'][tri[2]])
        du = [(e[1] * n1[i] - a[1] * n2[i]) / dd for i in range(3)]
        dv = [(-e[0] * n1[i] + a[0] * n2[i]) / dd for i in range(3)]
        c.close(dgs.dndu, g.m_nrm(M, du), "dndu", "dn/du is not that of the interpolated normal", tol=1e-5, rel=10 / abs(dd) * (1 + max(abs(x) for row in M3 for x in row)))
        c.close(dgs.dndv, g.m_nrm(M, dv), "dndv", "dn/dv is not that of the interpolated normal", tol=1e-5, rel=10 / abs(dd) * (1 + max(abs(x) for row in M3 for x in row)))


class Mask(object):
    """alpha texture: transparent where the sign says so; records what it was asked"""
    def __init__(self, f):
        self.f, self.asked = f, []

    def __call__(self, dg):
        self.asked.append((float(dg.u), float(dg.v)))
        return self.f(float(dg.u), float(dg.v))


@task(quick=500, thorough=12000, min_events=50)
def alpha(c):
    r = c.rng
    m = mesh(r)
    m.pop('N', None)
    m.pop('S', None)
    T, M, desc = g.affine(r)
    q = params(r, m)
    cut = r.uniform(.2, .8)
    mask = Mask(lambda u, v: 0. if u < cut else r.choice([1., .5]))
    q['alphatex'] = 'a'
    tris = create_triangle_mesh(T, T.inverse(), False, q, {'a': mask, 'b': None}).refine()
    k = r.randrange(len(tris))
    tri = m['indices'][3 * k:3 * k + 3]
    w = [g.m_pt(M, m['P'][i]) for i in tri]
    b = [r.uniform(.05, 1) for _ in range(3)]
    s = sum(b)
    b = [x / s for x in b]
    u, v = mix(b, uvs(m, tri))
    if abs(u - cut) < 1e-4:
        return
    n = g.nrm(g.cross(g.sub(w[1], w[0]), g.sub(w[2], w[0])))
    d = g.mul(n, r.choice([-1., 1.]))
    o = g.sub(mix(b, w), g.mul(d, r.uniform(.5, 5)))
    c.note(T=desc, cut=cut, u=u, v=v)
    c.sig(desc, m['indices'], u, v)
    hit = tris[k].intersect(geo.Ray(g.P(o), g.V(d)))[0]
    occ = tris[k].intersect_p(geo.Ray(g.P(o), g.V(d)))
    c.check(bool(hit) == (u >= cut) and bool(occ) == (u >= cut), "mask", "alpha mask not honoured", hit=hit, occ=occ)
    for a in mask.asked:
        c.close(a, (u, v), "asked", "mask evaluated at other coordinates", tol=1e-5)


@task(quick=500, thorough=12000, min_events=50)
def degenerate_uv(c):
    """texture coordinates that do not span a triangle: the geometry is what it
    was, and a mesh asked to discard them does so exactly when it has any"""
    r = c.rng
    m = mesh(r)
    n = len(m['P'])
    nt = len(m['indices']) // 3
    m['N'] = [g.gunit(r) for _ in range(n)]
    m['uv'] = [r.random() for _ in range(2 * n)]
    k = r.randrange(nt)
    tri = m['indices'][3 * k:3 * k + 3]
    kind = r.choice(["two", "all", "line", "none", "u-only"])
    i, j = r.sample(tri, 2)
    if kind == "two":
        m['uv'][2 * j:2 * j + 2] = m['uv'][2 * i:2 * i + 2]
    elif kind == "all":
        for a in tri:
            m['uv'][2 * a:2 * a + 2] = [.25, .75]
    elif kind == "line":
        for x, a in zip(r.sample([0., .25, .5, 1.], 3), tri):
            m['uv'][2 * a:2 * a + 2] = [x, .5]
    elif kind == "u-only":
        m['uv'][2 * j] = m['uv'][2 * i]
    T, M, desc = g.affine(r)
    ro = r.random() < .3
    discard = r.random() < .5
    q = params(r, m)
    if discard or r.random() < .3:
        q['discard'] = discard
    c.note(T=desc, ro=ro, kind=kind, k=k, discard=discard, **m)
    c.sig(desc, kind, m['P'])
    me = create_triangle_mesh(T, T.inverse(), ro, q)
    pair = lambda a: tuple(m['uv'][2 * a:2 * a + 2])
    drop = False
    for t in range(nt):
        a = m['indices'][3 * t:3 * t + 3]
        if len({pair(x) for x in a}) < 3 and .5 * g.ln(g.cross(g.sub(m['P'][a[1]], m['P'][a[0]]), g.sub(m['P'][a[2]], m['P'][a[0]]))) > 1e-4:
            drop = True
    drop = drop and discard
    c.event("discarded" if drop else "kept." + kind)
    tri_ = me.refine()[k]
    uv = [(0., 0.), (1., 0.), (1., 1.)] if drop else [pair(a) for a in tri]
    c.close(tri_.get_uvs(), uv, "discard", "texture coordinates are not those asked for", tol=0)
    w = [g.m_pt(M, m['P'][i]) for i in tri]
    b = [r.uniform(.05, 1) for _ in range(3)]
    b = [x / sum(b) for x in b]
    p = mix(b, w)
    fn = g.nrm(g.cross(g.sub(w[1], w[0]), g.sub(w[2], w[0])))
    d = g.gunit(r)
    if abs(g.dot(d, fn)) < .1:
        d = g.nrm(g.add(d, fn))
    o = g.sub(p, g.mul(d, r.uniform(.5, 5)))
    hit, t, eps, dg = tri_.intersect(geo.Ray(g.P(o), g.V(d)))
    if not c.check(hit and tri_.intersect_p(geo.Ray(g.P(o), g.V(d))), "hit", "ray at an interior point misses the triangle"):
        return
    c.close(dg.p, p, "point", "hit point", tol=1e-7, rel=10.)
    c.close([dg.u, dg.v], mix(b, uv), "uv", "texture coordinates are not interpolated from the indexed vertices", tol=1e-6)
    c.close(abs(g.dot(g.lst(dg.nn), fn)), 1., "normal", "hit normal is not the face normal", tol=1e-6)
    x, y = g.lst(dg.dpdu), g.lst(dg.dpdv)
    c.check(all(math.isfinite(v) for v in x + y) and g.ln(g.cross(x, y)) > 0, "tangents", "tangents do not span the face", got=[x, y])
    for v in (x, y):
        c.close(g.dot(g.nrm(v), fn), 0., "tangents", "tangent leaves the face", tol=1e-6)
    area2 = abs((uv[0][0] - uv[2][0]) * (uv[1][1] - uv[2][1]) - (uv[1][0] - uv[2][0]) * (uv[0][1] - uv[2][1]))
    if area2 == 0. or area2 > 1e-6:
        _, sn = tri_.sample(r.random(), r.random())
        c.close(sn, dg.nn, "sample-side", "sampled normal is not the hit normal", tol=1e-6)
    dgs = tri_.get_shading_geometry(T, dg)
    c.check(all(math.isfinite(v) for v in g.lst(dgs.nn) + g.lst(dgs.dpdu) + g.lst(dgs.dpdv)), "finite", "shading geometry is not finite")
    c.close(g.ln(g.lst(dgs.nn)), 1., "unit", "shading normal is not a unit vector", tol=1e-9)
    if area2 > .03 or area2 == 0.:
        # without usable texture coordinates the vertices count alike
        bb = b if area2 else [1. / 3] * 3
        raw = mix(bb, [m['N'][i] for i in tri])
        if g.ln(raw) > .2:
            ns = g.mul(g.nrm(g.m_nrm(M, raw)), -1. if ro else 1.)
            c.close(dgs.nn, ns, "shading-normal", "shading normal is not the interpolated vertex normal", tol=1e-5, rel=1.)


def raises(f):
    try:
        x = f()
    except RuntimeError:
        return "RuntimeError"
    return x


@task(quick=400, thorough=8000, min_events=50)
def malformed(c):
    r = c.rng
    m = mesh(r)
    T = g.Transform()
    q = params(r, m)
    n = len(m['P'])
    kind = r.randrange(9)
    c.note(kind=kind, n=n, idx=m['indices'])
    c.sig(kind, m['P'])
    c.event("kind%d" % kind)
    mk = lambda txt=None: raises(lambda: create_triangle_mesh(T, T, False, q, txt))
    idx = list(q['indices'])
    if kind == 0:
        q.pop(r.choice(['indices', 'P']))
        c.check(mk() is None, "missing", "missing indices or positions did not give None")
    elif kind == 1:
        q['indices'] = idx[:-r.randrange(1, 3)]
        c.check(mk() == "RuntimeError", "not-triples", "index count not a multiple of three accepted")
    elif kind == 2:
        q['P'] = [x for p in m['P'] for x in p][:-r.randrange(1, 3)]
        c.check(mk() == "RuntimeError", "flat-p", "position count not a multiple of three accepted")
    elif kind == 3:
        idx[r.randrange(len(idx))] = n + r.randrange(0, 5)
        q['indices'] = idx
        c.check(mk() == "RuntimeError", "out-of-range", "index past the last vertex accepted")
    elif kind == 4:
        idx[r.randrange(len(idx))] = -1 - r.randrange(0, 3)
        q['indices'] = idx
        c.check(mk() == "RuntimeError", "negative", "negative index accepted")
    elif kind == 5:
        q.pop('st', None)
        q['uv'] = [r.random() for _ in range(2 * n - r.randrange(1, 2 * n))]
        c.check(mk() == "RuntimeError", "few-uv", "too few texture coordinates accepted")
    elif kind == 6:
        k = r.choice(['N', 'S'])
        q[k] = [g.N(g.gunit(r)) for _ in range(n + r.choice([-1, 1, 2]))]
        c.check(mk() == "RuntimeError", "attr-count", "normal/tangent count mismatch accepted")
    elif kind == 7:
        q['alphatex'] = 'nope'
        c.check(mk({'a': None}) == "RuntimeError", "alpha-missing", "unknown alpha texture accepted")
    else:
        # documented as tolerated: surplus texture coordinates are ignored
        uv = [r.random() for _ in range(2 * n)]
        q.pop('st', None)
        q['uv'] = uv + [9.] * r.randrange(1, 5)
        me = mk()
        if c.check(me is not None and me != "RuntimeError", "extra-uv", "surplus texture coordinates rejected"):
            t = me.refine()[0]
            m['uv'] = uv
            c.close(t.get_uvs(), uvs(m, m['indices'][:3]), "extra-uv-used", "surplus texture coordinates shifted the mapping", tol=0)
