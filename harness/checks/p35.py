"""P35 Loop subdivision"""
import math
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer.shape import create_loop_subdiv, LoopSubdiv
from pytracer.aggregate import GeometricPrimitive

TASKS, task = tasklist()
RULE = ("closed meshes (tetra-, octa-, icosahedron, cube, torus) and open ones (single triangle, strips, grids, fans, spheres with a hole), "
        "randomly edge-flipped and split for valences 3..12, jittered vertices, levels 0..3, affine placements; distinct by mesh and level")


# ---- control meshes: (vertices, faces)
def tetra():
    return [[1., 1., 1.], [-1., -1., 1.], [-1., 1., -1.], [1., -1., -1.]], [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]


def octa():
    v = [[1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.], [0., 0., 1.], [0., 0., -1.]]
    return v, [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]


def icosa():
    t = (1 + math.sqrt(5)) / 2
    v = [[-1, t, 0], [1, t, 0], [-1, -t, 0], [1, -t, 0], [0, -1, t], [0, 1, t], [0, -1, -t], [0, 1, -t], [t, 0, -1], [t, 0, 1], [-t, 0, -1], [-t, 0, 1]]
    f = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4), (11, 10, 2), (10, 7, 6), (7, 1, 8),
         (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8), (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10), (8, 6, 7), (9, 8, 1)]
    return [[float(x) for x in p] for p in v], f


def cube():
    v = [[float(x), float(y), float(z)] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
    quads = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    f = []
    for q in quads:
        f += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    return v, f


def torus(r):
    n, m = r.randrange(3, 6), r.randrange(3, 5)
    v, f = [], []
    for i in range(n):
        for j in range(m):
            a, b = 2 * math.pi * i / n, 2 * math.pi * j / m
            v.append([(2 + math.cos(b)) * math.cos(a), (2 + math.cos(b)) * math.sin(a), math.sin(b)])
    for i in range(n):
        for j in range(m):
            a, b, c, d = i * m + j, ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m
            f += [(a, b, c), (a, c, d)]
    return v, f


def grid(r):
    n, m = r.randrange(1, 4), r.randrange(1, 4)
    v = [[float(i), float(j), 0.] for j in range(m + 1) for i in range(n + 1)]
    f = []
    for j in range(m):
        for i in range(n):
            a = j * (n + 1) + i
            b, c, d = a + 1, a + n + 2, a + n + 1
            f += [(a, b, c), (a, c, d)] if r.random() < .5 else [(a, b, d), (b, c, d)]
    return v, f


def fan(r):
    n = r.randrange(3, 10)
    v = [[0., 0., 0.]] + [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), 0.] for i in range(n)]
    full = r.random() < .5
    f = [(0, i + 1, (i + 1) % n + 1) for i in range(n if full else n - 1)]
    return v, f


def edges(f):
    e = {}
    for k, t in enumerate(f):
        for i in range(3):
            e[(t[i], t[(i + 1) % 3])] = k
    return e


def flips(r, f, n):
    """random edge flips that keep the mesh manifold"""
    f = [tuple(t) for t in f]
    for _ in range(n):
        e = edges(f)
        und = set(tuple(sorted(x)) for x in e)
        a, b = r.choice(sorted(e))
        if (b, a) not in e:
            continue
        k, l = e[(a, b)], e[(b, a)]
        x = [v for v in f[k] if v not in (a, b)][0]
        y = [v for v in f[l] if v not in (a, b)][0]
        if x == y or tuple(sorted((x, y))) in und:
            continue
        val = lambda v: sum(v in t for t in f)
        if val(a) <= 3 or val(b) <= 3:
            continue
        f[k], f[l] = (a, y, x), (b, x, y)
    return f


def splits(r, v, f, n):
    for _ in range(n):
        k = r.randrange(len(f))
        a, b, c_ = f[k]
        v.append([sum(v[i][j] for i in (a, b, c_)) / 3. for j in range(3)])
        x = len(v) - 1
        f[k:k + 1] = [(a, b, x), (b, c_, x), (c_, a, x)]
    return v, f


def control(r, flat=False):
    k = r.choice(["tetra", "octa", "icosa", "cube", "torus", "grid", "fan", "tri", "hole"])
    if flat:
        k = r.choice(["grid", "fan", "tri"])
    if k == "tri":
        v, f = [[0., 0., 0.], [1., 0., 0.], [.2, 1., 0.]], [(0, 1, 2)]
    elif k == "hole":
        v, f = r.choice([octa, icosa, cube])()
        f = list(f)
        f.pop(r.randrange(len(f)))
        f = [tuple(t) for t in f]
    else:
        fn = dict(tetra=tetra, octa=octa, icosa=icosa, cube=cube, torus=lambda: torus(r), grid=lambda: grid(r), fan=lambda: fan(r))[k]
        v, f = fn()
    f = list(f)
    changed = False
    if k != "hole" and r.random() < .5:
        v, f = splits(r, v, f, r.randrange(1, 4))
        changed = True
    if r.random() < .5:
        f = flips(r, f, r.randrange(1, 6))
        changed = True
    if changed and len(set(tuple(sorted(e)) for e in edges(f))) * 2 != len(f) * 3:
        k += "*"       # open and irregular: the limit surface may fold at the boundary
    # random first vertex and face order
    f = [tuple(t[(i + s) % 3] for i in range(3)) for t in f for s in [r.randrange(3)]]
    r.shuffle(f)
    j = r.uniform(0, .12)
    v = [[x + (0. if flat and i == 2 else r.gauss(0, j)) for i, x in enumerate(p)] for p in v]
    if flat and r.random() < .3:
        pass
    return k, v, f


# ---- reference Loop subdivision
def rings(v, f):
    """vertex -> (ring of neighbours counter-clockwise, boundary?)"""
    nxt = {}
    for t in f:
        for i in range(3):
            # around t[i]: t[i+1] is followed by t[i+2]
            nxt.setdefault(t[i], {})[t[(i + 1) % 3]] = t[(i + 2) % 3]
    out = {}
    for a, n in nxt.items():
        starts = [x for x in n if x not in n.values()]
        x = starts[0] if starts else next(iter(n))
        ring = [x]
        while x in n and n[x] != ring[0]:
            x = n[x]
            ring.append(x)
        out[a] = (ring, bool(starts))
    return out


def beta(n):
    return 3. / 16 if n == 3 else 3. / (8. * n)


def wsum(ps, ws):
    return [sum(w * p[i] for p, w in zip(ps, ws)) for i in range(3)]


def subdivide(v, f):
    R = rings(v, f)
    nv = []
    for a in range(len(v)):
        ring, bd = R[a]
        n = len(ring)
        if bd:
            nv.append(wsum([v[a], v[ring[0]], v[ring[-1]]], [.75, .125, .125]))
        else:
            b = 1. / 16 if n == 6 else beta(n)
            nv.append(wsum([v[a]] + [v[x] for x in ring], [1 - n * b] + [b] * n))
    e = edges(f)
    ev = {}
    for (a, b), k in e.items():
        if (b, a) in ev:
            ev[(a, b)] = ev[(b, a)]
            continue
        if (b, a) not in e:
            p = wsum([v[a], v[b]], [.5, .5])
        else:
            x = [q for q in f[k] if q not in (a, b)][0]
            y = [q for q in f[e[(b, a)]] if q not in (a, b)][0]
            p = wsum([v[a], v[b], v[x], v[y]], [.375, .375, .125, .125])
        nv.append(p)
        ev[(a, b)] = len(nv) - 1
    nf = []
    for a, b, c_ in f:
        x, y, z = ev[(a, b)], ev[(b, c_)], ev[(c_, a)]
        nf += [(a, x, z), (x, b, y), (z, y, c_), (x, y, z)]
    return nv, nf


def limit(v, f):
    R = rings(v, f)
    out = []
    for a in range(len(v)):
        ring, bd = R[a]
        n = len(ring)
        if bd:
            out.append(wsum([v[a], v[ring[0]], v[ring[-1]]], [.6, .2, .2]))
        else:
            w = 1. / (n + 3. / (8. * beta(n)))
            out.append(wsum([v[a]] + [v[x] for x in ring], [1 - n * w] + [w] * n))
    return out


def tangents(v, f):
    """limit normal directions from Loop's tangent masks applied to positions v: vertex -> vector or None"""
    out = []
    for a, (ring, bd) in sorted(rings(v, f).items()):
        q = [v[x] for x in ring]
        n = len(q)
        if not bd:
            k = 2 * math.pi / n
            s = wsum(q, [math.cos(k * i) for i in range(n)])
            t = wsum(q, [math.sin(k * i) for i in range(n)])
            d = g.cross(s, t)
        else:
            s = g.sub(q[-1], q[0])
            if n == 2:
                t = wsum([q[0], q[1], v[a]], [1, 1, -2])
            elif n == 3:
                t = g.sub(q[1], v[a])
            elif n == 4:
                t = wsum(q + [v[a]], [-1, 2, 2, -1, -2])
            else:
                th = math.pi / (n - 1)
                w = [(2 - 2 * math.cos(th)) * math.sin(i * th) for i in range(n)]
                w[0] = w[-1] = -math.sin(th)
                t = wsum(q, w)
            d = g.cross(t, s)
        out.append(d if g.ln(d) > 1e-3 * g.ln(s) * g.ln(t) and g.ln(d) > 1e-9 else None)
    return out


def run_loop(r, v, f, lv, T, ro=False):
    return create_loop_subdiv(T, T.inverse(), ro, {'nlevels': lv, 'indices': [i for t in f for i in t], 'P': [x for p in v for x in p]})


def euler(f):
    vs = set(i for t in f for i in t)
    es = set(tuple(sorted((t[i], t[(i + 1) % 3]))) for t in f for i in range(3))
    return len(vs) - len(es) + len(f)


def boundary_loops(f):
    e = edges(f)
    nx = dict((a, b) for a, b in e if (b, a) not in e)
    n = 0
    while nx:
        a = next(iter(nx))
        n += 1
        while a in nx:
            a = nx.pop(a)
    return n


@task(quick=260, thorough=5000, min_events=50)
def refine(c):
    r = c.rng
    kind, v, f = control(r)
    lv = r.choice([0, 1, 1, 2, 2, 3] if len(f) <= 12 else [0, 1, 1, 2])
    T, M, desc = g.affine(r)
    ro = r.random() < .3
    c.note(mesh=kind, nv=len(v), nf=len(f), faces=f if len(f) < 30 else None, level=lv, T=desc)
    c.sig(kind, f, lv, v)
    shp = run_loop(r, v, f, lv, T, ro)
    c.check(not shp.can_intersect(), "not-directly", "subdivision surface claims to be intersectable")
    b = shp.world_bound()
    out = shp.refine()
    c.require(len(out) == 1, "one-mesh", "refinement is not a single mesh", got=len(out))
    me = out[0]
    rv, rf = v, f
    for _ in range(lv):
        rv, rf = subdivide(rv, rf)
    near = rv
    rv = limit(rv, rf)
    c.event("%s.level%d" % ("closed" if boundary_loops(f) == 0 else "open", lv))
    vi = [int(x) for x in me.vertexIndex]
    gf = [tuple(vi[i:i + 3]) for i in range(0, len(vi), 3)]
    gp = [g.lst(p) for p in me.p]
    c.check(len(gf) == len(f) * 4 ** lv, "faces", "each level must split every triangle into four", got=len(gf))
    c.check(len(gp) == len(rv), "vertices", "vertex count", got=len(gp), want=len(rv))
    ge = [(t[i], t[(i + 1) % 3]) for t in gf for i in range(3)]
    c.check(len(set(ge)) == len(ge), "oriented", "a directed edge is used twice: orientation or manifoldness lost")
    c.check(euler(gf) == euler(f), "euler", "Euler characteristic changed", got=euler(gf), want=euler(f))
    c.check(boundary_loops(gf) == boundary_loops(f), "boundary", "boundary topology changed", got=boundary_loops(gf), want=boundary_loops(f))
    # positions: match the reference limit vertices in world space
    W = [g.m_pt(M, p) for p in rv]
    size = max(g.ln(g.sub(a, W[0])) for a in W) + 1e-9
    m = {}
    used = set()
    amb = False
    for i, a in enumerate(W):
        best, bd, second = None, math.inf, math.inf
        for j, q in enumerate(gp):
            d = (a[0] - q[0]) ** 2 + (a[1] - q[1]) ** 2 + (a[2] - q[2]) ** 2
            if d < bd:
                best, bd, second = j, d, bd
            elif d < second:
                second = d
        if second < (1e-4 * size) ** 2:
            amb = True
        m[i] = best
        if not c.check(math.sqrt(bd) < 1e-7 * (1 + size + g.ln(a)), "position", "a vertex is not where Loop's rules and the limit mask put it",
                       want=a, nearest=gp[best], dist=math.sqrt(bd)):
            return
    if amb:
        c.event("ambiguous-positions")
        return
    rot = lambda t: t[t.index(min(t)):] + t[:t.index(min(t))]
    ws = sorted(rot(tuple(m[i] for i in t)) for t in rf)
    gs = sorted(rot(t) for t in gf)
    c.check(ws == gs, "connectivity", "triangles differ from the reference subdivision (as oriented index triples)")
    # convex hull (bounding box in world space)
    lo, hi = g.lst(b.pMin), g.lst(b.pMax)
    for q in gp:
        if not c.check(all(lo[k] - 1e-7 * (1 + size) <= q[k] <= hi[k] + 1e-7 * (1 + size) for k in range(3)), "hull",
                       "a vertex left the hull of the control mesh", v=q):
            break
    # half-space test along a random direction
    d = g.gunit(r)
    hi_ = max(g.dot(d, g.m_pt(M, p)) for p in v)
    c.check(max(g.dot(d, q) for q in gp) <= hi_ + 1e-7 * (1 + size), "hull", "a vertex left the convex hull of the control mesh")
    # normals: on the winding's side wherever the refined surface is locally smooth
    inv = g.m_inv_affine(M)
    op = [g.m_pt(inv, q) for q in gp]
    fn = {}
    for t in gf:
        n = g.cross(g.sub(op[t[1]], op[t[0]]), g.sub(op[t[2]], op[t[0]]))
        if g.ln(n) > 1e-12:
            for i in t:
                fn.setdefault(i, []).append(g.nrm(n))
    c.check(me.n is not None and len(me.n) == len(gp), "normals", "no vertex normals")
    for i, (n1, n2) in enumerate(zip(tangents(rv, rf), tangents(near, rf))):
        if n1 is None or n2 is None:
            continue
        n = g.lst(me.n[m[i]])
        if not c.check(g.ln(n) > 0 and max(g.dot(g.nrm(n), g.nrm(n1)), g.dot(g.nrm(n), g.nrm(n2))) > 1 - 1e-6, "normal-mask",
                       "vertex normal is not perpendicular to the limit tangents", normal=n, want=n1, valence=len(rings(rv, rf)[i][0])):
            break
        c.event("mask-normal")
    for i, ns in (fn.items() if "*" not in kind else []):
        avg = [sum(x[k] for x in ns) for k in range(3)]
        if g.ln(avg) < 1e-6:
            continue
        avg = g.nrm(avg)
        if min(g.dot(avg, x) for x in ns) < .85:
            continue
        n = g.lst(me.n[i])
        c.event("smooth-vertex")
        if not c.check(g.ln(n) > 0 and g.dot(g.nrm(n), avg) > .6, "normal-side", "vertex normal does not follow the surface's orientation",
                       normal=n, faces=avg):
            break


@task(quick=120, thorough=2500, min_events=50)
def flat(c):
    r = c.rng
    kind, v, f = control(r, flat=True)
    # keep flat meshes unfolded: tiny jitter only
    lv = r.choice([1, 2, 2])
    T, M, desc = g.affine(r)
    c.note(mesh=kind, faces=f, level=lv, T=desc)
    c.sig(kind, f, v, lv)
    me = run_loop(r, v, f, lv, T).refine()[0]
    inv = g.m_inv_affine(M)
    a2 = lambda t: (v[t[1]][0] - v[t[0]][0]) * (v[t[2]][1] - v[t[0]][1]) - (v[t[1]][1] - v[t[0]][1]) * (v[t[2]][0] - v[t[0]][0])
    unfolded = all(a2(t) > .05 for t in f) and "*" not in kind
    for p in me.p:
        q = g.m_pt(inv, g.lst(p))
        if not c.check(abs(q[2]) < 1e-7 * (1 + g.ln(g.lst(p))), "plane", "a flat control mesh did not stay flat", p=q):
            break
    if unfolded:
        c.event("unfolded")
        for n in me.n:
            n = g.lst(n)
            if g.ln(n) < 1e-9:
                continue
            if not c.check(g.nrm(n)[2] > .999, "normal", "flat mesh normal is not the plane's, on the winding's side", n=n):
                break


@task(quick=60, thorough=1200, min_events=20)
def affine_invariance(c):
    r = c.rng
    kind, v, f = control(r)
    lv = r.choice([1, 2])
    _, A, desc = g.affine(r)
    I = g.Transform()
    c.note(mesh=kind, faces=f, level=lv, map=desc)
    c.sig(kind, f, desc)
    a = run_loop(r, v, f, lv, I).refine()[0]
    b = run_loop(r, [g.m_pt(A, p) for p in v], f, lv, I).refine()[0]
    prm = {}
    s1 = [g.m_pt(A, g.lst(p)) for p in a.p]
    s2 = [g.lst(p) for p in b.p]
    size = 1 + max(g.ln(p) for p in s1)
    for p in s1:
        d = min(g.ln(g.sub(p, q)) for q in s2)
        if not c.check(d < 1e-6 * size, "mapped", "subdividing does not commute with an affine map", p=p, dist=d):
            break
    # full refinement of the primitive covers the surface with intersectable triangles
    prim = GeometricPrimitive(run_loop(r, v, f, lv, I), None)
    out = []
    prim.full_refine(out)
    c.check(len(out) == len(f) * 4 ** lv and all(p.can_intersect() for p in out), "full-refine", "full refinement", got=len(out))
