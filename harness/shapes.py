"""Random shapes with an independent plain-Python reference description."""
import math
import gen as g
import pytracer.geometry as geo
from pytracer.shape import Sphere, Disk, Cylinder, create_triangle_mesh

PI2 = 2. * math.pi
KINDS = ("sphere", "disk", "cylinder", "triangle")


class Ref(object):
    """kind, parameters, object-to-world matrix M, pytracer shape"""

    def __init__(self, kind, T, M, desc, ro, prm):
        self.kind, self.M, self.ro, self.prm = kind, M, ro, prm
        self.inv = g.m_inv_affine(M)
        self.det = g.m_inv3(M)[1]
        self.swaps = self.det < 0
        self.scale = max(math.sqrt(sum(M[i][j] ** 2 for i in range(3))) for j in range(3))
        self.info = dict(kind=kind, T=desc, ro=ro, **prm)
        W = T.inverse()
        self.o2w, self.w2o = T, W
        if kind == "sphere":
            self.shape = Sphere(T, W, ro, prm['r'], prm['z0'], prm['z1'], prm['pm'])
            self.zlo = max(-prm['r'], min(prm['z0'], prm['z1']))
            self.zhi = min(prm['r'], max(prm['z0'], prm['z1']))
            self.size = prm['r']
        elif kind == "cylinder":
            self.shape = Cylinder(T, W, ro, prm['r'], prm['z0'], prm['z1'], prm['pm'])
            self.zlo, self.zhi = min(prm['z0'], prm['z1']), max(prm['z0'], prm['z1'])
            self.size = max(prm['r'], abs(self.zlo), abs(self.zhi))
        elif kind == "disk":
            self.shape = Disk(T, W, ro, prm['h'], prm['r'], prm['ri'], prm['pm'])
            self.size = max(prm['r'], abs(prm['h']))
        else:
            self.pts = prm['P']
            params = {'indices': [0, 1, 2], 'P': [g.P(p) for p in self.pts]}
            self.uv = prm.get('uv')
            if self.uv is not None:
                params['uv'] = [x for p in self.uv for x in p]
            self.mesh = create_triangle_mesh(T, W, ro, params)
            self.shape = self.mesh.refine()[0]
            if self.uv is None:
                self.uv = [(0., 0.), (1., 0.), (1., 1.)]
            self.size = max(1e-3, max(g.ln(p) for p in self.pts))
        self.pm = math.radians(min(360., max(0., prm.get('pm', 360.))))

    # ---- parametrisation in object space (triangle: u, v are barycentric b1, b2)
    def point(self, u, v):
        k, p = self.kind, self.prm
        if k == "triangle":
            return [(1 - u - v) * self.pts[0][i] + u * self.pts[1][i] + v * self.pts[2][i] for i in range(3)]
        phi = u * self.pm
        if k == "sphere":
            t0, t1 = math.acos(self.zlo / p['r']), math.acos(self.zhi / p['r'])
            th = t0 + v * (t1 - t0)
            return [p['r'] * math.sin(th) * math.cos(phi), p['r'] * math.sin(th) * math.sin(phi), p['r'] * math.cos(th)]
        if k == "cylinder":
            return [p['r'] * math.cos(phi), p['r'] * math.sin(phi), self.zlo + v * (self.zhi - self.zlo)]
        r = p['ri'] + (1 - v) * (p['r'] - p['ri'])
        return [r * math.cos(phi), r * math.sin(phi), p['h']]

    def world(self, u, v):
        return g.m_pt(self.M, self.point(u, v))

    def rand_uv(self, r):
        if self.kind == "triangle":
            a, b = r.random(), r.random()
            if a + b > 1:
                a, b = 1 - a, 1 - b
            return a, b
        return r.random(), r.random()

    def obj_normal(self, p):
        """direction of dpdu x dpdv, unit"""
        if self.kind == "sphere":
            return g.nrm(p)
        if self.kind == "cylinder":
            return g.nrm([p[0], p[1], 0.])
        if self.kind == "disk":
            return [0., 0., 1.]
        n = g.nrm(g.cross(g.sub(self.pts[1], self.pts[0]), g.sub(self.pts[2], self.pts[0])))
        u = self.uv
        # mirrored texture coordinates turn the surface round
        det = (u[0][0] - u[2][0]) * (u[1][1] - u[2][1]) - (u[1][0] - u[2][0]) * (u[0][1] - u[2][1])
        return g.mul(n, -1.) if det < 0 else n

    def out_normal(self, p_obj):
        """world normal: outward side kept by the placement, turned round by ro"""
        n = g.nrm(g.m_nrm(self.M, self.obj_normal(p_obj)))
        return g.mul(n, -1.) if self.ro else n

    def uv_of(self, b):
        """mesh (u,v) at barycentric (b1,b2)"""
        b0 = 1 - b[0] - b[1]
        return tuple(b0 * self.uv[0][i] + b[0] * self.uv[1][i] + b[1] * self.uv[2][i] for i in (0, 1))

    def area(self):
        """object space (triangle: world space)"""
        p = self.prm
        if self.kind == "sphere":
            return self.pm * p['r'] * (self.zhi - self.zlo)
        if self.kind == "cylinder":
            return self.pm * p['r'] * (self.zhi - self.zlo)
        if self.kind == "disk":
            return .5 * self.pm * (p['r'] ** 2 - p['ri'] ** 2)
        w = [g.m_pt(self.M, q) for q in self.pts]
        return .5 * g.ln(g.cross(g.sub(w[1], w[0]), g.sub(w[2], w[0])))

    # ---- reference intersection
    def hits(self, o, d, mint, maxt):
        """(sorted parameters of the surface points in [mint,maxt], too_close_to_call)"""
        O, D = g.m_pt(self.inv, o), g.m_vec(self.inv, d)
        p = self.prm
        reach = self.size + g.ln(O)
        tol = 1e-6 * reach
        close = False
        ts = []
        if self.kind in ("sphere", "cylinder"):
            n = 3 if self.kind == "sphere" else 2
            A = sum(D[i] * D[i] for i in range(n))
            dd = g.dot(D, D)
            if A < 1e-9 * dd:
                # parallel to the axis: no hit unless it runs along the surface
                return [], not (n == 2 and A < 1e-20 * dd and abs(math.hypot(O[0], O[1]) - p['r']) > tol)
            B = sum(O[i] * D[i] for i in range(n)) / A
            # foot point of the perpendicular from the axis/centre
            F = [O[i] - B * D[i] for i in range(n)]
            h2 = sum(x * x for x in F)
            gap = p['r'] ** 2 - h2
            if abs(math.sqrt(h2) - p['r']) < tol:
                return [], True
            if gap > 0:
                s = math.sqrt(gap / A)
                ts = [-B - s, -B + s]
        elif self.kind == "disk":
            if abs(D[2]) < 1e-7 * g.ln(D):
                return [], not (D[2] == 0. and abs(O[2] - p['h']) > tol)
            ts = [(p['h'] - O[2]) / D[2]]
        else:
            e1, e2 = g.sub(self.pts[1], self.pts[0]), g.sub(self.pts[2], self.pts[0])
            n = g.cross(e1, e2)
            den = g.dot(n, D)
            if abs(den) < 1e-7 * g.ln(n) * g.ln(D):
                return [], True
            ts = [g.dot(n, g.sub(self.pts[0], O)) / den]
        out = []
        for t in ts:
            q = g.add(O, g.mul(D, t))
            ok, near = self.covers(q, tol)
            tt = 1e-7 * (abs(t) + reach / g.ln(D))
            tin = mint <= t <= maxt
            tnear = abs(t - mint) < tt or abs(t - maxt) < tt
            if (ok or near) and (tin or tnear) and (near or tnear):
                close = True
            if ok and tin:
                out.append(t)
        return sorted(out), close

    def covers(self, q, tol):
        """(inside the clipping limits, within tol of one of them)"""
        p = self.prm
        if self.kind == "triangle":
            e1, e2, w = g.sub(self.pts[1], self.pts[0]), g.sub(self.pts[2], self.pts[0]), g.sub(q, self.pts[0])
            a, b, c_ = g.dot(e1, e1), g.dot(e1, e2), g.dot(e2, e2)
            x, y = g.dot(w, e1), g.dot(w, e2)
            det = a * c_ - b * b
            b1, b2 = (c_ * x - b * y) / det, (a * y - b * x) / det
            m = min(b1, b2, 1 - b1 - b2)
            # altitude scale: barycentric margin times the smallest altitude
            alt = math.sqrt(det) / math.sqrt(max(a, c_, a + c_ - 2 * b))
            return m >= 0, abs(m) * alt < tol
        mar = []
        if self.kind == "sphere":
            if self.zlo > -p['r']:
                mar.append(q[2] - self.zlo)
            if self.zhi < p['r']:
                mar.append(self.zhi - q[2])
        elif self.kind == "cylinder":
            mar += [q[2] - self.zlo, self.zhi - q[2]]
        else:
            rr = math.hypot(q[0], q[1])
            mar += [p['r'] - rr]
            if p['ri'] > 0:
                mar += [rr - p['ri']]
        if self.pm < PI2 - 1e-12:
            rr = math.hypot(q[0], q[1])
            phi = math.atan2(q[1], q[0]) % PI2
            mar.append(rr * (self.pm - phi))
            # wrap-around edge at phi = 0
            if rr * min(phi, PI2 - phi) < tol:
                return min(mar) >= 0, True
        if not mar:
            return True, False
        m = min(mar)
        near = any(abs(x) < tol for x in mar) and m > -tol
        return m >= 0, near


def rand_prm(r, kind, full=None):
    if full is None:
        full = r.random() < .4
    pm = 360. if full or r.random() < .3 else r.uniform(15., 359.)
    if kind == "sphere":
        R = math.exp(r.uniform(-1.5, 1.5))
        if full:
            z0, z1 = -R, R
        else:
            while True:
                z0, z1 = r.uniform(-1.3, 1.3) * R, r.uniform(-1.3, 1.3) * R
                a, b = max(-R, min(z0, z1)), min(R, max(z0, z1))
                if b - a > .15 * R:
                    break
        return dict(r=R, z0=z0, z1=z1, pm=pm)
    if kind == "cylinder":
        z0 = r.uniform(-3, 3)
        return dict(r=math.exp(r.uniform(-1.5, 1)), z0=z0, z1=z0 + r.choice([-1, 1]) * r.uniform(.3, 3), pm=pm)
    if kind == "disk":
        R = math.exp(r.uniform(-1, 1))
        return dict(h=r.choice([0., r.gauss(0, 1)]), r=R, ri=0. if full or r.random() < .4 else r.uniform(0, .9) * R, pm=pm)
    while True:
        pts = [[r.gauss(0, 1.5) for _ in range(3)] for _ in range(3)]
        if r.random() < .25:
            i = r.randrange(3)
            for q in pts:
                q[i] = pts[0][i]
        e1, e2 = g.sub(pts[1], pts[0]), g.sub(pts[2], pts[0])
        if g.ln(g.cross(e1, e2)) > .05 * g.ln(e1) * g.ln(e2) and min(g.ln(e1), g.ln(e2)) > .1:
            break
    prm = dict(P=pts)
    if r.random() < .5:
        while True:
            uv = [(r.random(), r.random()) for _ in range(3)]
            det = (uv[1][0] - uv[0][0]) * (uv[2][1] - uv[0][1]) - (uv[2][0] - uv[0][0]) * (uv[1][1] - uv[0][1])
            if abs(det) > .05:
                break
        prm['uv'] = uv
    return prm


def rand_shape(r, kind=None, place=None, full=None, ro=None):
    kind = kind or r.choice(KINDS)
    T, M, desc = (place or g.affine)(r)
    return Ref(kind, T, M, desc, (r.random() < .4) if ro is None else ro, rand_prm(r, kind, full))


def aimed_ray(r, ref, miss=.25):
    """origin, direction, mint, maxt of a ray related to the shape"""
    u, v = ref.rand_uv(r)
    tgt = ref.world(u, v)
    sz = ref.size * ref.scale
    if r.random() < miss:
        tgt = g.add(tgt, g.mul(g.gunit(r), r.uniform(.02, 2) * sz))
    k = r.random()
    ctr = g.m_pt(ref.M, [0., 0., 0.])
    if k < .2:
        # inside / near
        o = g.m_pt(ref.M, g.mul(g.gunit(r), r.random() * ref.size))
    elif k < .35:
        # axis-parallel approach in object space
        ax = g.unit(r)
        o = g.sub(tgt, g.mul(g.nrm(g.m_vec(ref.M, ax)), r.uniform(.1, 5) * sz))
    else:
        o = g.add(ctr, g.mul(g.unit(r), r.choice([r.uniform(.5, 4), r.uniform(4, 60)]) * sz))
    d = g.sub(tgt, o)
    if g.ln(d) < 1e-6:
        d = g.gunit(r)
    L = g.ln(d)
    k = r.random()
    f = 1. / L if k < .5 else r.choice([1., -1., 1e-3 / L, 1e3 / L, math.exp(r.gauss(0, 2)) / L])
    d = g.mul(d, f)
    t = L / (abs(f) * L)
    mint = r.choice([0., 0., 0., 1e-5, t * r.uniform(0, 2)])
    maxt = r.choice([math.inf, math.inf, t * r.uniform(.3, 3), mint + t * r.random() * 3])
    if maxt < mint:
        maxt = mint + t
    return o, d, mint, maxt


def partial_shape(r, kind=None):
    """a swept or clipped quadric"""
    kind = kind or r.choice(["sphere", "cylinder", "cylinder", "disk"])
    T, M, desc = g.affine(r)
    prm = rand_prm(r, kind, False)
    prm['pm'] = r.uniform(20., 340.)
    return Ref(kind, T, M, desc, r.random() < .4, prm)


def chord_ray(r, ref):
    """a ray through two points of the unclipped surface, so that first and second crossing may each be cut away"""
    p = ref.prm
    pts = []
    for _ in range(2):
        a = r.uniform(0, PI2)
        if ref.kind == "sphere":
            z = r.uniform(-1, 1) * p['r']
            w = math.sqrt(max(0., p['r'] ** 2 - z * z))
            pts.append([w * math.cos(a), w * math.sin(a), z])
        elif ref.kind == "cylinder":
            e = .3 * (ref.zhi - ref.zlo)
            pts.append([p['r'] * math.cos(a), p['r'] * math.sin(a), r.uniform(ref.zlo - e, ref.zhi + e)])
        else:
            q = p['r'] * r.uniform(0, 1.2)
            pts.append([q * math.cos(a), q * math.sin(a), p['h'] if not pts else p['h'] + r.gauss(0, 1)])
    a, b = [g.m_pt(ref.M, x) for x in pts]
    d = g.sub(b, a)
    if g.ln(d) < 1e-3:
        d = g.unit(r)
    k = r.choice([-.5, -2., -2., r.uniform(-3, 2)])
    o = g.add(a, g.mul(d, k))
    if r.random() < .5:
        d = g.mul(d, 1. / g.ln(d))
    mint, maxt = 0., math.inf
    if r.random() < .2:
        maxt = g.ln(g.sub(b, o)) / g.ln(d) * r.uniform(.3, 1.5)
    return o, d, mint, maxt
