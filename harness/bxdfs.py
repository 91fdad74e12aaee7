"""Random scattering lobes with plain-Python references of their published formulas.

Directions are local: z is the shading normal."""
import math
import gen as g
import numpy as np
from pytracer.spectral.spectrum import RGBSpectrum
from pytracer import Spectrum
from pytracer.reflection import (BDFType, BRDF2BTDF, ScaledBDF, SpecularReflection, SpecularTransmission, Lambertian,
                                 OrenNayar, Microfacet, Blinn, Anisotropic, FresnelBlend, FresnelConductor,
                                 FresnelDielectric, FresnelFullReflect, IrIsotropicBRDF, IrIsotropicBRDFSample,
                                 ReHalfangleBRDF)
import pytracer.geometry as geo

PI = math.pi


def sp(c):
    return Spectrum.from_rgb(c) if len(c) == 3 else Spectrum(c[0])


def vals(s):
    """components of a returned value"""
    return [float(x) for x in s.c] if hasattr(s, 'c') else [float(s)] * 3


def rgb(r):
    k = r.random()
    if k < .15:
        return [1., 1., 1.]
    if k < .4:
        return [r.random()] * 3
    return [r.random() for _ in range(3)]


# ---- reference optics
def fr_dielectric(cosi, ei, et):
    """unpolarised reflectance; cosi signed: positive in the ei medium"""
    if cosi < 0:
        ei, et = et, ei
    ci = min(1., abs(cosi))
    st = ei / et * math.sqrt(max(0., 1 - ci * ci))
    if st >= 1.:
        return 1.
    ct = math.sqrt(1 - st * st)
    rs = (ei * ci - et * ct) / (ei * ci + et * ct)
    rp = (et * ci - ei * ct) / (et * ci + ei * ct)
    return .5 * (rs * rs + rp * rp)


def fr_conductor(cosi, eta, k):
    c = abs(cosi)
    e = eta * eta + k * k
    rp = (e * c * c - 2 * eta * c + 1) / (e * c * c + 2 * eta * c + 1)
    rs = (e - 2 * eta * c + c * c) / (e + 2 * eta * c + c * c)
    return .5 * (rp + rs)


class RFresnel(object):
    def __init__(self, r, kind=None):
        self.kind = kind or r.choice(["diel", "cond", "full"])
        if self.kind == "diel":
            self.ei, self.et = r.choice([(1., 1.5), (1.5, 1.), (1., 1.33), (1., 1.), (r.uniform(1, 2.5), r.uniform(1, 2.5))])
            self.obj = FresnelDielectric(self.ei, self.et)
            self.desc = "diel(%g,%g)" % (self.ei, self.et)
        elif self.kind == "cond":
            self.eta = [r.uniform(.05, 4) for _ in range(3)]
            self.k = [r.uniform(0, 6) for _ in range(3)]
            self.obj = FresnelConductor(sp(self.eta), sp(self.k))
            self.eta, self.k = vals(sp(self.eta)), vals(sp(self.k))
            self.desc = "cond(%s,%s)" % (self.eta, self.k)
        else:
            self.obj = FresnelFullReflect()
            self.desc = "full"

    def __call__(self, cosi):
        if self.kind == "diel":
            return [fr_dielectric(cosi, self.ei, self.et)] * 3
        if self.kind == "cond":
            return [fr_conductor(cosi, self.eta[i], self.k[i]) for i in range(3)]
        return [1.] * 3


# ---- reference microfacet distributions
class RDist(object):
    def __init__(self, r, emax=2000.):
        if r.random() < .5:
            self.kind = "blinn"
            self.ex = self.ey = r.choice([1., 0., 20., math.exp(r.uniform(0, math.log(emax)))])
            self.obj = Blinn(self.ex)
        else:
            self.kind = "aniso"
            self.ex = math.exp(r.uniform(0, math.log(emax)))
            if r.random() < .2:
                self.ex = r.random()
            self.ey = r.choice([self.ex, math.exp(r.uniform(0, math.log(emax))), self.ex * r.uniform(.5, 2.) + r.choice([0., r.random()])])
            self.obj = Anisotropic(self.ex, self.ey)
        self.desc = "%s(%g,%g)" % (self.kind, self.ex, self.ey)

    def expo(self, wh):
        if self.kind == "blinn":
            return self.ex
        s2 = max(1e-300, wh[0] ** 2 + wh[1] ** 2)
        return (self.ex * wh[0] ** 2 + self.ey * wh[1] ** 2) / s2

    def D(self, wh):
        return math.sqrt((self.ex + 2) * (self.ey + 2)) / (2 * PI) * abs(wh[2]) ** self.expo(wh)

    def pdf_h(self, wh):
        return math.sqrt((self.ex + 1) * (self.ey + 1)) / (2 * PI) * abs(wh[2]) ** self.expo(wh)

    def pdf(self, wo, wi):
        if wo[2] * wi[2] <= 0:
            return 0.
        wh = g.nrm(g.add(wo, wi))
        d = g.dot(wo, wh)
        return self.pdf_h(wh) / (4 * d) if d > 0 else 0.


def cos_pdf(wo, wi):
    return abs(wi[2]) / PI if wo[2] * wi[2] > 0 else 0.


class Lobe(object):
    """obj: pytracer lobe, f(wo,wi) -> 3 numbers, pdf(wo,wi)"""
    delta = False
    trans = False
    energy = True       # physically valid: conserves energy
    recip = True
    slack = 0.          # how far the published approximation itself exceeds one


def lambert(r):
    l = Lobe()
    R = vals(sp(rgb(r)))
    l.name, l.desc = "lambert", "lambert(%s)" % R
    l.obj = Lambertian(sp(R))
    l.f = lambda wo, wi: [x / PI for x in R]
    l.pdf = cos_pdf
    l.R = R
    return l


def oren(r):
    l = Lobe()
    R = vals(sp(rgb(r)))
    sig = r.choice([0., 20., r.uniform(0, 90)])
    l.name, l.desc = "orennayar", "orennayar(%s,%g)" % (R, sig)
    l.obj = OrenNayar(sp(R), sig)
    s2 = math.radians(sig) ** 2
    A, B = 1 - s2 / (2 * (s2 + .33)), .45 * s2 / (s2 + .09)

    def f(wo, wi):
        ti, to = math.acos(min(1., abs(wi[2]))), math.acos(min(1., abs(wo[2])))
        a, b = max(ti, to), min(ti, to)
        dp = math.atan2(wi[1], wi[0]) - math.atan2(wo[1], wo[0])
        k = A + B * max(0., math.cos(dp)) * math.sin(a) * math.tan(b)
        return [x / PI * k for x in R]
    l.f = f
    l.pdf = cos_pdf
    l.R = R
    return l


def micro(r, emax=2000.):
    l = Lobe()
    R = vals(sp(rgb(r)))
    fr, d = RFresnel(r), RDist(r, emax)
    l.name, l.desc = "microfacet", "microfacet(%s,%s,%s)" % (R, fr.desc, d.desc)
    l.obj = Microfacet(sp(R), fr.obj, d.obj)
    l.dist = d

    def f(wo, wi):
        wh = g.nrm(g.add(wo, wi))
        k = 2 * abs(wh[2]) / abs(g.dot(wo, wh))
        G = min(1., k * abs(wo[2]), k * abs(wi[2]))
        F = fr(g.dot(wi, wh))
        q = d.D(wh) * G / (4 * abs(wi[2]) * abs(wo[2]))
        return [R[i] * F[i] * q for i in range(3)]
    l.f = f
    l.pdf = d.pdf
    l.R = R
    return l


def blend(r, emax=2000.):
    l = Lobe()
    Rd, Rs = vals(sp(rgb(r))), vals(sp(rgb(r)))
    d = RDist(r, emax)
    l.name, l.desc = "fresnelblend", "fresnelblend(%s,%s,%s)" % (Rd, Rs, d.desc)
    l.obj = FresnelBlend(sp(Rd), sp(Rs), d.obj)
    l.dist = d

    def f(wo, wi):
        wh = g.nrm(g.add(wo, wi))
        h = abs(g.dot(wi, wh))
        a = (1 - (1 - .5 * abs(wi[2])) ** 5) * (1 - (1 - .5 * abs(wo[2])) ** 5) * 28. / (23 * PI)
        q = d.D(wh) / (4 * h * max(abs(wi[2]), abs(wo[2])))
        s = (1 - g.dot(wi, wh)) ** 5
        return [a * Rd[i] * (1 - Rs[i]) + q * (Rs[i] + s * (1 - Rs[i])) for i in range(3)]
    l.f = f
    l.pdf = lambda wo, wi: .5 * (abs(wi[2]) / PI + d.pdf(wo, wi)) if wo[2] * wi[2] > 0 else 0.
    return l


def half_table(r):
    l = Lobe()
    nh, nd, npd = r.randint(1, 12), r.randint(1, 12), r.randint(1, 12)
    T = np.array([[[[r.random() * .3 for _ in range(3)] for _ in range(npd)] for _ in range(nd)] for _ in range(nh)])
    l.name, l.desc = "halftable", "halftable(%d,%d,%d)" % (nh, nd, npd)
    l.obj = ReHalfangleBRDF(T.copy(), nh, nd, npd)

    def cell(x, n):
        """(index, distance to the nearest cell edge in cells)"""
        i = min(n - 1, max(0, int(x)))
        return i, abs(x - round(x))

    def locate(wo, wi):
        wh = g.nrm(g.add(wo, wi))
        if wh[2] < 0:
            wh, wi = g.mul(wh, -1.), g.mul(wi, -1.)
        th = math.acos(min(1., wh[2]))
        ph = math.atan2(wh[1], wh[0])
        x = [math.cos(ph) * math.cos(th), math.sin(ph) * math.cos(th), -math.sin(th)]
        y = [-math.sin(ph), math.cos(ph), 0.]
        td = math.acos(max(-1., min(1., g.dot(wi, wh))))
        pd = math.atan2(g.dot(wi, y), g.dot(wi, x)) % PI
        c = [cell(math.sqrt(th / (PI / 2)) * nh, nh), cell(td / (PI / 2) * nd, nd), cell(pd / PI * npd, npd)]
        return tuple(i for i, _ in c), min(e for _, e in c)
    l.edge = lambda wo, wi: locate(wo, wi)[1]
    l.f = lambda wo, wi: vals(sp(list(T[locate(wo, wi)[0]])))
    l.pdf = cos_pdf
    l.energy = False
    return l


def scattered(r):
    """irregular isotropic samples in a k-d tree"""
    from scipy.spatial import cKDTree
    l = Lobe()
    n = r.choice([1, 3, 10, 60])
    pts = []
    for _ in range(n):
        a, b = r.random(), r.random()
        pts.append([a * b, r.random(), math.sqrt(1 - a * a) * math.sqrt(1 - b * b)])
    cs = [vals(sp([r.random() * .3 for _ in range(3)])) for _ in range(n)]
    data = np.empty(n, dtype=object)
    for i in range(n):
        data[i] = IrIsotropicBRDFSample(g.P(pts[i]), sp(cs[i]))
    tree = Brute(pts)
    l.name, l.desc = "scattered", "scattered(%d)" % n
    l.obj = IrIsotropicBRDF(tree, data)

    def locate(wo, wi):
        st = [math.sqrt(max(0., 1 - w[2] ** 2)) for w in (wo, wi)]
        dp = abs(math.atan2(wi[1], wi[0]) - math.atan2(wo[1], wo[0]))
        if dp > PI:
            dp = 2 * PI - dp
        m = [st[0] * st[1], dp / PI, wi[2] * wo[2]]
        d = [g.ln(g.sub(p, m)) for p in pts]
        rad = .01
        while not (sum(1 for x in d if x <= rad) > 2 or rad > 1.5):
            rad *= 1.414
        edge = min(abs(x - rad) for x in d)
        return d, rad, edge

    def f(wo, wi):
        d, rad, _ = locate(wo, wi)
        tot, acc = 0., [0.] * 3
        for i in range(n):
            if d[i] <= rad:
                w = math.exp(-100 * d[i] ** 2)
                tot += w
                acc = [acc[k] + w * cs[i][k] for k in range(3)]
        return [x / tot for x in acc] if tot else [0.] * 3

    def edge(wo, wi):
        d, rad, e = locate(wo, wi)
        # no sample near: the average over nothing is not defined by the model
        return e * 1e3 if any(x <= rad for x in d) else 0.
    l.edge = edge
    l.f = f
    l.pdf = cos_pdf
    l.energy = False
    return l


class Brute(object):
    """the k-d tree query the model makes"""

    def __init__(self, pts):
        self.pts = pts

    def query_ball_point(self, m, rad):
        m = g.lst(m)
        return [i for i, p in enumerate(self.pts) if g.ln(g.sub(p, m)) <= rad]


def switch(w):
    return [w[0], w[1], -w[2]]


def to_btdf(b):
    l = Lobe()
    l.name, l.desc = "btdf-" + b.name, "btdf(%s)" % b.desc
    l.obj = BRDF2BTDF(b.obj)
    l.f = lambda wo, wi: b.f(wo, switch(wi))
    l.pdf = lambda wo, wi: b.pdf(wo, switch(wi))
    l.trans = not b.trans
    l.base = b
    return l


def scaled(r, b):
    l = Lobe()
    s = vals(sp(rgb(r)))
    l.name, l.desc = "scaled-" + b.name, "scaled(%s,%s)" % (s, b.desc)
    l.obj = ScaledBDF(b.obj, sp(s))
    l.f = lambda wo, wi: [x * y for x, y in zip(b.f(wo, wi), s)]
    l.pdf = b.pdf
    l.trans, l.energy = b.trans, b.energy
    l.base = b
    return l


class Delta(Lobe):
    delta = True


def mirror(r):
    l = Delta()
    R = vals(sp(rgb(r)))
    fr = RFresnel(r)
    l.name, l.desc = "mirror", "mirror(%s,%s)" % (R, fr.desc)
    l.obj = SpecularReflection(sp(R), fr.obj)

    def out(wo):
        F = fr(wo[2])
        return [-wo[0], -wo[1], wo[2]], [R[i] * F[i] / abs(wo[2]) for i in range(3)]
    l.out = out
    return l


def glass(r):
    l = Delta()
    T = vals(sp(rgb(r)))
    a, b = r.choice([(1., 1.5), (1.5, 1.), (1., 1.33), (1., 1.), (r.uniform(1, 2.5), r.uniform(1, 2.5))])
    l.name, l.desc = "glass", "glass(%s,%g,%g)" % (T, a, b)
    l.obj = SpecularTransmission(sp(T), a, b)
    l.trans = True
    l.ab = (a, b)

    def out(wo):
        """(wi or None, value)"""
        ei, et = (a, b) if wo[2] > 0 else (b, a)
        k = ei / et
        s2 = k * k * (wo[0] ** 2 + wo[1] ** 2)
        if s2 >= 1.:
            return None, [0.] * 3
        ct = math.sqrt(1 - s2)
        wi = [-k * wo[0], -k * wo[1], -ct if wo[2] > 0 else ct]
        F = fr_dielectric(wo[2], a, b)
        return wi, [(1 - F) * T[i] * k * k / ct for i in range(3)]
    l.out = out
    return l


def smooth(r, emax=2000.):
    """a non-delta reflection lobe"""
    return r.choice([lambert, oren, lambda q: micro(q, emax), lambda q: blend(q, emax), lambda q: micro(q, emax)])(r)


def any_smooth(r, emax=2000.):
    b = smooth(r, emax)
    if r.random() < .25:
        b = scaled(r, b)
    if r.random() < .25:
        b = to_btdf(b)
    if r.random() < .1:
        b = scaled(r, b)
    return b


def direction(r, lo=0.):
    """unit, |z| > lo; sometimes grazing or near the normal"""
    k = r.random()
    if k < .15:
        z = r.choice([-1, 1]) * 10 ** r.uniform(-4, -1)
    elif k < .25:
        z = r.choice([-1, 1]) * (1 - 10 ** r.uniform(-6, -2))
    else:
        z = r.uniform(-1, 1)
    if abs(z) <= lo:
        z = math.copysign(max(lo, .01) * 1.01, z)
    p = r.uniform(0, 2 * PI)
    s = math.sqrt(1 - z * z)
    return g.nrm([s * math.cos(p), s * math.sin(p), z])
