"""P11 scattering lobes: samples, densities, values"""
import math
from core import tasklist
import gen as g
import bxdfs as b
import numpy as np
import pytracer.montecarlo as mc
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.reflection import BSDF, BDF, BDFType

TASKS, task = tasklist()
RULE = "Lambertian, Oren-Nayar, microfacet (Blinn and anisotropic, exponents 0..2000; dielectric, conductor and perfect Fresnel), Fresnel-blend, measured, scaled and flipped lobes; outgoing directions on both sides, grazing and normal; random numbers incl. 0; reflectances a BSDF estimates with its own patterns of 1..36 samples"
PI = math.pi


def close(c, a, w, mech, tol=2e-6, **kw):
    """componentwise relative agreement"""
    a, w = [float(x) for x in a], [float(x) for x in w]
    ok = all(abs(x - y) <= tol * (abs(y) + 1e-6) for x, y in zip(a, w))
    return c.check(ok, mech, "differs from the model", got=a, want=w, **kw)


@task(quick=3000, thorough=100000, min_events=30000)
def consistent(c):
    r = c.rng
    l = b.any_smooth(r) if r.random() < .85 else b.half_table(r)
    wo = b.direction(r)
    c.note(lobe=l.desc, wo=wo)
    c.sig(l.desc, wo)
    for k in range(6):
        u1, u2 = r.random(), r.random()
        if k == 5:
            u1, u2 = r.choice([(0., u2), (u1, 0.), (.5, u2), (.25, u2), (.75, u2)])
        pdf, wi, f = l.obj.sample_f(g.V(wo), u1, u2)
        pdf = float(pdf)
        c.check(pdf >= 0. and math.isfinite(pdf), "density-sign", "invalid density", u=[u1, u2], pdf=pdf)
        if pdf == 0.:
            c.event("rejected")
            # a direction the lobe does not sample: its density query agrees
            if wi is not None and g.ln(g.lst(wi)) > .5 and abs(wi[2]) > 1e-9 and g.ln(g.add(wo, g.lst(wi))) > 1e-6:
                side = wo[2] * wi[2] < 0
                if side != l.trans:
                    c.check(float(l.obj.pdf(g.V(wo), wi)) == 0. or _edge(l, wo, g.lst(wi)), "rejected", "zero density returned for a direction with positive density", u=[u1, u2], wi=wi)
            continue
        w = g.lst(wi)
        c.close(g.ln(w), 1., "unit", "sampled direction is not a unit vector", tol=1e-9)
        if abs(w[2]) < 1e-7 or g.ln(g.add(wo, b.switch(w) if l.trans else w)) < 1e-5:
            c.event("edge")
            continue
        c.check((w[2] * wo[2] < 0) == l.trans, "side", "sampled direction on the wrong side", wi=w)
        close(c, [pdf], [float(l.obj.pdf(g.V(wo), g.V(w)))], "pdf-query", u=[u1, u2], wi=w)
        close(c, b.vals(f), b.vals(l.obj.f(g.V(wo), g.V(w))), "f-eval", u=[u1, u2], wi=w, tol=1e-5)
        close(c, [pdf], [l.pdf(wo, w)], "pdf-model", u=[u1, u2], wi=w)
        if k < 3:
            def at(x, y):
                q, v, _ = l.obj.sample_f(g.V(wo), x, y)
                return g.lst(v) if float(q) > 0. else None
            d = g.spread(at, (u1, u2))
            if d is not None:
                c.check(d <= pdf * 1.005, "crowding", "samples crowd here more densely than the reported density", u=[u1, u2], wi=w, local=d, pdf=pdf)
                c.event("local-density")
    # density queries for unrelated pairs
    for _ in range(3):
        wi = b.direction(r)
        close(c, [float(l.obj.pdf(g.V(wo), g.V(wi)))], [l.pdf(wo, wi)], "pdf-pair", wi=wi)


def _edge(l, wo, wi):
    h = g.add(wo, b.switch(wi) if l.trans else wi)
    h = g.nrm(h)
    return abs(g.dot(h, wo)) < 1e-6 or h[0] ** 2 + h[1] ** 2 < 1e-14


# the unit square is mapped onto the hemisphere by (cos^2, phi): equal cells carry
# equal cosine-weighted solid angle
NT, NP, SUB = 5, 8, 40


def cells(l, wo):
    """reference probability of each cell by quadrature"""
    out = []
    sgn = math.copysign(1., wo[2]) * (-1 if l.trans else 1)
    for i in range(NT):
        for j in range(NP):
            s = 0.
            for a in range(SUB):
                c2 = (i + (a + .5) / SUB) / NT
                z = math.sqrt(c2)
                st = math.sqrt(1 - c2)
                for q in range(SUB):
                    p = 2 * PI * (j + (q + .5) / SUB) / NP
                    s += l.pdf(wo, [st * math.cos(p), st * math.sin(p), sgn * z]) / z
            out.append(s / SUB ** 2 / NT / NP * PI)
    return out


@task(quick=64, thorough=1500, min_events=120)
def distribution(c):
    r = c.rng
    l = b.any_smooth(r, 30.)
    while True:
        wo = b.direction(r)
        if abs(wo[2]) > .08:
            break
    c.note(lobe=l.desc, wo=wo)
    c.sig(l.desc, wo)
    P = cells(l, wo)
    tot = sum(P)
    c.check(tot < 1.01, "mass", "density integrates to more than one", mass=tot)
    n = 2500
    obs = [0] * (NT * NP)
    rej = 0
    wov = g.V(wo)
    for _ in range(n):
        pdf, wi, f = l.obj.sample_f(wov, r.random(), r.random())
        if pdf == 0.:
            rej += 1
            continue
        w = g.lst(wi)
        i = min(NT - 1, int(w[2] ** 2 * NT))
        j = min(NP - 1, int((math.atan2(w[1], w[0]) % (2 * PI)) / (2 * PI) * NP))
        obs[i * NP + j] += 1
    bad, stat, k = g.chi2_bad(obs + [rej], [x * n for x in P] + [max(0., 1 - tot) * n])
    c.check(not bad, "distribution", "samples do not follow the reported density", stat=stat, dof=k, obs=obs, want=[x * n for x in P], rejected=rej)


@task(quick=120, thorough=3000, min_events=120)
def albedo(c):
    """reflectance queries average value*cos/density over their samples"""
    r = c.rng
    l = b.any_smooth(r, 200.)
    wo = b.direction(r)
    n = 24
    smp = np.array([[r.random(), r.random()] for _ in range(n)])
    c.note(lobe=l.desc, wo=wo)
    c.sig(l.desc, wo)
    base = l
    while hasattr(base, 'base'):
        base = base.base
    exact = base.name == "lambert"
    acc = [0.] * 3
    for u in smp:
        pdf, wi, f = l.obj.sample_f(g.V(wo), u[0], u[1])
        if pdf > 0:
            acc = [acc[i] + b.vals(f)[i] * abs(wi[2]) / pdf for i in range(3)]
    got = b.vals(l.obj.rho_hd(g.V(wo), smp))
    close(c, got, [x / n for x in acc], "rho-hd", tol=1e-6)
    smp2 = np.array([[r.random(), r.random()] for _ in range(n)])
    acc = [0.] * 3
    for u, v in zip(smp, smp2):
        # outgoing directions uniform over the hemisphere
        w = g.lst(mc.uniform_sample_hemisphere(u[0], u[1]))
        z = w[2]
        pdf, wi, f = l.obj.sample_f(g.V(w), v[0], v[1])
        if pdf > 0:
            acc = [acc[i] + b.vals(f)[i] * abs(wi[2]) * z / (pdf / (2 * PI)) for i in range(3)]
    if exact:
        k = [x * PI for x in l.f(wo, [wo[0], wo[1], wo[2]])]
        close(c, b.vals(l.obj.rho_hh(n, smp, smp2)), k, "rho-hh-exact", tol=1e-6)
    else:
        close(c, b.vals(l.obj.rho_hh(n, smp, smp2)), [x / (PI * n) for x in acc], "rho-hh", tol=1e-6)


class Wave(BDF):
    """a lobe with a smooth, simple value, sampled uniformly over the hemisphere"""

    def __init__(self, a, k, M):
        super().__init__(BDFType.REFLECTION | BDFType.GLOSSY)
        self.a, self.k, self.M = a, k, M

    def f(self, wo, wi):
        x, y = g.lst(wo), g.lst(wi)
        return b.sp([self.a[i] + self.k[i] * sum(x[p] * self.M[i][p][q] * y[q] for p in range(3) for q in range(3)) for i in range(3)])

    def pdf(self, wo, wi):
        return 1. / (2 * PI)

    def sample_f(self, wo, u1, u2):
        wi = mc.uniform_sample_hemisphere(u1, u2)
        return [1. / (2 * PI), wi, self.f(wo, wi)]


@task(quick=30, thorough=900, min_events=60)
def patterns(c):
    """a BSDF's own sample patterns estimate its reflectances without bias"""
    r = c.rng
    ss, ts, ns = g.onb(g.gunit(r))
    dg = geo.DifferentialGeometry(g.P([0., 0., 0.]), g.V(ss), g.V(ts), g.N([0., 0., 0.]), g.N([0., 0., 0.]), 0., 0., None)
    bs = BSDF(dg, dg.nn)
    # linear in both directions: the integrals are elementary
    hh, hd = [0.] * 3, [0.] * 3
    wl = b.direction(r, .05)
    wl[2] = abs(wl[2])
    n = r.choice([1, 1, 2])
    for _ in range(n):
        a = [r.uniform(.2, 1) for _ in range(3)]
        k = [r.uniform(-1, 1) for _ in range(3)]
        M = [[[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)] for _ in range(3)]
        bs.push_back(Wave(a, k, M))
        for i in range(3):
            hh[i] += a[i] * PI + k[i] * M[i][2][2] * (2 * PI / 3) ** 2 / PI
            hd[i] += a[i] * PI + k[i] * (2 * PI / 3) * sum(wl[p] * M[i][p][2] for p in range(3))
    q = r.randint(1, 6)
    c.note(lobes=n, pattern=q)
    c.sig(hh, q)
    w = bs.l2w(g.V(wl))
    K = max(24, 600 // (q * q))
    kw = dict(rng=lambda *m: np.array([r.random() for _ in range(m[0])]) if m else r.random()) if r.random() < .5 else {}
    for name, want, call in (("hh", hh, lambda: bs.rho_hh(BDFType.ALL, q, **kw)), ("hd", hd, lambda: bs.rho_hd(w, BDFType.ALL, q, **kw))):
        got = [b.vals(call()) for _ in range(K)]
        for i in range(3):
            bad, m, se = g.mean_bad([x[i] for x in got], want[i], 7.5)
            c.check(not bad, "pattern-" + name, "the average over a BSDF's sample patterns is not the reflectance", got=m, want=want[i], se=se)
        c.event(name)
