"""P33 phase functions"""
import math
import numpy as np
from core import tasklist
import gen as g
from pytracer.volume import utility as vu

TASKS, task = tasklist()
RULE = ("phase functions x asymmetry in (-0.95,0.95), zero, tiny (Schlick: (-0.9,0.9), where its rational approximation |k|<1 is valid) x random, aligned, nearly aligned and opposite direction pairs, Henyey-Greenstein also up to 0.9995, quadrature over the sphere; "
        "distinct by function, asymmetry and axis")
XS, WS = np.polynomial.legendre.leggauss(400)

FNS = {"isotropic": (lambda a, b, gg: vu.phase_isotrophic(a, b), False),
       "rayleigh": (lambda a, b, gg: vu.phase_rayleigh(a, b), False),
       "hazy": (lambda a, b, gg: vu.phase_mie_hazy(a, b), False),
       "murky": (lambda a, b, gg: vu.phase_mie_murky(a, b), False),
       "hg": (vu.phase_hg, True), "schlick": (vu.phase_schlick, True)}


def ref(name, ct, gg):
    k = 1. / (4 * math.pi)
    if name == "isotropic":
        return k
    if name == "rayleigh":
        return 3. / (16 * math.pi) * (1 + ct * ct)
    if name == "hazy":
        return (.5 + 4.5 * ((1 + ct) / 2) ** 8) * k
    if name == "murky":
        return (.5 + 16.5 * ((1 + ct) / 2) ** 32) * k
    if name == "hg":
        return k * (1 - gg * gg) / (1 + gg * gg - 2 * gg * ct) ** 1.5
    kk = 1.55 * gg - .55 * gg ** 3
    return k * (1 - kk * kk) / (1 - kk * ct) ** 2


@task(quick=96, thorough=1500)
def normalised(c):
    r = c.rng
    name = sorted(FNS)[c.index % len(FNS)]
    f, has_g = FNS[name]
    gg = r.choice([0., .5, -.5, r.uniform(-.9, .9), r.uniform(-.9, .9), r.choice([-1., 1.]) * 10. ** r.uniform(-8, -2)]) if has_g else 0.
    ax = g.unit(r)
    s, t, n = g.onb(ax)
    c.note(phase=name, g=gg, axis=ax)
    c.sig(name, gg, ax)
    w = g.V(ax)
    tot = mean = 0.
    ph = r.uniform(0, 6.28)
    for x, wt in zip(XS.tolist(), WS.tolist()):
        st = math.sqrt(max(0., 1 - x * x))
        d = [st * (math.cos(ph) * s[i] + math.sin(ph) * t[i]) + x * n[i] for i in range(3)]
        v = float(f(w, g.V(d), gg))
        tot += wt * v * 2 * math.pi
        mean += wt * v * x * 2 * math.pi
        c.check(v >= 0, "non-negative", "negative phase value", ct=x)
        c.close(v, ref(name, x, gg), "formula-" + name, "phase value differs from its formula", tol=1e-7, ct=x)
    c.close(tot, 1., "normalised-" + name, "does not integrate to one over the sphere", tol=1e-5)
    if name == "hg":
        c.close(mean, gg, "mean-cosine", "mean cosine is not the asymmetry", tol=1e-5)
    elif name == "schlick" and abs(gg) > .1:
        c.check(mean * gg > 0, "schlick-forward", "positive asymmetry does not scatter forward", mean=mean)
    elif name in ("isotropic", "rayleigh"):
        c.close(mean, 0., "symmetric-" + name, "", tol=1e-6)


@task(quick=1500, thorough=40000)
def pairs(c):
    r = c.rng
    name = r.choice(sorted(FNS))
    f, has_g = FNS[name]
    gg = r.uniform(-.95, .95) if name != "schlick" else r.uniform(-.9, .9)
    a, b = g.unit(r), g.unit(r)
    k = r.random()
    if k < .2:
        b = g.mul(a, r.choice([-1., 1.]))
    elif k < .4:
        e = 10. ** r.uniform(-6, -1)
        b = g.nrm([r.choice([-1., 1.]) * x + e * y for x, y in zip(a, g.unit(r))])
    c.note(phase=name, g=gg, a=a, b=b)
    c.sig(name, gg, a, b)
    A, B = g.V(a), g.V(b)
    v = float(f(A, B, gg))
    c.close(v, float(f(B, A, gg)), "reciprocal", "swapping directions changed the value", tol=1e-9)
    c.check(v >= 0 and math.isfinite(v), "finite", "")
    c.close(v, ref(name, max(-1., min(1., g.dot(a, b))), gg), "formula-pair", "", tol=1e-6)
    ax, an = g.unit(r), r.uniform(0, 360)
    m = g.m_rotate(an, ax)
    c.close(v, float(f(g.V(g.m_vec(m, a)), g.V(g.m_vec(m, b)), gg)), "rotation-invariant", "depends on more than the angle", tol=1e-7)
    c.check(g.snap(A) == g.snap(a) and g.snap(B) == g.snap(b), "pure", "")


@task(quick=150, thorough=3000, min_events=100)
def peaked(c):
    """strongly peaked Henyey-Greenstein: normalised, mean cosine, formula next to the peak"""
    r = c.rng
    gg = (1. - 10. ** r.uniform(-3.3, -.8)) * r.choice([-1., 1.])
    ax = g.unit(r)
    s, t, n = g.onb(ax)
    c.note(g=gg, axis=ax)
    c.sig(gg, ax)
    ph = r.uniform(0, 6.28)
    w = g.V(ax)
    a = abs(gg)

    def at(x):
        """value where the cosine from the peak is 1 - x"""
        # sine and cosine of the half angle keep their digits next to the peak
        h = math.sqrt(x / 2.)
        st, ct = 2. * h * math.sqrt(max(0., 1. - h * h)), 1. - x
        if gg < 0.:
            ct = -ct
        d = [st * (math.cos(ph) * s[i] + math.sin(ph) * t[i]) + ct * n[i] for i in range(3)]
        return float(vu.phase_hg(w, g.V(d), gg)), ct
    lo, hi = math.log(1. - a), math.log(1. + a)
    tot = mean = 0.
    for y, wt in zip(XS.tolist(), WS.tolist()):
        q = math.exp(lo + (y + 1.) / 2. * (hi - lo))
        x = min(2., max(0., (q * q - (1. - a) ** 2) / (2. * a)))
        v, ct = at(x)
        k = wt * (hi - lo) / 2. * q * q / a * 2. * math.pi
        tot += k * v
        mean += k * v * ct
        want = (1. - a * a) / q ** 3 / (4. * math.pi)
        c.check(v >= 0. and abs(v - want) <= 1e-5 * want, "peak-formula", "phase value differs from its formula", got=v, want=want, below=x)
    c.close(tot, 1., "peak-normalised", "does not integrate to one over the sphere", tol=1e-4)
    c.close(mean, gg, "peak-mean", "mean cosine is not the asymmetry", tol=1e-4)
    c.event("peaked")
