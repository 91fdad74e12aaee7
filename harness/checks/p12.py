"""P12 reflection models: values, reciprocity, energy"""
import math
from core import tasklist
import gen as g
import bxdfs as b
import pytracer.geometry as geo
from pytracer.reflection import BSDF, BDFType

TASKS, task = tasklist()
RULE = "every reflection model with random physical parameters; direction pairs anywhere on the sphere (same side, opposite sides, grazing to 1e-4, near the normal, coincident and opposite)"
PI = math.pi


def ok_vals(v):
    return all(math.isfinite(x) and x >= 0. for x in v)


@task(quick=2500, thorough=80000, min_events=15000)
def values(c):
    r = c.rng
    k = r.random()
    l = b.any_smooth(r) if k < .7 else b.half_table(r) if k < .85 else b.scattered(r)
    c.note(lobe=l.desc)
    c.sig(l.desc)
    table = hasattr(l, 'edge')
    for _ in range(5):
        wo, wi = b.direction(r), b.direction(r)
        k = r.random()
        if k < .1:
            wi = list(wo)
        elif k < .2:
            wi = [-wo[0], -wo[1], wo[2]]
        elif k < .3 and not table:
            # opposite directions: no half vector
            for w in ([-x for x in wo], b.switch(wo)):
                c.check(ok_vals(b.vals(l.obj.f(g.V(wo), g.V(w)))), "opposite", "not a finite non-negative value", wo=wo, wi=w)
            continue
        before = (g.V(wo), g.V(wi))
        s0 = [g.snap(x) for x in before]
        got = b.vals(l.obj.f(*before))
        c.check([g.snap(x) for x in before] == s0, "args", "evaluation changed its directions")
        c.check(ok_vals(got), "finite", "not a finite non-negative value", wo=wo, wi=wi, got=got)
        if l.name == "scattered" and wo[2] * wi[2] < 0:
            continue
        if table and (l.edge(wo, wi) < 1e-7 or l.edge(wi, wo) < 1e-7 or wo == wi or k < .2):
            c.event("cell-edge")
            continue
        same = (wo[2] * wi[2] > 0) != l.trans
        h = g.add(wo, b.switch(wi) if l.trans else wi)
        if not same or g.ln(h) < 1e-4 or h[0] ** 2 + h[1] ** 2 < 1e-13:
            continue
        want = l.f(wo, wi)
        c.check(all(abs(x - y) <= 2e-6 * (abs(y) + 1e-6) for x, y in zip(got, want)), "model", "value is not the model's", wo=wo, wi=wi, got=got, want=want)
        if not l.trans:
            back = b.vals(l.obj.f(g.V(wi), g.V(wo)))
            c.check(all(abs(x - y) <= 2e-6 * (abs(y) + 1e-6) for x, y in zip(got, back)), "reciprocal", "swapping the directions changes the value", wo=wo, wi=wi, got=got, back=back)


@task(quick=160, thorough=5000, min_events=160)
def energy(c):
    """directional reflectance at most one, by the lobe's own samples"""
    r = c.rng
    l = b.any_smooth(r)
    wo = b.direction(r, 1e-3)
    c.note(lobe=l.desc, wo=wo)
    c.sig(l.desc, wo)
    n = 600
    xs = [[], [], []]
    m = 24
    for i in range(n):
        # jittered grid keeps the spread small
        u1, u2 = ((i % m) + r.random()) / m, ((i // m) + r.random()) / (n // m)
        pdf, wi, f = l.obj.sample_f(g.V(wo), u1, u2)
        v = b.vals(f)
        for k in range(3):
            xs[k].append(v[k] * abs(wi[2]) / pdf if pdf > 0 else 0.)
    for x in xs:
        mean = sum(x) / n
        se = math.sqrt(sum((q - mean) ** 2 for q in x) / (n - 1) / n)
        c.check(mean <= 1. + l.slack + 7 * se + 1e-9, "albedo", "more energy scattered than received", mean=mean, se=se)


@task(quick=1500, thorough=40000, min_events=3000)
def specular(c):
    """mirror and glass with the same indices share the energy between them"""
    r = c.rng
    gl = b.glass(r)
    a, e = gl.ab
    from pytracer.reflection import SpecularReflection, SpecularTransmission, FresnelDielectric
    from pytracer import Spectrum
    R = SpecularReflection(Spectrum(1.), FresnelDielectric(a, e))
    T = SpecularTransmission(Spectrum(1.), a, e)
    for _ in range(3):
        wo = b.direction(r)
        c.note(ab=(a, e), wo=wo)
        c.sig(a, e, wo)
        pr, wr, fr = R.sample_f(g.V(wo), r.random(), r.random())
        pt, wt, ft = T.sample_f(g.V(wo), r.random(), r.random())
        refl = b.vals(fr)[0] * abs(wr[2]) / pr
        ei, et = (a, e) if wo[2] > 0 else (e, a)
        tran = b.vals(ft)[0] * abs(wt[2]) / pt * (et / ei) ** 2 if pt > 0 else 0.
        c.check(refl >= 0 and tran >= 0 and refl <= 1 + 1e-9, "range", "reflectance outside [0,1]", refl=refl, tran=tran)
        c.close(refl + tran, 1., "sum", "reflected and transmitted flux do not add up to the incident flux", tol=1e-6, refl=refl, tran=tran)
        wi = b.direction(r)
        for o in (R, T):
            c.check(b.vals(o.f(g.V(wo), g.V(wi))) == [0.] * 3 and float(o.pdf(g.V(wo), g.V(wi))) == 0., "delta", "an ideal specular lobe has a finite value or density", wi=wi)
    m = b.mirror(r)
    pr, wr, fr = m.obj.sample_f(g.V(wo), r.random(), r.random())
    c.check(all(-1e-12 <= x * abs(wr[2]) / pr <= 1 + 1e-9 for x in b.vals(fr)), "range", "reflectance outside [0,1]", lobe=m.desc)


@task(quick=1200, thorough=30000, min_events=4000)
def sides(c):
    """as part of a surface, reflection models are black across it, transmission models on the same side"""
    r = c.rng
    n = g.gunit(r)
    s, t, _ = g.onb(n)
    dg = geo.DifferentialGeometry(g.P([0., 0., 0.]), g.V(g.mul(s, 2.)), g.V(g.mul(t, .5)), g.N([0., 0., 0.]), g.N([0., 0., 0.]), .3, .4, None)
    dg.nn = g.N(n)
    bs = BSDF(dg, g.N(n))
    l = b.any_smooth(r)
    bs.push_back(l.obj)
    for _ in range(4):
        wo, wi = b.direction(r, 1e-3), b.direction(r, 1e-3)
        W = [g.add(g.add(g.mul(s, w[0]), g.mul(t, w[1])), g.mul(n, w[2])) for w in (wo, wi)]
        c.note(lobe=l.desc, wo=wo, wi=wi)
        c.sig(l.desc, wo, wi)
        got = b.vals(bs.f(g.V(W[0]), g.V(W[1])))
        c.check(ok_vals(got), "finite", "not a finite non-negative value", got=got)
        if (wo[2] * wi[2] > 0) == l.trans:
            c.check(got == [0.] * 3, "black", "lobe scatters to the wrong side", got=got)
        else:
            c.event("lit")
