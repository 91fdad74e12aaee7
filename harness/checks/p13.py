"""P13 Fresnel terms and ideal directions"""
import math
from core import tasklist
import gen as g
import bxdfs as b
from pytracer.reflection import FresnelDielectric, FresnelConductor, FresnelFullReflect

TASKS, task = tasklist()
RULE = "index pairs 1..2.5 in both orders, equal, and 3; cosines in [-1,1] incl. 0, +-1, grazing and around the critical angle; conductors with k from 0"


def scal(x):
    return b.vals(x)[0]


@task(quick=4000, thorough=150000, min_events=30000)
def dielectric(c):
    r = c.rng
    a, e = r.choice([(1., 1.5), (1.5, 1.), (1., 3.), (1.4, 1.4), (r.uniform(1, 2.5), r.uniform(1, 2.5)), (r.uniform(1, 2.5), r.uniform(1, 2.5))])
    F = FresnelDielectric(a, e)
    c.note(a=a, e=e)
    c.sig(a, e)
    n0 = ((a - e) / (a + e)) ** 2
    for s in (1., -1.):
        c.close(scal(F(s)), n0, "normal", "normal-incidence reflectance", tol=1e-9)
    c.close(scal(F(r.choice([-1, 1]) * 1e-9)), 1. if a != e else 0., "grazing", "grazing reflectance is not one", tol=1e-6) if a != e else None
    prev = None
    for _ in range(5):
        x = r.choice([r.uniform(-1, 1), r.choice([-1, 1]) * 10 ** r.uniform(-6, 0)])
        got = scal(F(x))
        ei, et = (a, e) if x > 0 else (e, a)
        st = ei / et * math.sqrt(max(0., 1 - x * x))
        if abs(st - 1) < 1e-9:
            continue
        c.check(-1e-12 <= got <= 1 + 1e-9, "range", "reflectance outside [0,1]", cosi=x, got=got)
        c.close(got, b.fr_dielectric(x, a, e), "fresnel", "not the Fresnel reflectance", tol=1e-8, cosi=x)
        if st > 1:
            c.check(got == 1., "total", "no total reflection beyond the critical angle", cosi=x, got=got)
        else:
            ct = math.sqrt(1 - st * st)
            if ct > 1e-5:
                c.close(scal(F(-math.copysign(ct, x))), got, "both-sides", "differs along the refracted direction", tol=1e-6, cosi=x)
    # critical angle neighbourhood, from the denser side
    if a != e:
        hi, lo = max(a, e), min(a, e)
        for eps in (1e-6, -1e-6):
            st = (lo / hi) * (1 + eps)
            if st >= 1:
                continue
            x = math.sqrt(1 - st * st) * (1 if a > e else -1)
            got = scal(F(x))
            c.close(got, b.fr_dielectric(x, a, e), "critical", "wrong near the critical angle", tol=1e-6, cosi=x)


@task(quick=2500, thorough=80000, min_events=10000)
def conductor(c):
    r = c.rng
    f = b.RFresnel(r, "cond")
    c.note(f=f.desc)
    c.sig(f.desc)
    for _ in range(5):
        x = r.choice([r.uniform(-1, 1), 0., 1., -1.])
        got = b.vals(f.obj(x))
        c.close(got, f(x), "conductor", "not the conductor approximation", tol=1e-9, cosi=x)
        c.check(all(-1e-12 <= y <= 1 + 1e-9 for y in got), "range", "reflectance outside [0,1]", cosi=x, got=got)
        c.check(b.vals(f.obj(-x)) == got, "even", "depends on the side", cosi=x)
    # k = 0, normal incidence: the dielectric value
    n = r.uniform(1, 3)
    got = b.vals(FresnelConductor(b.sp([n] * 3), b.sp([0.] * 3))(1.))
    k = b.vals(b.sp([n] * 3))[0]
    c.close(got, [((k - 1) / (k + 1)) ** 2] * 3, "k0", "normal incidence of a lossless conductor", tol=1e-9)
    c.check(b.vals(FresnelFullReflect()(r.uniform(-1, 1))) == [1.] * 3, "full", "full reflection is not one")


@task(quick=3000, thorough=100000, min_events=15000)
def directions(c):
    r = c.rng
    m, t = b.mirror(r), b.glass(r)
    for _ in range(3):
        wo = b.direction(r, 1e-5)
        c.note(mirror=m.desc, glass=t.desc, wo=wo)
        c.sig(m.desc, t.desc, wo)
        v = g.V(wo)
        s0 = g.snap(v)
        pdf, wi, f = m.obj.sample_f(v, r.random(), r.random())
        want, val = m.out(wo)
        c.close(pdf, 1., "mirror-pdf", "mirror density is not one", tol=1e-12)
        c.close(g.lst(wi), want, "mirror", "not the mirror direction", tol=1e-12)
        c.close([x * abs(wo[2]) for x in b.vals(f)], [x * abs(wo[2]) for x in val], "mirror-value", "mirror reflectance", tol=1e-7)
        pdf, wi, f = t.obj.sample_f(v, r.random(), r.random())
        c.check(g.snap(v) == s0, "args", "sampling changed the outgoing direction")
        want, val = t.out(wo)
        a, e = t.ab
        ei, et = (a, e) if wo[2] > 0 else (e, a)
        sinc = ei / et * math.hypot(wo[0], wo[1])
        if abs(sinc - 1) < 1e-7:
            continue
        if want is None:
            c.event("total-reflection")
            c.check(pdf == 0. and (f is None or b.vals(f) == [0.] * 3), "tir", "transmission under total internal reflection", pdf=pdf)
            continue
        c.require(wi is not None and pdf == 1., "trans-pdf", "no transmitted direction", pdf=pdf)
        c.close(g.lst(wi), want, "snell", "direction does not follow Snell's law", tol=1e-8)
        c.close(g.ln(g.lst(wi)), 1., "snell-unit", "not a unit vector", tol=1e-8)
        c.close([x * abs(want[2]) for x in b.vals(f)], [x * abs(want[2]) for x in val], "trans-value", "transmitted radiance factor", tol=1e-6)
