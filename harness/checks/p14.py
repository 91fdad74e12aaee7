"""P14 BSDF: frames, lobe selection, sums and averages"""
import math
from core import tasklist
import gen as g
import bxdfs as b
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.reflection import BSDF, BSDFSample, BDF, BDFType

TASKS, task = tasklist()
RULE = "0..8 real lobes (diffuse, glossy, specular; reflection and transmission) and recording stand-in lobes; every flag mask; shading frames tilted against the geometric normal, either handedness of side; component numbers at every step"
PI = math.pi
KINDS = (BDFType.DIFFUSE, BDFType.GLOSSY, BDFType.SPECULAR)


def frame(r):
    """(BSDF, s, t, n, ng)"""
    n = g.unit(r)
    s, t, _ = g.onb(n)
    a = r.uniform(0, 2 * PI)
    s, t = g.add(g.mul(s, math.cos(a)), g.mul(t, math.sin(a))), g.add(g.mul(t, math.cos(a)), g.mul(s, -math.sin(a)))
    k = r.random()
    if k < .4:
        ng = list(n)
    elif k < .8:
        ng = g.nrm(g.add(n, g.mul(g.gunit(r), r.uniform(0, .9))))
    else:
        ng = g.gunit(r)
    dg = geo.DifferentialGeometry(g.P(g.vec3(r)), g.V(g.mul(s, math.exp(r.gauss(0, 1)))), g.V(g.mul(t, r.choice([-1, 1]))), g.N([0., 0., 0.]), g.N([0., 0., 0.]), .3, .4, None)
    dg.nn = g.N(n)
    bs = BSDF(dg, g.N(ng), r.choice([1., 1.5]))
    return bs, s, g.cross(n, s), n, ng


def to_l(fr, v):
    return [g.dot(v, fr[0]), g.dot(v, fr[1]), g.dot(v, fr[2])]


def to_w(fr, v):
    return g.add(g.add(g.mul(fr[0], v[0]), g.mul(fr[1], v[1])), g.mul(fr[2], v[2]))


@task(quick=1500, thorough=50000, min_events=6000)
def frames(c):
    r = c.rng
    bs, s, t, n, ng = frame(r)
    fr = (s, t, n)
    for _ in range(3):
        v = g.mul(g.unit(r), r.choice([1., r.uniform(.1, 5)]))
        c.note(s=s, t=t, n=n, v=v)
        c.sig(s, n, v)
        x = g.V(v)
        snap = g.snap(x)
        l = bs.w2l(x)
        c.close(g.lst(l), to_l(fr, v), "w2l", "local coordinates", tol=1e-9)
        w = bs.l2w(g.V(v))
        c.close(g.lst(w), to_w(fr, v), "l2w", "world coordinates", tol=1e-9)
        c.close(g.lst(bs.l2w(l)), v, "inverse", "world-local-world does not come back", tol=1e-9)
        c.close(g.lst(bs.w2l(w)), v, "inverse", "local-world-local does not come back", tol=1e-9)
        c.check(g.snap(x) == snap, "args", "conversion changed its argument")


class Rec(BDF):
    """a lobe that records what it is asked and returns tagged answers"""

    def __init__(self, t, r, log):
        super().__init__(t)
        self.log = log
        self.base = [r.random() for _ in range(3)]
        self.dir = b.direction(r, .05)
        self.p0 = r.uniform(.1, 3)
        self.zero = r.random() < .1

    def val(self, wo, wi):
        k = 1.5 + wo[0] * .3 + wi[1] * .4 + wo[2] * wi[2] * .2 + wi[0] * .1
        return [x * k for x in self.base]

    def dens(self, wo, wi):
        return self.p0 * (1.2 + .3 * wi[0] + .2 * wi[2] * wo[0] - .3 * wo[1])

    def f(self, wo, wi):
        self.log.append(("f", self, g.lst(wo), g.lst(wi)))
        return b.sp(self.val(g.lst(wo), g.lst(wi)))

    def pdf(self, wo, wi):
        self.log.append(("pdf", self, g.lst(wo), g.lst(wi)))
        return self.dens(g.lst(wo), g.lst(wi))

    def sample_f(self, wo, u1, u2):
        self.log.append(("sample", self, g.lst(wo), (u1, u2)))
        if self.zero:
            return [0., None, Spectrum(0.)]
        return [self.dens(g.lst(wo), self.dir), g.V(self.dir), b.sp(self.val(g.lst(wo), self.dir))]

    def rho_hd(self, w, samples):
        self.log.append(("hd", self, g.lst(w), np.array(samples)))
        return b.sp(self.base)

    def rho_hh(self, n, s1, s2):
        self.log.append(("hh", self, n, np.array(s1), np.array(s2)))
        return b.sp(self.base)


def rand_type(r):
    return r.choice(KINDS) | r.choice([BDFType.REFLECTION, BDFType.TRANSMISSION])


def rand_flags(r):
    k = r.random()
    if k < .3:
        return BDFType.ALL
    if k < .45:
        return BDFType.ALL & ~BDFType.SPECULAR
    if k < .6:
        return r.choice([BDFType.ALL_REFLECTION, BDFType.ALL_TRANSMISSION])
    if k < .8:
        return rand_type(r)
    return r.randrange(32)


def matches(t, flags):
    return (t & flags) == t


def side_flags(flags, wo, wi, ng):
    if g.dot(wo, ng) * g.dot(wi, ng) > 0:
        return flags & ~BDFType.TRANSMISSION
    return flags & ~BDFType.REFLECTION


def fill(c, bs, lobes, flags):
    """add the lobes, in some cases answering questions in between"""
    r = c.rng
    asked = r.random() < .3
    for l in lobes:
        if asked and r.random() < .7:
            c.event("asked-while-building")
            wo, wi = g.gunit(r), g.gunit(r)
            for fl in (flags, BDFType.ALL):
                bs.n_components(fl)
                bs.f(g.V(wo), g.V(wi), fl)
                bs.pdf(g.V(wo), g.V(wi), fl)
                bs.sample_f(g.V(wo), BSDFSample(r.random(), r.random(), r.random()), fl)
        bs.push_back(l)


def close3(c, got, want, mech, msg, **kw):
    c.check(all(abs(x - y) <= 1e-7 * (1 + abs(y)) for x, y in zip(got, want)), mech, msg, got=got, want=want, **kw)


@task(quick=2500, thorough=80000, min_events=20000)
def combine(c):
    """recording lobes: which lobes are asked, what is added up"""
    r = c.rng
    bs, s, t, n, ng = frame(r)
    fr = (s, t, n)
    log = []
    types = [rand_type(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]
    if r.random() < .3:
        types = [types[0]] * len(types) if types else types
    lobes = [Rec(x if r.random() < .5 else BDFType(x), r, log) for x in types]
    flags = rand_flags(r)
    arg = flags if r.random() < .5 else BDFType(flags)
    fill(c, bs, lobes, arg)
    del log[:]
    m = [l for l, x in zip(lobes, types) if matches(x, flags)]
    c.note(types=types, flags=flags, n=n, ng=ng)
    c.sig(types, flags, n)
    c.check(bs.n_BDF == len(lobes), "count", "wrong number of lobes", got=bs.n_BDF)
    c.check(bs.n_components(arg) == len(m), "count", "wrong number of matching lobes", got=bs.n_components(arg), want=len(m))
    while True:
        wo, wi = g.gunit(r), g.gunit(r)
        if min(abs(g.dot(wo, ng)), abs(g.dot(wi, ng))) > 1e-6:
            break
    lo, li = to_l(fr, wo), to_l(fr, wi)
    # value
    want = [0.] * 3
    sf = side_flags(flags, wo, wi, ng)
    for l, x in zip(lobes, types):
        if matches(x, sf):
            want = g.add(want, l.val(lo, li))
    got = b.vals(bs.f(g.V(wo), g.V(wi), arg))
    close3(c, got, vals3(want), "value", "value is not the sum over the matching lobes")
    # density
    want = sum(l.dens(lo, li) for l in m) / len(m) if m else 0.
    c.close(float(bs.pdf(g.V(wo), g.V(wi), arg)), want, "density", "density is not the average over the matching lobes", tol=1e-7)
    # sampling
    picks = {}
    k = len(m)
    step = [(i + .5) / (4 * k) for i in range(4 * k)] if k else [r.random()]
    for u in step + [0., 1. - 2. ** -53]:
        del log[:]
        d = (r.random(), r.random())
        pdf, w, typ, f = bs.sample_f(g.V(wo), BSDFSample(d[0], d[1], u), arg)
        smp = [e for e in log if e[0] == "sample"]
        if not m:
            c.check(pdf == 0. and not smp and b.vals(f) == [0.] * 3, "no-match", "a sample although no lobe matches", pdf=pdf)
            continue
        c.require(len(smp) == 1 and smp[0][1] in m, "pick", "not exactly one matching lobe was sampled", sampled=len(smp))
        l = smp[0][1]
        if u in step:
            picks[id(l)] = picks.get(id(l), 0) + 1
        close3(c, smp[0][2], lo, "pick-wo", "lobe got the wrong outgoing direction")
        c.check(tuple(float(x) for x in smp[0][3]) == d, "pick-u", "lobe got the wrong random numbers")
        c.check(int(BDFType(typ).v) == int(l.type.v), "type", "reported type is not the picked lobe's")
        if l.zero:
            c.check(pdf == 0. and b.vals(f) == [0.] * 3, "zero", "a failed lobe sample carries a value", pdf=pdf)
            continue
        ww = to_w(fr, l.dir)
        close3(c, g.lst(w), ww, "direction", "sampled direction is not the lobe's in world space")
        if int(l.type.v) & BDFType.SPECULAR:
            c.close(float(pdf), l.dens(lo, l.dir) / k, "spec-pdf", "specular density is not the lobe's share", tol=1e-7)
            close3(c, b.vals(f), vals3(l.val(lo, l.dir)), "spec-value", "specular value is not the lobe's own")
        else:
            if abs(g.dot(ww, ng)) < 1e-6:
                continue
            c.close(float(pdf), sum(q.dens(lo, l.dir) for q in m) / k, "smp-pdf", "sampled density is not the average", tol=1e-7, types=types)
            want = [0.] * 3
            sf = side_flags(flags, wo, ww, ng)
            for q, x in zip(lobes, types):
                if matches(x, sf):
                    want = g.add(want, q.val(lo, l.dir))
            close3(c, b.vals(f), vals3(want), "smp-value", "sampled value is not the combined value")
            c.close(float(pdf), float(bs.pdf(g.V(wo), w, arg)), "smp-pdf-query", "sampled density differs from its query", tol=1e-7)
            close3(c, b.vals(f), b.vals(bs.f(g.V(wo), w, arg)), "smp-value-query", "sampled value differs from its query")
    if m:
        c.check(sorted(picks.values()) == [4] * k, "chance", "matching lobes are not equally likely", picks=sorted(picks.values()))


def vals3(v):
    return b.vals(b.sp([float(x) for x in v]))


@task(quick=600, thorough=20000, min_events=3000)
def real(c):
    """real lobes: value, density and sampling against the lobes' references"""
    r = c.rng
    bs, s, t, n, ng = frame(r)
    fr = (s, t, n)
    lobes = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        k = r.random()
        lobes.append(b.mirror(r) if k < .15 else b.glass(r) if k < .3 else b.any_smooth(r, 300.))
    fill(c, bs, [l.obj for l in lobes], BDFType.ALL)
    c.note(lobes=[l.desc for l in lobes], n=n, ng=ng)
    c.sig([l.desc for l in lobes], n)
    wo = to_w(fr, b.direction(r, .01))
    lo = to_l(fr, wo)

    def value(li, wi):
        same = g.dot(wo, ng) * g.dot(wi, ng) > 0
        v = [0.] * 3
        for l in lobes:
            if not l.delta and l.trans != same:
                v = g.add(v, l.f(lo, li))
        return v

    def density(li):
        return sum(0. if l.delta else l.pdf(lo, li) for l in lobes) / len(lobes)

    def rel(got, want, mech, msg, tol=1e-5):
        c.check(all(abs(x - y) <= tol * (1e-3 + abs(y)) for x, y in zip(got, want)), mech, msg, got=got, want=want)

    for i in range(6):
        u = [r.random() for _ in range(3)]
        pdf, w, typ, f = bs.sample_f(g.V(wo), BSDFSample(*u), BDFType.ALL)
        if pdf == 0. or w is None:
            c.event("rejected")
            continue
        w = g.lst(w)
        li = to_l(fr, w)
        if int(BDFType(typ).v) & BDFType.SPECULAR:
            cand = [l for l in lobes if l.delta and l.out(lo)[0] is not None and g.ln(g.sub(l.out(lo)[0], li)) < 1e-6]
            c.check(any(max(abs(x - y) for x, y in zip(l.out(lo)[1], b.vals(f))) < 1e-5 * (1 + max(l.out(lo)[1])) for l in cand), "specular", "specular sample belongs to no specular lobe", w=w)
            c.close(pdf, 1. / len(lobes), "specular-pdf", "specular density is not one over the number of lobes", tol=1e-9)
            continue
        if min(abs(li[2]), abs(g.dot(w, ng))) < 1e-5 or min(g.ln(g.add(lo, li)), g.ln(g.add(lo, b.switch(li)))) < 1e-4:
            continue
        rel([pdf], [density(li)], "pdf", "density is not the average of the lobes'")
        rel(b.vals(f), value(li, w), "value", "value is not the sum of the lobes'")
    for i in range(3):
        li = b.direction(r, 1e-4)
        w = to_w(fr, li)
        if abs(g.dot(w, ng)) < 1e-5 or abs(g.dot(wo, ng)) < 1e-5 or min(g.ln(g.add(lo, li)), g.ln(g.add(lo, b.switch(li)))) < 1e-3:
            continue
        rel([float(bs.pdf(g.V(wo), g.V(w)))], [density(li)], "pdf-pair", "density is not the average of the lobes'")
        rel(b.vals(bs.f(g.V(wo), g.V(w))), value(li, w), "value-pair", "value is not the sum of the lobes'")


@task(quick=500, thorough=10000, min_events=1500)
def albedo(c):
    r = c.rng
    bs, s, t, n, ng = frame(r)
    log = []
    types = [rand_type(r) for _ in range(r.choice([0, 1, 3, 5]))]
    lobes = [Rec(x, r, log) for x in types]
    flags = rand_flags(r)
    fill(c, bs, lobes, flags)
    wo = g.gunit(r)
    c.note(types=types, flags=flags)
    c.sig(types, flags, wo)
    k = r.randint(1, 6)
    want = [0.] * 3
    for l, x in zip(lobes, types):
        if matches(x, flags):
            want = g.add(want, l.base)
    for name, call in (("hd", lambda: bs.rho_hd(g.V(wo), flags, k)), ("hh", lambda: bs.rho_hh(flags, k))):
        del log[:]
        close3(c, b.vals(call()), vals3(want), name, "reflectance is not the sum over the matching lobes")
        for e in log:
            if name == "hd":
                close3(c, e[2], to_l((s, t, n), wo), "hd-wo", "lobe got the wrong direction")
            for a in e[3:]:
                c.check(a.shape == (k * k, 2) and (a >= 0).all() and (a < 1).all(), name + "-samples", "wrong sample table", shape=a.shape)
    c.check(str(len(lobes)) in repr(bs), "repr", "description does not give the number of lobes")
