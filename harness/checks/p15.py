"""P15 Monte Carlo warps"""
import math
from core import tasklist
import gen as g
import numpy as np
import pytracer.montecarlo as mc

TASKS, task = tasklist()
RULE = "every warp at random, stratified and edge points of the unit square, random cone widths/frames/asymmetries; distinct by warp, parameter and point"
ASSUMPTIONS = ["power and balance heuristics are asked about pairs of which at least one strategy can produce the direction"]

ONE = 1. - 1e-9


def frame(r):
    n = g.unit(r)
    s, t, n = g.onb(n)
    a = r.uniform(0, 2 * g.PI)
    s, t = g.add(g.mul(s, math.cos(a)), g.mul(t, math.sin(a))), g.sub(g.mul(t, math.cos(a)), g.mul(s, math.sin(a)))
    if r.random() < .3:
        t = g.mul(t, -1.)
    return s, t, n


def hg_cdf(ct, gg):
    """fraction of scattering with cosine below ct"""
    if abs(gg) < 1e-4:
        return (1 + ct) / 2.
    return (1 - gg * gg) / (2 * gg) * (1. / math.sqrt(1 + gg * gg - 2 * gg * ct) - 1. / (1 + gg))


class Warp(object):
    """name, f(u1,u2)->list of coordinates, member(p), unit(p)->(a,b) measure-preserving chart on the unit square, pdf(p), dim"""


def warps(r):
    k = r.choice(["disk", "concentric", "hemi", "cos", "sphere", "tri", "cone", "coneframe", "hg"])
    w = Warp()
    w.name, w.prm = k, {}
    ang = lambda x, y: (math.atan2(y, x) / (2 * g.PI)) % 1.
    v3 = lambda f: (lambda a, b: g.lst(f(a, b)))
    sph = lambda p: abs(g.ln(p) - 1) < 1e-9
    if k in ("disk", "concentric"):
        fn = mc.uniform_sample_disk if k == "disk" else mc.concentric_sample_disk
        w.f = lambda a, b: [float(x) for x in fn(a, b)]
        w.member = lambda p: p[0] ** 2 + p[1] ** 2 <= 1 + 1e-12
        w.unit = lambda p: (p[0] ** 2 + p[1] ** 2, ang(*p))
        w.pdf = lambda p: 1. / g.PI
    elif k == "tri":
        w.f = lambda a, b: [float(x) for x in mc.uniform_sample_triangle(a, b)]
        w.member = lambda p: p[0] >= 0 and p[1] >= 0 and p[0] + p[1] <= 1 + 1e-12
        w.unit = lambda p: ((1 - p[0]) ** 2, p[1] / max(1e-300, 1 - p[0]))
        w.pdf = lambda p: 2.
    elif k == "hemi":
        w.f = v3(mc.uniform_sample_hemisphere)
        w.member = lambda p: sph(p) and p[2] >= -1e-12
        w.unit = lambda p: (p[2], ang(p[0], p[1]))
        w.pdf = lambda p: mc.uniform_hemisphere_pdf()
        w.want = lambda p: 1 / (2 * g.PI)
    elif k == "cos":
        w.f = v3(mc.cosine_sample_hemisphere)
        w.member = lambda p: sph(p) and p[2] >= -1e-12
        w.unit = lambda p: (p[0] ** 2 + p[1] ** 2, ang(p[0], p[1]))
        w.pdf = lambda p: mc.cosine_hemisphere_pdf(p[2], 0.)
        w.want = lambda p: p[2] / g.PI
    elif k == "sphere":
        w.f = v3(mc.uniform_sample_sphere)
        w.member = sph
        w.unit = lambda p: ((1 + p[2]) / 2, ang(p[0], p[1]))
        w.pdf = lambda p: mc.uniform_sphere_pdf()
        w.want = lambda p: 1 / (4 * g.PI)
    elif k in ("cone", "coneframe"):
        ct = r.choice([r.uniform(-.95, .99), 1 - 10 ** r.uniform(-5, -1), 0.])
        w.prm['ct_max'] = ct
        if k == "cone":
            s, t, n = [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]
            fn = lambda a, b: mc.uniform_sample_cone(a, b, ct)
        else:
            s, t, n = frame(r)
            w.prm['frame'] = [s, t, n]
            fn = lambda a, b: mc.uniform_sample_cone(a, b, ct, g.V(s), g.V(t), g.V(n))
        w.f = v3(fn)
        w.member = lambda p: sph(p) and g.dot(p, n) >= ct - 1e-9
        w.unit = lambda p: ((1 - g.dot(p, n)) / (1 - ct), ang(g.dot(p, s), g.dot(p, t)))
        w.pdf = lambda p: mc.uniform_cone_pdf(ct)
        w.want = lambda p: 1 / (2 * g.PI * (1 - ct))
    else:
        gg = r.choice([0., r.uniform(-.9, .9), r.uniform(-.9, .9), 1e-3])
        w.prm['g'] = gg
        n = g.gunit(r)
        s, t, n = g.onb(n)
        w.prm['axis'] = n
        w.f = v3(lambda a, b: mc.sample_hg(g.V(n), gg, a, b))
        w.member = sph
        w.unit = lambda p: (hg_cdf(g.dot(p, n), gg), ang(g.dot(p, s), g.dot(p, t)))
        w.pdf = lambda p: mc.hg_pdf(g.V(n), g.V(p), gg)
        w.want = lambda p: (1 - gg * gg) / (4 * g.PI * (1 + gg * gg - 2 * gg * g.dot(p, n)) ** 1.5)
    w.dim = 2 if k in ("disk", "concentric", "tri") else 3
    return w


@task(quick=2500, thorough=60000, min_events=5000)
def pointwise(c):
    """domain membership and local density (Jacobian) at one point"""
    r = c.rng
    w = warps(r)
    u = [r.choice([0., ONE, .5, .25, .75, r.random(), r.random(), r.random(), r.random()]) for _ in range(2)]
    c.note(warp=w.name, u=u, **w.prm)
    c.sig(w.name, u, w.prm)
    p = w.f(*u)
    c.check(all(math.isfinite(x) for x in p) and w.member(p), "domain", "%s leaves its domain" % w.name, p=p)
    c.check(w.f(*u) == p, "repeatable", "%s is not a function of its numbers" % w.name)
    c.event(w.name)
    if hasattr(w, "want"):
        c.close(float(w.pdf(p)), w.want(p), "density", "%s: stated density" % w.name, tol=1e-7, rel=w.want(p) + 1e-12)
    # Jacobian away from the poles and seams
    u = [r.uniform(.02, .97), r.uniform(.02, .97)]
    if w.name == "concentric":
        x, y = 2 * u[0] - 1, 2 * u[1] - 1
        if abs(abs(x) - abs(y)) < .01 or abs(y) < .01 or abs(x) < .01:
            return
    h = 1e-5
    p = w.f(*u)
    a = [(x - y) / (2 * h) for x, y in zip(w.f(u[0] + h, u[1]), w.f(u[0] - h, u[1]))]
    b = [(x - y) / (2 * h) for x, y in zip(w.f(u[0], u[1] + h), w.f(u[0], u[1] - h))]
    J = abs(a[0] * b[1] - a[1] * b[0]) if w.dim == 2 else g.ln(g.cross(a, b))
    # near u1 = 0 the derivative of the square root blows up: only well conditioned points
    c.check(abs(J * float(w.pdf(p)) - 1) < 2e-3, "jacobian", "%s: local density is not the stated one" % w.name, J=J, pdf=float(w.pdf(p)), at=u)


@task(quick=90, thorough=900, min_events=60)
def coverage(c):
    """jittered grid pushed through the warp fills a measure-preserving chart evenly"""
    r = c.rng
    w = warps(r)
    n = 40
    K = 8
    obs = [0] * (K * K)
    c.note(warp=w.name, **w.prm)
    c.sig(w.name, w.prm)
    for i in range(n):
        for j in range(n):
            p = w.f((i + r.random()) / n, (j + r.random()) / n)
            a, b = w.unit(p)
            obs[min(K - 1, max(0, int(a * K))) * K + min(K - 1, max(0, int(b * K)))] += 1
    bad, stat, dof = g.chi2_bad(obs, [n * n / float(K * K)] * (K * K))
    c.event("points", n * n)
    c.check(not bad, "even", "%s: points are not distributed as stated" % w.name, chi2=stat, dof=dof, cells=obs)
    c.check(min(obs) > 0, "onto", "%s: part of the domain is never reached" % w.name, cells=obs)


@task(quick=300, thorough=6000, min_events=3000)
def concentric(c):
    """continuity and shell structure of the concentric map"""
    r = c.rng
    c.sig(c.index)
    for k in range(20):
        u = [r.random(), r.random()]
        if k % 4 == 0:      # near the diagonals and axes
            t = r.uniform(-.5, .5)
            e = r.choice([(t, t), (t, -t), (t, 0.), (0., t)])
            u = [.5 + e[0] + r.uniform(-1e-6, 1e-6), .5 + e[1] + r.uniform(-1e-6, 1e-6)]
            u = [min(ONE, max(0., x)) for x in u]
        v = [min(ONE, max(0., x + r.uniform(-1e-5, 1e-5))) for x in u]
        p, q = mc.concentric_sample_disk(*u), mc.concentric_sample_disk(*v)
        d = math.hypot(p[0] - q[0], p[1] - q[1])
        c.check(d < 6 * math.hypot(u[0] - v[0], u[1] - v[1]) + 1e-12, "continuous", "neighbouring numbers land far apart", u=u, v=v, p=p, q=q)
        rad = max(abs(2 * u[0] - 1), abs(2 * u[1] - 1))
        c.close(math.hypot(*p), rad, "shells", "squares do not map to circles", tol=1e-9, u=u)


@task(quick=200, thorough=4000, min_events=1000)
def rejection(c):
    r = c.rng
    seen = []

    def rng():
        seen.append(r.random())
        return seen[-1]
    for _ in range(6):
        p = mc.rejection_sample_disk(rng)
        c.check(p[0] ** 2 + p[1] ** 2 <= 1, "domain", "point outside the unit disk", p=p)
    c.sig(c.index)


@task(quick=12, thorough=60, min_events=10)
def rejection_even(c):
    r = c.rng
    n, K = 3000, 6
    obs = [0] * (K * K)
    for _ in range(n):
        x, y = mc.rejection_sample_disk(r.random)
        a, b = x * x + y * y, (math.atan2(y, x) / (2 * g.PI)) % 1.
        obs[min(K - 1, int(a * K)) * K + min(K - 1, int(b * K))] += 1
    bad, stat, dof = g.chi2_bad(obs, [n / float(K * K)] * (K * K))
    c.sig(c.index)
    c.check(not bad, "even", "not uniform over the disk", chi2=stat, dof=dof)


@task(quick=1500, thorough=30000, min_events=5000)
def heuristics(c):
    r = c.rng
    nf, ng = r.choice([1, 1, 2, 4, 16]), r.choice([1, 1, 2, 3, 64])
    f = r.choice([0., 10 ** r.uniform(-6, 6), r.random()])
    q = r.choice([0., 10 ** r.uniform(-6, 6), r.random()])
    if f == 0. and q == 0.:
        f = 1.
    c.note(nf=nf, f=f, ng=ng, g=q)
    c.sig(nf, f, ng, q)
    for name, fn, p in (("balance", mc.balance_heuristic, 1), ("power", mc.power_heuristic, 2)):
        a, b = fn(nf, f, ng, q), fn(ng, q, nf, f)
        c.check(0 <= a <= 1 and 0 <= b <= 1, name + "-range", "weight outside [0,1]", a=a, b=b)
        c.close(a + b, 1., name + "-sum", "weights of the two strategies do not add up to one", tol=1e-12)
        w = (nf * f) ** p / ((nf * f) ** p + (ng * q) ** p)
        c.close(a, w, name + "-formula", "weight", tol=1e-12)


@task(quick=40, thorough=300, min_events=40)
def normalised(c):
    """stated densities integrate to one over their domain (midpoint quadrature)"""
    r = c.rng
    n = 40
    c.sig(c.index)
    z = [(i + .5) / n for i in range(n)]
    c.close(sum(mc.cosine_hemisphere_pdf(x, 0.) for x in z) * 2 * g.PI / n, 1., "cosine", "density does not integrate to one", tol=1e-6)
    c.close(mc.uniform_hemisphere_pdf() * 2 * g.PI, 1., "hemi", "density does not integrate to one", tol=1e-9)
    c.close(mc.uniform_sphere_pdf() * 4 * g.PI, 1., "sphere", "density does not integrate to one", tol=1e-9)
    ct = r.choice([r.uniform(-.99, .999), 1. - 10 ** r.uniform(-10, -1)])
    c.close(mc.uniform_cone_pdf(ct) * 2 * g.PI * (1 - ct), 1., "cone", "density does not integrate to one", tol=1e-9)
    gg = r.uniform(-.7, .7)
    w = g.gunit(r)
    s, t, w = g.onb(w)
    n = 400
    tot = 0.
    for i in range(n):
        x = -1 + 2 * (i + .5) / n
        q = g.add(g.mul(w, x), g.mul(s, math.sqrt(1 - x * x)))
        tot += float(mc.hg_pdf(g.V(w), g.V(q), gg)) * 2. / n
    c.close(tot * 2 * g.PI, 1., "hg", "density does not integrate to one", tol=2e-3, g=gg)
