"""P17 stratified sample patterns"""
import math
from core import tasklist
import gen as g
import numpy as np
import importlib
from pytracer.sampler import StratifiedSampler, Sample
from pytracer.integrator.surface import DirectLightingIntegrator, PathIntegrator, WhittedIntegrator, LightStrategy

su = importlib.import_module('pytracer.sampler.utility')
TASKS, task = tasklist()
RULE = "pattern sizes 1..40, jittered and centred, default and caller-supplied random sources, windows anywhere (negative and large offsets), 1..6x1..6 strata, integrator requests; distinct by configuration"
ASSUMPTIONS = ["random sources stay at least 1e-4 below one when they are adversarial (rounding up to the next stratum edge is not judged)"]


def rng_of(r):
    """a caller-supplied random source: numbers, edges included"""
    if r.random() < .4:
        return np.random.rand
    edge = r.random() < .3

    def rng(*n):
        f = lambda: r.choice([0., 1 - 1e-4, r.uniform(0, .9999)]) if edge else r.random()
        if not n:
            return f()
        return np.array([f() for _ in range(n[0])])
    return rng


def fills(pts, dims, tol):
    """one point per cell of the grid (points within tol of a cell edge may count for either side)"""
    n = 1
    for d in dims:
        n *= d
    if len(pts) != n:
        return False
    seen, loose = set(), 0
    for p in pts:
        v = [float(x) * d for x, d in zip(p, dims)]
        if any(abs(x - round(x)) < tol for x in v):
            loose += 1
            if any(x < -tol or x > d + tol for x, d in zip(v, dims)):
                return False
            continue
        k = tuple(int(math.floor(x)) for x in v)
        if any(i < 0 or i >= d for i, d in zip(k, dims)) or k in seen:
            return False
        seen.add(k)
    if loose:
        # the sorted coordinates still have to sit in their strata
        for a, d in enumerate(dims):
            for i, x in enumerate(sorted(float(p[a]) * d for p in pts)):
                s = i // (n // d)
                if not s - tol <= x <= s + 1 + tol:
                    return False
    return True


def strata(xs, n):
    return fills([[x] for x in xs], [n], 1e-9)


@task(quick=1500, thorough=40000, min_events=3000)
def patterns(c):
    r = c.rng
    n, nx, ny = r.randrange(1, 40), r.randrange(1, 9), r.randrange(1, 9)
    jit = r.random() < .7
    rng = rng_of(r)
    c.note(n=n, nx=nx, ny=ny, jitter=jit)
    c.sig(n, nx, ny, jit, c.index)
    a = su.stratified_sample_1d(n, jit, rng)
    c.check(len(a) == n and all(0 <= x < 1 for x in a), "1d-range", "values outside [0,1)", got=a)
    c.check(strata(a, n), "1d-strata", "strata not filled once each", got=a)
    b = su.stratified_sample_2d(nx, ny, jit, rng)
    c.check(b.shape == (nx * ny, 2) and bool(((b >= 0) & (b < 1)).all()), "2d-range", "values outside [0,1)^2", got=b)
    c.check(fills(b.tolist(), [nx, ny], 1e-9), "2d-strata", "cells not filled once each", got=b)
    if not jit:
        c.check(all(abs((x * n) % 1 - .5) < 1e-9 for x in a.tolist()), "1d-centre", "not centred", got=a)
        c.check(all(abs((x * nx) % 1 - .5) < 1e-9 and abs((y * ny) % 1 - .5) < 1e-9 for x, y in b.tolist()), "2d-centre", "not centred", got=b)
    d = su.latin_hypercube_1d(n, rng)
    c.check(len(d) == n and strata(d, n) and all(0 <= x < 1 for x in d), "lhs1-strata", "strata not filled once each", got=d)
    e = su.latin_hypercube_2d(n, rng)
    c.check(e.shape == (n, 2) and strata(e[:, 0], n) and strata(e[:, 1], n) and bool(((e >= 0) & (e < 1)).all()),
            "lhs2-strata", "rows/columns not filled once each", got=e)


@task(quick=30, thorough=200, min_events=20)
def randomness(c):
    """jitter is uniform inside its stratum; shuffles decorrelate"""
    r = c.rng
    n = r.randrange(2, 6)
    K, N = 8, 250
    h = {k: [0] * K for k in ("1d", "2dx", "2dy", "lx", "ly", "l1")}
    perm = {}
    perm1 = {}
    two = {"1d": {}, "2d": {}}
    for _ in range(N):
        for k, xs in (("1d", su.stratified_sample_1d(n)), ("l1", su.latin_hypercube_1d(n))):
            for x in xs:
                h[k][int((x * n) % 1 * K)] += 1
        perm1[int(xs[0] * n)] = perm1.get(int(xs[0] * n), 0) + 1
        k = (int(xs[0] * n), int(xs[1] * n))
        two["1d"][k] = two["1d"].get(k, 0) + 1
        b = su.stratified_sample_2d(n, n + 1)
        for x, y in b:
            h["2dx"][int((x * n) % 1 * K)] += 1
            h["2dy"][int((y * (n + 1)) % 1 * K)] += 1
        e = su.latin_hypercube_2d(n)
        for x, y in e:
            h["lx"][int((x * n) % 1 * K)] += 1
            h["ly"][int((y * n) % 1 * K)] += 1
        k = int([y for x, y in e if x * n < 1][0] * n)
        perm[k] = perm.get(k, 0) + 1
        k = tuple(int([y for x, y in e if int(x * n) == j][0] * n) for j in (0, 1))
        two["2d"][k] = two["2d"].get(k, 0) + 1
    c.sig(c.index)
    c.note(n=n)
    for k, o in h.items():
        bad, stat, dof = g.chi2_bad(o, [sum(o) / float(K)] * K)
        c.check(not bad, "jitter-" + k, "jitter is not uniform inside the stratum", cells=o)
    for k, o in (("2d", perm), ("1d", perm1)):
        bad, stat, dof = g.chi2_bad([o.get(i, 0) for i in range(n)], [N / float(n)] * n)
        c.check(not bad, "shuffle-" + k, "strata are not randomly paired", cells=o)
    # where one stratum goes says nothing more about where the next one goes
    cells = [(i, j) for i in range(n) for j in range(n) if i != j]
    for k, o in two.items():
        bad, stat, dof = g.chi2_bad([o.get(x, 0) for x in cells], [N / float(len(cells))] * len(cells))
        c.check(not bad, "pairing-" + k, "neighbouring strata are not shuffled independently", cells=sorted(o.items()))


class FakeLight(object):
    def __init__(self, ns):
        self.ns = ns


class FakeScene(object):
    def __init__(self, lights):
        self.lights = lights


def requested(r):
    """(sample prototype, wanted 1-D sizes, wanted 2-D sizes, description)"""
    xst = None
    k = r.choice(["plain", "manual", "all", "one", "path", "whitted"])
    scene = FakeScene([FakeLight(r.choice([1, 2, 4, 7])) for _ in range(r.randrange(1, 4))])
    samp = StratifiedSampler(0, 1, 0, 1, 1, 1, True, 0., 1.)
    if k == "plain":
        return Sample(), [], [], k
    if k == "manual":
        s = Sample()
        n1 = [r.randrange(1, 9) for _ in range(r.randrange(4))]
        n2 = [r.randrange(1, 9) for _ in range(r.randrange(4))]
        i1 = [s.add_1d(n) for n in n1]
        i2 = [s.add_2d(n) for n in n2]
        assert i1 == list(range(len(n1))) and i2 == list(range(len(n2)))
        return s, n1, n2, k
    if k == "all":
        integ = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM)
        ns = [l.ns for l in scene.lights]
        n1 = [n for x in ns for n in (x, x)]
        return Sample(samp, integ, None, scene), n1, n1, k
    if k == "one":
        integ = DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM)
        return Sample(samp, integ, None, scene), [1, 1, 1], [1, 1], k
    if k == "path":
        integ = PathIntegrator()
        d = integ.SAMPLE_DEPTH
        return Sample(samp, integ, None, scene), [1] * (4 * d), [1] * (3 * d), k
    return Sample(samp, WhittedIntegrator(), None, scene), [], [], k


@task(quick=900, thorough=20000, min_events=5000)
def stream(c):
    r = c.rng
    xst, yst = r.randrange(1, 7), r.randrange(1, 7)
    xs, ys = r.choice([0, r.randrange(-20, 20), r.randrange(0, 2000)]), r.choice([0, r.randrange(-20, 20), r.randrange(0, 2000)])
    w, h = r.randrange(1, 4), r.randrange(1, 4)
    jit = r.random() < .7
    t0 = r.choice([0., r.uniform(-2, 2)])
    t1 = t0 + r.choice([0., 1., r.uniform(0, 5)])
    proto, n1, n2, kind = requested(r)
    tiles = r.choice([0, 0, 2, 3, 4, 8])
    if tiles:
        # the sampler of one tile of a larger window follows the same pattern
        big = StratifiedSampler(xs, xs + w * r.randrange(1, 5), ys, ys + h * r.randrange(1, 5), xst, yst, jit, t0, t1)
        subs = [x for x in (big.get_subsampler(i, tiles) for i in range(tiles)) if x is not None]
        if not subs:
            return
        s = r.choice(subs)
        w, h = int(s.xPixel_end - s.xPixel_start), int(s.yPixel_end - s.yPixel_start)
        if w * h > 20:
            return
    else:
        s = StratifiedSampler(xs, xs + w, ys, ys + h, xst, yst, jit, t0, t1)
    n = s.maximum_sample_cnt()
    c.check(n == xst * yst, "count", "samples per pixel are not the product of the strata", got=n)
    if n != xst * yst:
        return
    rng = rng_of(r)
    c.note(window=[xs, xs + w, ys, ys + h], strata=[xst, yst], jitter=jit, shutter=[t0, t1], request=kind, n1=n1, n2=n2, tiles=tiles)
    c.sig(w, h, xst, yst, jit, kind, c.index)
    c.check(sorted(proto.n1D) == sorted(n1) and sorted(proto.n2D) == sorted(n2), "request", "requested arrays not recorded", got=[proto.n1D, proto.n2D])
    c.check(s.round_size(7) == 7, "round", "round_size")
    smp = proto.duplicate(n)
    c.check(len(smp) == n and len(set(map(id, smp))) == n, "duplicate", "duplicates are not separate")
    for pix in range(w * h):
        if not c.check(s.generate(smp, rng), "more", "stream ended early", pixel=pix):
            break
        px, py = math.floor(smp[0].imageX), math.floor(smp[0].imageY)
        fx = [x.imageX - px for x in smp]
        fy = [x.imageY - py for x in smp]
        c.check(all(0 <= f < 1 for f in fx + fy), "pixel", "image positions leave the pixel", px=px, py=py)
        c.check(fills(list(zip(fx, fy)), [xst, yst], 1e-6), "image-strata", "image strata not filled once each", got=[fx, fy])
        if not jit:
            c.check(all(abs((f * d) % 1 - .5) < 1e-6 for fs, d in ((fx, xst), (fy, yst)) for f in fs), "image-centre", "image positions are not centred", got=[fx, fy])
        lens = [(x.lens_u, x.lens_v) for x in smp]
        c.check(fills(lens, [xst, yst], 1e-9) and all(0 <= x.lens_u < 1 and 0 <= x.lens_v < 1 for x in smp), "lens-strata", "lens strata not filled once each", got=lens)
        c.check(all(min(t0, t1) - 1e-12 <= x.time <= t1 + 1e-12 for x in smp), "time-range", "time outside the shutter interval", got=[x.time for x in smp])
        if t1 - t0 > 1e-3:
            ts = [(x.time - t0) / (t1 - t0) for x in smp]
            c.check(fills([[x] for x in ts], [n], 1e-6), "time-strata", "time strata not filled once each", got=ts)
        arrs = []
        for x in smp:
            ok = [len(a) for a in x.oneD] == list(proto.n1D) and [np.shape(a) for a in x.twoD] == [(k, 2) for k in proto.n2D]
            if not c.check(ok, "sizes", "integrator arrays have the wrong size", n1=proto.n1D, n2=proto.n2D):
                break
            good = all(strata(a, len(a)) for a in x.oneD) and all(strata(a[:, 0], len(a)) and strata(a[:, 1], len(a)) for a in x.twoD)
            c.check(good, "lhs", "integrator array is not a Latin hypercube")
            arrs += [id(a) for a in x.oneD] + [id(a) for a in x.twoD]
        c.check(len(set(arrs)) == len(arrs), "separate", "samples share an integrator array")


@task(quick=20, thorough=100, min_events=5)
def decorrelated(c):
    """the shuffles really pair lens and time strata with image strata at random"""
    r = c.rng
    n = r.randrange(2, 4)
    N = 300
    s = StratifiedSampler(0, N, 0, 1, n, n, True, 0., 1.)
    smp = Sample().duplicate(n * n)
    lens, tm = [0] * (n * n), [0] * (n * n)
    pairs = [{}, {}]
    while s.generate(smp):
        f = [x for x in smp if (x.imageX % 1) * n < 1 and (x.imageY % 1) * n < 1]
        lens[int(f[0].lens_u * n) * n + int(f[0].lens_v * n)] += 1
        tm[int(f[0].time * n * n)] += 1
        if n == 2:
            f += [x for x in smp if (x.imageX % 1) * n >= 1 and (x.imageY % 1) * n < 1]
            for o, k in ((pairs[0], tuple(int(x.lens_u * n) * n + int(x.lens_v * n) for x in f)), (pairs[1], tuple(int(x.time * n * n) for x in f))):
                o[k] = o.get(k, 0) + 1
    c.sig(c.index)
    for k, o in (("lens", lens), ("time", tm)):
        bad, stat, dof = g.chi2_bad(o, [N / float(n * n)] * (n * n))
        c.check(not bad, k, "strata of different dimensions are not paired at random", cells=o)
    if n == 2:
        cells = [(i, j) for i in range(4) for j in range(4) if i != j]
        for k, o in zip(("lens", "time"), pairs):
            bad, stat, dof = g.chi2_bad([o.get(x, 0) for x in cells], [N / 12.] * 12)
            c.check(not bad, k + "-pairs", "neighbouring strata are not shuffled independently", cells=sorted(o.items()))
