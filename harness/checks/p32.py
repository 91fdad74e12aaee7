"""P32 participating media"""
import math
import numpy as np
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.transform import Transform
from pytracer.volume.volume import (HomogeneousVolumeDensity, VolumeGridDensity, ExponentialDensity, AggregateVolume)
from pytracer.volume.utility import phase_hg

TASKS, task = tasklist()
RULE = ("homogeneous, exponential and grid regions and aggregates under random affine placements; rays through, missing, "
        "starting inside, with finite ranges; distinct by region and ray")


def spec(r):
    return [r.choice([0., r.random(), r.uniform(0, 3)]) for _ in range(3)]


def region(r, kind):
    T, M, desc = g.affine(r)
    a = [r.uniform(-3, 0) for _ in range(3)]
    b = [x + r.uniform(.3, 4) for x in a]
    box = geo.BBox(g.P(a), g.P(b))
    sa, ss, le, gg = spec(r), spec(r), spec(r), r.uniform(-.9, .9)
    info = dict(kind=kind, T=desc, lo=a, hi=b, sa=sa, ss=ss, le=le, g=gg)
    if kind == 0:
        R = HomogeneousVolumeDensity(Spectrum(sa), Spectrum(ss), gg, Spectrum(le), box, T)
        dens = lambda p: 1.
    elif kind == 1:
        A, B, up = r.uniform(.1, 2), r.uniform(.05, 1), g.unit(r)
        R = ExponentialDensity(Spectrum(sa), Spectrum(ss), gg, Spectrum(le), box, T, A, B, g.V(g.mul(up, r.uniform(.5, 3))))
        info.update(a=A, b=B, up=up)
        dens = lambda p: A * math.exp(-B * g.dot(g.sub(p, a), up))
    else:
        nx, ny, nz = [r.randrange(1, 5) for _ in range(3)]
        d = np.array([[[r.choice([0., r.random()]) for _ in range(nx)] for _ in range(ny)] for _ in range(nz)])
        src = d.copy()
        R = VolumeGridDensity(Spectrum(sa), Spectrum(ss), gg, Spectrum(le), box, T, d)
        d += 7.   # the region must keep its own copy
        info.update(n=[nx, ny, nz])

        def dens(p):
            q = [(p[i] - a[i]) / (b[i] - a[i]) * n - .5 for i, n in enumerate((nx, ny, nz))]
            f = [math.floor(x) for x in q]
            tot = 0.
            for dz in (0, 1):
                for dy in (0, 1):
                    for dx in (0, 1):
                        w = 1.
                        ix = []
                        for i, (o, n) in enumerate(((dx, nx), (dy, ny), (dz, nz))):
                            t = q[i] - f[i]
                            w *= t if o else 1 - t
                            ix.append(min(max(int(f[i]) + o, 0), n - 1))
                        tot += w * float(src[ix[2]][ix[1]][ix[0]])
            return tot
    inv = g.m_inv_affine(M)

    def density(pw):
        """(density, safely decidable)"""
        p = g.m_pt(inv, pw)
        e = 1e-9 * (1 + max(abs(x) for x in pw)) * (1 + max(abs(x) for row in inv for x in row))
        if any(abs(p[i] - a[i]) < e or abs(p[i] - b[i]) < e for i in range(3)):
            return None
        if any(p[i] < a[i] or p[i] > b[i] for i in range(3)):
            return 0.
        return dens(p)
    return R, M, info, density


def interval(M, info, o, d, mint, maxt):
    inv = g.m_inv_affine(M)
    p, v = g.m_pt(inv, o), g.m_vec(inv, d)
    w0, w1 = mint, maxt
    for i in range(3):
        if abs(v[i]) < 1e-12:
            if p[i] < info['lo'][i] or p[i] > info['hi'][i]:
                return 1., 0.
        else:
            x, y = (info['lo'][i] - p[i]) / v[i], (info['hi'][i] - p[i]) / v[i]
            w0, w1 = max(w0, min(x, y)), min(w1, max(x, y))
    return w0, w1


def ray_for(r, M, info):
    k = r.random()
    tgt = [r.uniform(a - .3, b + .3) for a, b in zip(info['lo'], info['hi'])]
    tgt = g.m_pt(M, tgt)
    if k < .3:
        o = g.m_pt(M, [r.uniform(a, b) for a, b in zip(info['lo'], info['hi'])])
        d = g.mul(g.gunit(r), math.exp(r.uniform(-1, 1)))
    else:
        o = [x + r.gauss(0, 6) for x in tgt]
        d = g.mul(g.nrm(g.sub(tgt, o)), math.exp(r.uniform(-1, 1)))
    mint = r.choice([0., 0., r.uniform(0, 3)])
    maxt = r.choice([math.inf, mint + r.uniform(.1, 12)])
    return o, d, mint, maxt


@task(quick=1500, thorough=30000)
def points(c):
    r = c.rng
    kind = r.randrange(3)
    R, M, info, density = region(r, kind)
    c.note(**info)
    c.sig(info)
    wb = R.world_bound()
    for _ in range(6):
        q = [r.uniform(a - .5, b + .5) for a, b in zip(info['lo'], info['hi'])]
        if r.random() < .6:
            q = [r.uniform(a, b) for a, b in zip(info['lo'], info['hi'])]
        p = g.m_pt(M, q)
        d = density(p)
        if d is None:
            continue
        c.event("inside" if d > 0 else "zero")
        P, w = g.P(p), g.V(g.gunit(r))
        tm = r.random()
        sc = lambda s: [x * d for x in s]
        c.close(R.sigma_a(P, w, tm), sc(info['sa']), "sigma-a", "absorption wrong", tol=1e-7, p=p)
        c.close(R.sigma_s(P, w, tm), sc(info['ss']), "sigma-s", "scattering wrong", tol=1e-7, p=p)
        c.close(R.sigma_t(P, w, tm), sc([x + y for x, y in zip(info['sa'], info['ss'])]), "sigma-t",
                "extinction is not absorption plus scattering", tol=1e-7, p=p)
        c.close(R.lve(P, w, tm), sc(info['le']), "emission", "emission wrong", tol=1e-7, p=p)
        wi, wo = g.gunit(r), g.gunit(r)
        inside = all(info['lo'][i] < q[i] < info['hi'][i] for i in range(3))
        if inside:
            c.close(float(R.p(P, g.V(wi), g.V(wo), tm)), float(phase_hg(g.V(wi), g.V(wo), info['g'])), "phase",
                    "phase function does not use the region's asymmetry", tol=1e-9)
            e = 1e-9 * (1 + max(abs(x) for x in p))
            c.check(bool(np.all(np.array(p) >= np.array(wb.pMin) - e) and np.all(np.array(p) <= np.array(wb.pMax) + e)), "bound",
                    "world bound misses a point of the region", p=p, lo=wb.pMin, hi=wb.pMax)
        c.check(g.snap(P) == g.snap(p), "pure", "point modified")


@task(quick=1200, thorough=25000)
def rays(c):
    r = c.rng
    kind = r.randrange(3)
    R, M, info, density = region(r, kind)
    o, d, mint, maxt = ray_for(r, M, info)
    c.note(o=o, d=d, mint=mint, maxt=maxt, **info)
    c.sig(info, o, d, mint, maxt)
    ray = geo.Ray(g.P(o), g.V(d), mint, maxt, 2, .3)
    s = g.ray_snap(ray)
    w0, w1 = interval(M, info, o, d, mint, maxt)
    hit, t0, t1 = R.intersect_p(ray)
    if abs(w1 - w0) < 1e-7 * (1 + abs(w0)):
        return
    want = w0 < w1
    c.event("hit" if want else "miss")
    c.check(bool(hit) == want, "hit", "ray-region answer wrong", want=[w0, w1])
    if want and hit:
        c.close([t0, t1], [w0, w1], "interval", "interval inside the region wrong", tol=1e-7)
    st = [x + y for x, y in zip(info['sa'], info['ss'])]
    L = g.ln(d) * (w1 - w0) if want else 0.
    if kind == 0:
        tau = R.tau(ray)
        c.close(tau, [x * L for x in st], "tau-homogeneous", "optical thickness is not extinction times length", tol=1e-7)
        if want:
            # additive over consecutive segments and the same backwards
            tm = r.uniform(w0, w1)
            A = R.tau(geo.Ray(g.P(o), g.V(d), mint, tm))
            B = R.tau(geo.Ray(g.P(o), g.V(d), tm, maxt))
            c.close(np.array(A) + np.array(B), np.array(tau), "tau-additive", "not additive over segments", tol=1e-7)
            if math.isfinite(maxt):
                e = [o[i] + maxt * d[i] for i in range(3)]
                back = R.tau(geo.Ray(g.P(e), g.V(g.mul(d, -1)), 0., maxt - mint))
                c.close(back, np.array(tau), "tau-reverse", "depends on the direction of travel", tol=1e-6)
            T = np.exp(-np.array(tau))
            c.check(bool(np.all(T <= 1 + 1e-12) and np.all(T >= 0)), "transmittance", "transmittance outside [0,1]")
    else:
        n = 150
        step = max(L, 1e-3) / n
        u = r.random()
        tau = np.array(R.tau(ray, step, u))
        if want:
            acc = 0.
            m = 400
            top = 0.
            for i in range(m):
                t = w0 + (w1 - w0) * (i + .5) / m
                v = density([o[k] + t * d[k] for k in range(3)]) or 0.
                acc += v
                top = max(top, v)
            I = acc / m * L
            tol = 3 * step * top + .02 * I + 1e-9
            for k in range(3):
                c.check(abs(tau[k] - I * st[k]) <= tol * st[k] + 1e-12, "tau-integral",
                        "optical thickness is not the integral of extinction", got=tau, want=[I * x for x in st], tol=tol)
            # at any step the estimate averaged over its offset is the integral
            m = 64
            step = L * r.uniform(.4, 1.2)
            if step > 1e-6 and r.random() < .5:
                mean = sum(np.array(R.tau(ray, step, (i + .5) / m)) for i in range(m)) / m
                tol = 3 * step / m * top + .02 * I + 1e-9
                for k in range(3):
                    c.check(abs(mean[k] - I * st[k]) <= tol * st[k] + 1e-12, "tau-offsets",
                            "thickness averaged over the sampling offset is not the integral of extinction",
                            got=mean, want=[I * x for x in st], tol=tol, step=step)
        else:
            c.close(tau, [0.] * 3, "tau-miss", "missing ray has thickness", tol=1e-12)
    c.check(g.ray_snap(ray) == s, "ray-mutated", "ray modified")


@task(quick=300, thorough=5000)
def aggregate(c):
    r = c.rng
    items = [region(r, r.randrange(3)) for _ in range(r.randrange(1, 4))]
    A = AggregateVolume([x[0] for x in items])
    c.note(regions=[x[2] for x in items])
    c.sig([x[2] for x in items])
    w, tm = g.V(g.gunit(r)), r.random()
    for _ in range(4):
        it = r.choice(items)
        p = g.m_pt(it[1], [r.uniform(a, b) for a, b in zip(it[2]['lo'], it[2]['hi'])])
        ds = [x[3](p) for x in items]
        if any(d is None for d in ds):
            continue
        P = g.P(p)
        for nm, key in (("sigma_a", "sa"), ("sigma_s", "ss"), ("lve", "le")):
            want = [sum(d * x[2][key][k] for d, x in zip(ds, items)) for k in range(3)]
            c.close(getattr(A, nm)(P, w, tm), want, "sum-" + nm, "aggregate is not the sum of its members", tol=1e-7)
        want = [sum(d * (x[2]["sa"][k] + x[2]["ss"][k]) for d, x in zip(ds, items)) for k in range(3)]
        c.close(A.sigma_t(P, w, tm), want, "sum-sigma_t", "aggregate is not the sum of its members", tol=1e-7)
        wi, wo = g.V(g.gunit(r)), g.V(g.gunit(r))
        yw = [0.212671, 0.715160, 0.072169]
        wt = [d * sum(y * s for y, s in zip(yw, x[2]['ss'])) for d, x in zip(ds, items)]
        if sum(wt) > 1e-6:
            ph = sum(t * float(phase_hg(wi, wo, x[2]['g'])) for t, x in zip(wt, items)) / sum(wt)
            c.close(float(A.p(P, wi, wo, tm)), ph, "phase", "aggregate phase is not the scattering-weighted mean", tol=1e-6)
        wb = A.world_bound()
        e = 1e-9 * (1 + max(abs(x) for x in p))
        c.check(bool(np.all(np.array(p) >= np.array(wb.pMin) - e) and np.all(np.array(p) <= np.array(wb.pMax) + e)), "bound",
                "aggregate bound misses a member's point")
    it = r.choice(items)
    o, d, mint, maxt = ray_for(r, it[1], it[2])
    ray = geo.Ray(g.P(o), g.V(d), mint, maxt)
    ivs = [interval(x[1], x[2], o, d, mint, maxt) for x in items]
    if all(abs(b - a) > 1e-7 * (1 + abs(a)) for a, b in ivs):
        on = [(a, b) for a, b in ivs if a < b]
        hit, t0, t1 = A.intersect_p(ray)
        c.check(bool(hit) == bool(on), "hit", "aggregate ray answer wrong")
        if on and hit:
            c.close([t0, t1], [min(a for a, b in on), max(b for a, b in on)], "interval", "aggregate interval wrong", tol=1e-7)
    step, u = r.choice([.5, 1., r.uniform(.2, 2.)]), r.choice([.5, 0., r.random(), r.random()])
    tot = sum(np.array(x[0].tau(ray, step, u)) for x in items) if math.isfinite(maxt) or True else 0
    c.close(A.tau(ray, step, u), tot, "sum-tau", "aggregate thickness is not the sum of its members", tol=1e-9)


# Jensen et al. 2001, mm^-1: reduced scattering, absorption
PUBLISHED = {
    "Apple": ((2.29, 2.39, 1.97), (.0030, .0034, .046)), "Chicken1": ((.15, .21, .38), (.015, .077, .19)),
    "Chicken2": ((.19, .25, .32), (.018, .088, .20)), "Cream": ((7.38, 5.47, 3.15), (.0002, .0028, .0163)),
    "Ketchup": ((.18, .07, .03), (.061, .97, 1.45)), "Marble": ((2.19, 2.62, 3.00), (.0021, .0041, .0071)),
    "Potato": ((.68, .70, .55), (.0024, .0090, .12)), "Skimmilk": ((.70, 1.22, 1.90), (.0014, .0025, .0142)),
    "Skin1": ((.74, .88, 1.01), (.032, .17, .48)), "Skin2": ((1.09, 1.59, 1.79), (.013, .070, .145)),
    "Spectralon": ((11.6, 20.4, 14.9), (0., 0., 0.)), "Wholemilk": ((2.55, 3.21, 3.77), (.0011, .0024, .014))}


@task(quick=40, thorough=200, min_events=50)
def measured(c):
    """named media: published coefficients, absorption first, the same on every query"""
    from pytracer.volume.utility import get_volume_scattering
    from pytracer.data.volume import MEASURED_SUF_SC
    r = c.rng
    name = r.choice(sorted(PUBLISHED))
    c.note(name=name)
    c.sig(name)
    ss, sa = PUBLISHED[name]
    for _ in range(2):
        got_a, got_s = get_volume_scattering(name)
        c.close([float(x) for x in got_a.c], sa, "absorption", "absorption of a measured medium is not the published one", tol=1e-12)
        c.close([float(x) for x in got_s.c], ss, "scattering", "reduced scattering of a measured medium is not the published one", tol=1e-12)
        c.event("published")
        got_a *= 3.     # the caller's copy
        got_s += got_a
    other = r.choice(sorted(MEASURED_SUF_SC))
    a, s = get_volume_scattering(other)
    c.note(other=other)
    c.check(all(x >= 0. for x in list(a.c) + list(s.c)), "positive", "negative coefficient")
    for bad in ("apple ", "", other + "x"):
        c.check(list(get_volume_scattering(bad)) == [None, None], "unknown", "coefficients for an unknown medium", bad=bad)
