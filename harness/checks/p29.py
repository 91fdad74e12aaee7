"""P29 spectra"""
import math
import numpy as np
from core import tasklist
import gen as g
from pytracer.spectral.spectrum import (xyz2rgb, rgb2xyz, SpectrumType, SampledSpectrum, RGBSpectrum, CoefficientSpectrum,
                                        SAMPLED_LAMBDA_START as L0, SAMPLED_LAMBDA_END as L1, N_SPECTRAL_SAMPLES as NS)

TASKS, task = tasklist()
RULE = ("RGB and sampled spectra with zero, negative and large entries; tables of 1-60 wavelengths sorted, reversed and shuffled, "
        "integer and float, with bin ends on and off tabulated wavelengths; distinct by values")
SampledSpectrum.init()

YW = [0.212671, 0.715160, 0.072169]


def comps(r, n=3):
    return [r.choice([0., 1., r.random(), r.uniform(0, 20), 1e-3 * r.random()]) for _ in range(n)]


@task(quick=2000, thorough=50000)
def arithmetic(c):
    r = c.rng
    sampled = r.random() < .4
    n = NS if sampled else 3
    mk = SampledSpectrum if sampled else (lambda v: RGBSpectrum(v))
    a, b = comps(r, n), comps(r, n)
    k = r.uniform(.1, 3)
    A, B = mk(a), mk(b)
    c.note(a=a[:4], b=b[:4], k=k, sampled=sampled)
    c.sig(a, b, k)
    C = type(A)
    for name, got, want in (
            ("add", A + B, [x + y for x, y in zip(a, b)]),
            ("sub", A - B, [x - y for x, y in zip(a, b)]),
            ("mul", A * B, [x * y for x, y in zip(a, b)]),
            ("scale", A * k, [x * k for x in a]),
            ("rscale", k * A, [x * k for x in a]),
            ("div", A / k, [x / k for x in a]),
            ("neg", -A, [-x for x in a]),
            ("sqrt", A.sqrt(), [math.sqrt(x) for x in a]),
            ("exp", (A * -.1).exp(), [math.exp(-.1 * x) for x in a]),
            ("pow", A.pow(k), [x ** k for x in a]),
            ("lerp", A.lerp(.3, B), [.7 * x + .3 * y for x, y in zip(a, b)]),
            ("clip", (A - B).clip(), [max(x - y, 0.) for x, y in zip(a, b)]),
            ("clip2", A.clip(.2, .7), [min(max(x, .2), .7) for x in a])):
        c.close(got, want, name, "not component-wise", tol=1e-9)
        c.check(type(got) is C, "type-" + name, "result type", got=type(got))
        got += 1.
        c.check(g.snap(A) == g.snap(a) and g.snap(B) == g.snap(b), "pure-" + name, "operation modified or aliases an operand")
    S = mk(a)
    S += B
    c.close(S, [x + y for x, y in zip(a, b)], "iadd", "", tol=1e-12)
    c.check(g.snap(B) == g.snap(b), "iadd-pure", "")
    cp = A.copy()
    cp *= 2.
    c.check(g.snap(A) == g.snap(a), "copy-alias", "copy aliases")
    c.check(bool(A == mk(a)) and not bool(A != mk(a)), "eq", "")
    if a != b:
        c.check(bool(A != B) and not bool(A == B), "ne", "")
    c.check(bool(A.is_black()) == all(x == 0. for x in a), "black", "is_black", a=a)
    c.check(bool(mk([0.] * n).is_black()), "black-zero", "")
    one = [0.] * n
    one[r.randrange(n)] = 10 ** r.uniform(-30, 0)
    c.check(not bool(mk(one).is_black()), "black-one", "spectrum with one non-zero component is black")
    c.check(not bool(A.has_nans()), "nans", "")
    bad = list(a)
    bad[r.randrange(n)] = float('nan')
    c.check(bool(mk(bad).has_nans()), "nans-one", "NaN component not detected")
    c.check(A.n_samples == n, "n_samples", "")
    if not sampled:
        for mkr in (RGBSpectrum.create, RGBSpectrum.create_from_list):
            src = list(a)
            S = mkr(src)
            S += 1.
            c.check(src == list(a) and type(S) is RGBSpectrum, "create-list", "")
            c.close(S, [x + 1 for x in a], "create-list", "", tol=1e-12)
        arr = np.array(a)
        for mkr in (RGBSpectrum.create_from_array, RGBSpectrum.create, RGBSpectrum, RGBSpectrum.from_rgb):
            S = mkr(arr)
            S += 1.
            c.check(g.snap(arr) == g.snap(a), "create-alias", "spectrum aliases the array it was created from")
        I = RGBSpectrum(r.randrange(3))
        v = float(I[0])
        I += .25
        c.close(I, [v + .25] * 3, "int-ctor", "spectrum created from an integer cannot accumulate", tol=1e-12)
    # whole numbers are numbers: whatever a spectrum is built from, it computes in full precision
    ints = [r.randrange(4) for _ in range(n)]
    cls = SampledSpectrum if sampled else RGBSpectrum
    for mkr in (cls.create, cls.create_from_list, cls) if sampled else (cls.create, cls.create_from_list, cls, cls.from_rgb):
        for src in (list(ints), np.array(ints)):
            if isinstance(src, np.ndarray) and mkr == cls.create_from_list:
                S = cls.create_from_array(src)
            else:
                S = mkr(src)
            S *= .5
            S += .25
            c.close(S, [x * .5 + .25 for x in ints], "int-list", "spectrum created from whole numbers cannot be scaled", tol=1e-12)


@task(quick=1500, thorough=30000)
def colour(c):
    r = c.rng
    rgb, b = comps(r), comps(r)
    k = r.uniform(-2, 2)
    c.note(rgb=rgb)
    c.sig(rgb, b)
    x = rgb2xyz(rgb)
    m = 1 + max(rgb)
    c.close(np.array(xyz2rgb(x)) / m, np.array(rgb) / m, "roundtrip", "RGB->XYZ->RGB", tol=2e-5)
    c.close(np.array(rgb2xyz(xyz2rgb(rgb))) / m, np.array(rgb) / m, "roundtrip2", "XYZ->RGB->XYZ", tol=2e-5)
    c.close(rgb2xyz([p + k * q for p, q in zip(rgb, b)]), np.array(x) + k * np.array(rgb2xyz(b)), "linear", "", tol=1e-9)
    c.close(xyz2rgb([p + k * q for p, q in zip(rgb, b)]), np.array(xyz2rgb(rgb)) + k * np.array(xyz2rgb(b)), "linear2", "", tol=1e-9)
    S = RGBSpectrum(rgb)
    y = sum(p * q for p, q in zip(YW, rgb))
    c.close(S.y(), y, "luminance", "", tol=1e-6)
    c.close(x[1], y, "luminance-xyz", "luminance is not the Y component", tol=1e-6)
    c.close(S.to_xyz(), x, "to-xyz", "", tol=1e-9)
    c.close(np.array(RGBSpectrum.from_xyz(x)) / m, np.array(rgb) / m, "from-xyz", "", tol=2e-5)
    R = S.to_rgb()
    c.close(R, rgb, "to-rgb", "", tol=1e-12)
    R += 1.
    c.check(g.snap(S) == g.snap(rgb), "to-rgb-alias", "to_rgb aliases")
    c.close(S * k, np.array(rgb) * k, "scale", "", tol=1e-9)
    c.close((S * k).y(), k * y, "luminance-linear", "", tol=1e-6)
    # sampled spectra
    u = [v / max(1., max(rgb)) for v in rgb]
    for tp in SpectrumType:
        sp = SampledSpectrum.from_rgb(u, tp)
        c.check(bool(np.all(np.array(sp) >= 0)), "sampled-nonneg", "")
        back = np.array(sp.to_rgb())
        c.check(float(np.max(np.abs(back - np.array(u)))) < .06 + .2 * max(u), "sampled-roundtrip",
                "RGB -> sampled -> RGB far off", rgb=u, back=back, tp=str(tp))
        s2 = SampledSpectrum.from_rgb([.5 * v for v in u], tp)
        c.close(s2, .5 * np.array(sp), "sampled-scale", "conversion is not homogeneous", tol=1e-9)
        yy = float(sp.y())
        c.close(yy, float(np.array(sp.to_xyz())[1]), "sampled-y", "luminance is not the Y component", tol=1e-9)
    lo = min(u)
    hi = max(u)
    if hi - lo > .2:
        # the brightest primary dominates where its basis lives
        back = np.array(SampledSpectrum.from_rgb(u).to_rgb())
        i, j = u.index(hi), u.index(lo)
        c.check(back[i] > back[j], "sampled-order", "conversion exchanged channels", rgb=u, back=back)


def pl_integral(lam, v, a, b):
    """exact integral of the piecewise-linear curve with constant extension"""
    def f(x):
        if x <= lam[0]:
            return v[0]
        if x >= lam[-1]:
            return v[-1]
        for i in range(len(lam) - 1):
            if lam[i] <= x <= lam[i + 1]:
                t = (x - lam[i]) / (lam[i + 1] - lam[i])
                return (1 - t) * v[i] + t * v[i + 1]
    xs = [a] + [x for x in lam if a < x < b] + [b]
    return sum((f(p) + f(q)) * .5 * (q - p) for p, q in zip(xs, xs[1:]))


@task(quick=1200, thorough=25000)
def average(c):
    r = c.rng
    n = r.choice([1, 2, 3, 5, 10, 30])
    ints = r.random() < .5
    lam = set()
    while len(lam) < n:
        lam.add(r.randrange(380, 721, 5) if ints else r.uniform(350, 750))
    lam = sorted(lam)
    v = [r.choice([0, 1, 5]) if ints else r.uniform(0, 4) for _ in lam]
    k = r.random()
    a = r.uniform(340, 740) if k < .5 else float(r.choice(lam))
    b = a + (r.uniform(.5, 150) if r.random() < .5 else 10.)
    if r.random() < .3 and lam[-1] > a:
        b = float(r.choice([x for x in lam if x > a]))
    c.note(lam=lam, v=v, a=a, b=b)
    c.sig(lam, v, a, b)
    for mk in (list, lambda x: np.array(x, dtype=float), np.array):
        la, va = mk(lam), mk(v)
        ka, kv = list(map(float, la)), list(map(float, va))
        got = SampledSpectrum.average_spectrum_samples(la, va, a, b)
        c.close(float(got), pl_integral(lam, v, a, b) / (b - a), "average", "average over the interval is wrong", tol=1e-8,
                container=str(type(la)))
        c.check(list(map(float, la)) == ka and list(map(float, va)) == kv, "average-pure", "input table modified")


@task(quick=120, thorough=2500)
def from_sampled(c):
    r = c.rng
    n = r.choice([1, 2, 4, 12, 31, 60])
    ints = r.random() < .5
    lam = set()
    while len(lam) < n:
        lam.add(r.randrange(380, 721) if ints else r.uniform(350, 750))
    lam = sorted(lam)
    if r.random() < .2:
        lam = [float(x) for x in range(400, 401 + 10 * (n - 1), 10)]
    v = [r.uniform(0, 4) for _ in lam]
    perm = list(range(len(lam)))
    m = r.randrange(3)
    if m == 1:
        perm.reverse()
    elif m == 2:
        r.shuffle(perm)
    pl, pv = [lam[i] for i in perm], [v[i] for i in perm]
    conv = r.choice([list, tuple, np.array])
    al, av = conv(pl), conv(pv)
    c.note(lam=pl, v=pv, conv=str(conv))
    c.sig(pl, pv)
    S = SampledSpectrum.from_sampled(al, av)
    w = (L1 - L0) / float(NS)
    want = [pl_integral(lam, v, L0 + i * w, L0 + (i + 1) * w) / w for i in range(NS)]
    c.close(S, want, "resample", "resampled bins are not the averages of the curve", tol=1e-7)
    c.check(list(al) == pl and list(av) == pv, "resample-pure", "input modified")
    rgb = RGBSpectrum.from_sampled(al, av)
    c.check(type(rgb) is RGBSpectrum, "resample-rgb-type", "")
    # linear functional: scaling the table scales the colour
    rgb2 = RGBSpectrum.from_sampled(al, conv([2. * x for x in pv]))
    c.close(rgb2, 2. * np.array(rgb), "resample-rgb-linear", "", tol=1e-9)
    c.close(rgb, np.array(S.to_rgb()), "resample-rgb", "", tol=1e-9)


@task(quick=1, thorough=1)
def cie(c):
    """basis tables: bins are averages of the CIE tables; constant spectrum has unit luminance"""
    from pytracer.data import spectral as d
    w = (L1 - L0) / float(NS)
    for nm, tab in (("X", d.CIE_X), ("Y", d.CIE_Y), ("Z", d.CIE_Z)):
        lam = [float(x) for x in d.CIE_LAMBDA]
        want = [pl_integral_fast(lam, tab, L0 + i * w, L0 + (i + 1) * w) / w for i in range(NS)]
        c.close(getattr(SampledSpectrum, nm), want, "cie-" + nm, "CIE basis wrong", tol=1e-7)
        c.sig(nm)
    one = SampledSpectrum([1.] * NS)
    c.check(abs(float(one.y()) - 1.) < .01, "unit-luminance", "flat unit spectrum has luminance %r" % float(one.y()))
    c.note(y=float(one.y()))
    before = list(map(float, d.CIE_Y))
    SampledSpectrum.init()
    c.check(list(map(float, d.CIE_Y)) == before, "tables-pure", "initialisation modified the CIE tables")


def pl_integral_fast(lam, v, a, b):
    xs = sorted(set([a, b] + [x for x in lam if a < x < b]))
    f = np.interp(xs, lam, v)
    return float(sum((p + q) * .5 * (y - x) for p, q, x, y in zip(f, f[1:], xs, xs[1:])))
