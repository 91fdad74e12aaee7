"""P40 helper mathematics"""
import math
import numpy as np
from core import tasklist
import gen as g
import pytracer.utility.utility as u
from pytracer import Spectrum, EPS

TASKS, task = tasklist()
RULE = "random, boundary, negative, integer and half-integer numbers; distinct by value"


def x_(r):
    k = r.random()
    if k < .3:
        return float(r.randrange(-1000, 1000))
    if k < .4:
        return r.randrange(-1000, 1000) + .5
    if k < .5:
        return r.gauss(0, 1e-6)
    return r.gauss(0, 10 ** r.uniform(-2, 5))


@task(quick=4000, thorough=100000)
def scalars(c):
    r = c.rng
    x, y, t = x_(r), x_(r), r.choice([0., 1., r.random(), r.uniform(-1, 2)])
    c.note(x=x, y=y, t=t)
    c.sig(x, y, t)
    c.check(u.ftoi(x) == math.floor(x) and isinstance(u.ftoi(x), int), "ftoi", "", got=u.ftoi(x))
    c.check(u.ctoi(x) == math.ceil(x) and isinstance(u.ctoi(x), int), "ctoi", "", got=u.ctoi(x))
    c.check(abs(u.rtoi(x) - x) <= .5 and isinstance(u.rtoi(x), int), "rtoi", "", got=u.rtoi(x))
    c.close(u.lerp(t, x, y), x + t * (y - x), "lerp", "", tol=1e-9)
    slack = 1e-12 * (abs(x) + abs(y))
    c.check(abs(u.lerp(0., x, y) - x) <= slack and abs(u.lerp(1., x, y) - y) <= slack, "lerp-ends", "")
    ts = sorted(r.choice([0., 1., r.random(), r.uniform(-1, 2)]) for _ in range(4))
    ls = [u.lerp(e, x, y) for e in ts]
    up = 1 if y >= x else -1
    c.check(all(up * (ls[k + 1] - ls[k]) >= -slack * 4 for k in range(3)), "lerp-monotone", "interpolation is not monotone", ts=ts, got=ls)
    a = np.array([x_(r) for _ in range(4)])
    b = np.array([x_(r) for _ in range(4)])
    ka, kb = a.tobytes(), b.tobytes()
    c.close(u.ufunc_lerp(t, a, b), (1 - t) * a + t * b, "ufunc-lerp", "", tol=1e-9)
    c.check(a.tobytes() == ka and b.tobytes() == kb, "ufunc-pure", "")
    d = r.choice([0., EPS * .5, -EPS * .5, EPS * 2, -EPS * 2, r.gauss(0, 1)])
    c.check(bool(u.eq_unity(1. + d)) == (abs(d) < EPS), "eq-unity", "", d=d)
    c.check(bool(u.ne_unity(1. + d)) == (abs(d) > EPS), "ne-unity", "", d=d)
    c.check(bool(u.is_zero(d)) == (abs(d) < EPS), "is-zero", "", d=d)
    c.check(bool(u.not_zero(d)) == (abs(d) > EPS), "not-zero", "", d=d)
    s = r.choice([0., 1., -1., .5])
    c.check(bool(u.feq(s, s + d)) == (abs(d) < 2.5 * EPS if abs(d) != 2 * EPS else bool(u.feq(s, s + d))), "feq", "", d=d)
    e, m = abs(d), r.choice([0., 1., .5])
    for fn, at in ((u.eq_unity, 1.), (u.ne_unity, 1.), (u.is_zero, 0.), (u.not_zero, 0.), (lambda q: u.feq(m, q), m), (lambda q: u.feq(q, m), m)):
        if abs(e - EPS) > 1e-3 * EPS and abs(e - 2 * EPS) > 1e-3 * EPS:
            c.check(bool(fn(at + e)) == bool(fn(at - e)), "symmetric", "a tolerance test is lopsided", at=at, off=e)
    c.check(bool(u.feq(x, y)) == bool(u.feq(y, x)), "feq-symmetric", "equality depends on the order")
    lo, hi = sorted((x_(r), x_(r)))
    c.check(float(u.clip(x, lo, hi)) == min(max(x, lo), hi), "clip", "", lo=lo, hi=hi)
    c.check(float(u.clip(x)) == max(x, 0.), "clip-default", "")
    v = [r.gauss(0, 1) for _ in range(3)]
    S = Spectrum(v)
    lo, hi = sorted((r.gauss(0, 1), r.gauss(0, 1)))
    q = u.clip(S, lo, hi)
    c.close(q, [min(max(e, lo), hi) for e in v], "clip-spectrum", "", tol=0)
    c.check(type(q) is Spectrum and g.snap(S) == g.snap(v), "clip-pure", "")
    c.check(not bool(u.is_black(Spectrum([0., 0., r.choice([-1., 1.]) * (.1 + abs(v[0]))]))), "is-black", "")
    tiny = r.choice([-1., 1.]) * 10 ** r.uniform(-30, -3)
    c.check(not bool(u.is_black(Spectrum([0., tiny, 0.]))) and not bool(u.is_black(np.array([tiny, 0., 0.]))) and not bool(u.is_black(tiny)),
            "is-black-tiny", "something that is not zero counts as black", value=tiny)
    c.check(bool(u.is_black(Spectrum(0.))) and bool(u.is_black(0.)) and not bool(u.is_black(.5)), "is-black0", "")


@task(quick=2000, thorough=50000)
def powers(c):
    r = c.rng
    k = r.randrange(0, 40)
    n = max(1, (1 << k) + r.choice([0, 0, 1, -1, r.randrange(1 << k)]))
    c.note(n=n)
    c.sig(n)
    c.check(bool(u.is_pow_2(n)) == (bin(n).count("1") == 1), "is-pow2", "", got=u.is_pow_2(n))
    p = u.next_pow_2(n)
    w = 1
    while w < n:
        w *= 2
    c.check(p == w and isinstance(p, int), "next-pow2", "next power of two", got=p, want=w)
    q = u.round_pow_2(n)
    c.check(bin(q).count("1") == 1 and q <= 2 * n and n <= 2 * q, "round-pow2", "", got=q)
    lo, hi = w // 2 or 1, w
    near = lo if abs(math.log2(n) - math.log2(lo)) < abs(math.log2(hi) - math.log2(n)) else hi
    if abs(abs(math.log2(n) - math.log2(lo)) - abs(math.log2(hi) - math.log2(n))) > 1e-9:
        c.check(q == near, "round-pow2-near", "not the nearest power (in log scale)", got=q, want=near)
