"""P16 tabulated distributions"""
import math
import bisect
from core import tasklist
import gen as g
import numpy as np
from pytracer.montecarlo import Distribution1D, Distribution2D

TASKS, task = tasklist()
RULE = "tables of 1..40 cells (1-D) and up to 8x8 (2-D) with leading, trailing, inner and all-zero cells and wide dynamic range; numbers at 0, at every CDF step, just below one and random"

BELOW = 1. - 2. ** -53


def table(r, n, allzero=False):
    if allzero:
        return [0.] * n
    k = r.random()
    if k < .3:
        t = [r.random() for _ in range(n)]
    elif k < .6:
        t = [r.random() if r.random() < .5 else 0. for _ in range(n)]
    elif k < .8:
        t = [10 ** r.uniform(-4, 4) if r.random() < .8 else 0. for _ in range(n)]
    else:
        t = [0.] * n
        t[r.randrange(n)] = r.uniform(.1, 5)
    if r.random() < .3:
        for i in range(r.randrange(n)):
            t[i] = 0.
    if r.random() < .3:
        for i in range(r.randrange(n)):
            t[n - 1 - i] = 0.
    if not any(t):
        t[r.randrange(n)] = 1.
    return t


class Ref(object):
    def __init__(self, t):
        self.n = len(t)
        self.t = t if any(t) else [1.] * self.n
        self.tot = math.fsum(self.t)
        acc = [0.]
        for x in self.t:
            acc.append(acc[-1] + x)
        self.cdf = [x / acc[-1] for x in acc]

    def inv(self, u):
        """(x, cell)"""
        i = bisect.bisect_right(self.cdf, u) - 1
        i = max(0, min(self.n - 1, i))
        while self.t[i] == 0. and i > 0:
            i -= 1
        w = self.cdf[i + 1] - self.cdf[i]
        return (i + min(1., max(0., (u - self.cdf[i]) / w))) / self.n, i

    def dens(self, i):
        return self.t[i] * self.n / self.tot


def numbers(r, ref):
    us = [0., BELOW] + [r.random() for _ in range(5)]
    us += [x for x in r.sample(ref.cdf, min(4, len(ref.cdf))) if x < 1.]
    return us


@task(quick=2500, thorough=60000, min_events=20000)
def one(c):
    r = c.rng
    n = r.choice([1, 2, 3, r.randrange(1, 40)])
    zero = r.random() < .07
    t = table(r, n, zero)
    arg = np.array(t) if r.random() < .6 else list(t)
    c.note(table=t)
    c.sig(t)
    d = Distribution1D(arg)
    c.check(list(arg) == t, "argument", "the caller's table was modified")
    if r.random() < .5:
        # the caller goes on to reuse its table
        arg[:] = [r.uniform(0., 9.) for _ in t]
        c.event("table-reused")
    else:
        arg = None
    ref = Ref(t)
    if zero:
        c.event("all-zero")
    for u in numbers(r, ref):
        x, pdf = d.sample_cont(u)
        c.check(math.isfinite(x) and 0 <= x <= 1, "range", "sample outside [0,1]", u=u, x=x)
        i = min(n - 1, max(0, int(math.floor(x * n))))
        edge = abs(x * n - round(x * n)) < 1e-9
        near = [i] if not edge else [j for j in (i - 1, i, i + 1) if 0 <= j < n]
        c.check(any(ref.t[j] > 0 for j in near), "zero-cell", "landed in a cell of zero weight", u=u, x=x)
        c.check(any(abs(pdf - ref.dens(j)) <= 1e-9 * (1 + ref.dens(j)) and ref.t[j] > 0 for j in near), "density",
                "reported density is not that of the returned point", u=u, x=x, pdf=pdf, want=ref.dens(i))
        wx, wi = ref.inv(u)
        # near a CDF step two cells share u: the inverse may be either end of a zero-weight gap
        step = min(abs(u - s) for s in ref.cdf)
        if step > 1e-12:
            tol = 1e-9 + 1e-14 / (ref.cdf[wi + 1] - ref.cdf[wi])
            c.check(abs(x - wx) < tol, "proportional", "not the inverse of the cumulative table", u=u, x=x, want=wx)
        j, p = d.sample_dis(u)
        c.check(0 <= j < n and ref.t[int(j)] > 0, "dis-zero", "discrete sample of zero weight", u=u, j=j)
        if step > 1e-12:
            c.check(int(j) == wi, "dis-proportional", "wrong discrete cell", u=u, j=j, want=wi)
        c.close(float(p), ref.dens(int(j)) / n, "dis-pdf", "discrete probability", tol=1e-9, u=u, j=j)
    us = sorted(r.random() for _ in range(12)) + [BELOW]
    xs = [d.sample_cont(u)[0] for u in [0.] + us]
    c.check(all(a <= b + 1e-12 for a, b in zip(xs, xs[1:])), "monotone", "sampling is not monotone", xs=xs)
    first = min(i for i in range(n) if ref.t[i] > 0)
    last = max(i for i in range(n) if ref.t[i] > 0)
    c.check(xs[0] <= (first + 1e-9) / n + 1e-12 and xs[-1] >= (last + 1 - 1e-4) / n - 1e-9 - 1e-12 / ref.dens(last), "covers", "ends of the table are not reached", xs=xs)


@task(quick=1200, thorough=25000, min_events=8000)
def two(c):
    r = c.rng
    nv, nu = r.randrange(1, 9), r.randrange(1, 9)
    zero = r.random() < .06
    rows = [table(r, nu, zero or r.random() < .2) for _ in range(nv)]
    if not zero and not any(any(x) for x in rows):
        rows[0][0] = 1.
    arr = np.array(rows)
    keep = arr.copy()
    c.note(table=rows)
    c.sig(rows)
    d = Distribution2D(arr)
    repr(d)
    if r.random() < .5:
        c.check(bool((arr == keep).all()), "argument", "the caller's table was modified")
        arr[:] = arr[::-1] + r.uniform(0., 3.)
        keep = arr.copy()
        c.event("table-reused")
    marg = Ref([sum(x) / nu for x in rows])
    cond = [Ref(x) for x in rows]
    tot = sum(sum(x) for x in rows)
    dens = lambda vi, ui: rows[vi][ui] * nu * nv / tot if tot > 0 else 1.
    for u1 in numbers(r, marg)[:8]:
        u0 = r.choice([0., BELOW, r.random(), r.random()])
        (u, v), pdf = d.sample_cont(u0, u1)
        c.check(0 <= u <= 1 and 0 <= v <= 1, "range", "sample outside the unit square", u=u, v=v)
        step = min(abs(u1 - s) for s in marg.cdf)
        if step < 1e-12:
            c.check(math.isfinite(pdf), "finite", "density is not finite")
            c.check(pdf > 0, "zero-cell", "landed where the table is zero", u0=u0, u1=u1, at=[u, v])
            continue
        wv, vi = marg.inv(u1)
        ref = cond[vi]
        c.close(float(v), wv, "v", "row coordinate is not the inverse of the row totals", tol=1e-8, u0=u0, u1=u1)
        if min(abs(u0 - s) for s in ref.cdf) < 1e-12:
            c.check(pdf > 0, "zero-cell", "landed where the table is zero", u0=u0, u1=u1, at=[u, v])
            continue
        wu, ui = ref.inv(u0)
        c.close(float(u), wu, "u", "column coordinate is not the inverse of its row", tol=1e-8, u0=u0, u1=u1)
        c.close(float(pdf), dens(vi, ui), "density", "reported density is not that of the returned point", tol=1e-8, u0=u0, u1=u1)
        if abs(wu * nu - round(wu * nu)) > 1e-9 and abs(wv * nv - round(wv * nv)) > 1e-9:
            c.close(float(d.pdf(u, v)), float(pdf), "query", "density query differs from the sampled density", tol=1e-8, at=[u, v])
    for _ in range(4):
        ui, vi = r.randrange(nu), r.randrange(nv)
        u, v = (ui + r.uniform(.01, .99)) / nu, (vi + r.uniform(.01, .99)) / nv
        c.close(float(d.pdf(u, v)), dens(vi, ui), "pdf", "density query", tol=1e-8, at=[u, v])
    c.close(float(d.pdf(0., 0.)), dens(0, 0), "pdf-corner", "density query at the origin", tol=1e-8)
    integral = sum(float(d.pdf((i + .5) / nu, (j + .5) / nv)) for i in range(nu) for j in range(nv)) / (nu * nv)
    c.close(integral, 1., "normalised", "density does not integrate to one", tol=1e-8)
    c.check(bool((arr == keep).all()), "argument", "the caller's table was modified")
