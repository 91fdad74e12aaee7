"""P18 every pixel exactly once, alone or in tiles"""
import math
import threading
from core import tasklist
import gen as g
from pytracer.sampler import StratifiedSampler, Sample

TASKS, task = tasklist()
RULE = "windows of 0..17 x 0..17 pixels at any offset, 1..9 samples per pixel, 1..64 tiles (odd counts, more tiles than pixels), tiles drained in order, interleaved or by concurrent threads; distinct by window and tiling"


def window(r):
    xs, ys = r.choice([0, r.randrange(-9, 9), r.randrange(0, 900)]), r.choice([0, r.randrange(-9, 9), r.randrange(0, 900)])
    w, h = r.choice([0, 1, 2, r.randrange(1, 18), r.randrange(1, 18)]), r.choice([0, 1, 2, r.randrange(1, 18), r.randrange(1, 18)])
    return xs, xs + w, ys, ys + h


def make(r, win):
    a, b = r.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2)])
    jit = r.random() < .6
    t0 = r.choice([0., 0., 3., -2., r.uniform(-9, 9)])
    t1 = t0 + r.choice([0., 1., 1., .25, r.uniform(0, 4)])
    s = StratifiedSampler(win[0], win[1], win[2], win[3], a, b, jit, t0, t1)
    s.asked = (a, b, jit, t0, t1)
    return s, a * b


def settings(c, asked, smp, what):
    """the pattern of one pixel shows the settings the stream was made with"""
    a, b, jit, t0, t1 = asked
    bad = [x.time for x in smp if not t0 - 1e-9 <= x.time <= t1 + 1e-9]
    c.check(not bad, what + "-shutter", "sample times outside the configured shutter interval", times=bad[:4], want=[t0, t1])
    n = len(smp)
    if t1 - t0 > 1e-3:
        c.check(sorted(min(n - 1, max(0, int((x.time - t0) / (t1 - t0) * n + (0 if jit else 1e-9)))) for x in smp) == list(range(n)), what + "-shutter-strata",
                "sample times do not fill the shutter interval", times=[x.time for x in smp][:6], want=[t0, t1])
    fx, fy = [(x.imageX % 1.) * a for x in smp], [(x.imageY % 1.) * b for x in smp]
    if not jit:
        c.check(all(abs(x % 1 - .5) < 1e-6 for x in fx + fy), what + "-centred", "samples of a stream without jitter are not centred in their strata", got=[fx, fy])
    c.check(all(sum(1 for x in fx if int(x) == i) == b for i in range(a)) and all(sum(1 for x in fy if int(x) == i) == a for i in range(b)),
            what + "-split", "the pixel is not divided as configured", got=[fx, fy], want=[a, b])


def step(s, spp, log, c=None, asked=None, what=None):
    """one batch; False when exhausted"""
    smp = Sample().duplicate(s.maximum_sample_cnt())
    if not s.generate(smp):
        return False
    for x in smp:
        k = (int(math.floor(x.imageX)), int(math.floor(x.imageY)))
        log[k] = log.get(k, 0) + 1
    if c is not None and len(smp) == spp:
        settings(c, asked, smp, what)
    return True


def judge(c, log, win, spp, what):
    want = {(x, y) for x in range(win[0], win[1]) for y in range(win[2], win[3])}
    out = [k for k in log if k not in want]
    c.check(not out, what + "-outside", "samples outside the window", pixels=out[:5])
    miss = [k for k in want if k not in log]
    c.check(not miss, what + "-missing", "pixels never sampled", pixels=miss[:5], n=len(miss))
    bad = [(k, n) for k, n in log.items() if n != spp]
    c.check(not bad, what + "-count", "pixels with the wrong number of samples", pixels=bad[:5], want=spp)


@task(quick=500, thorough=10000, min_events=1000)
def alone(c):
    r = c.rng
    win = window(r)
    s, spp = make(r, win)
    c.note(window=win, spp=spp)
    c.sig(win, spp)
    c.check(s.maximum_sample_cnt() >= spp and s.spp == spp, "max", "size bound below the batch size", got=[s.maximum_sample_cnt(), s.spp])
    log = {}
    n = 0
    limit = (win[1] - win[0]) * (win[3] - win[2]) + 20
    while n <= limit and step(s, spp, log, c, s.asked, "alone"):
        n += 1
    c.check(n <= limit, "finite", "the stream does not end", batches=n)
    judge(c, log, win, spp, "alone")
    smp = Sample().duplicate(s.maximum_sample_cnt())
    c.check(not s.generate(smp) and not s.generate(smp), "exhausted", "samples after exhaustion")


@task(quick=900, thorough=20000, min_events=3000)
def tiles(c):
    r = c.rng
    win = window(r)
    s, spp = make(r, win)
    cnt = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 32, 64, r.randrange(1, 40)])
    c.note(window=win, spp=spp, tiles=cnt)
    c.sig(win, spp, cnt)
    subs = []
    area = 0
    for i in range(cnt):
        q = s.compute_subwindow(i, cnt)
        c.check(len(q) == 4 and all(float(x) == int(x) for x in q), "integer", "tile limits are not pixels", tile=i, got=q)
        a, b, d, e = [int(x) for x in q]
        c.check(win[0] <= a <= b <= win[1] and win[2] <= d <= e <= win[3], "inside", "tile leaves the window", tile=i, got=[a, b, d, e])
        area += (b - a) * (e - d)
        t = s.get_subsampler(i, cnt)
        if t is None:
            c.check((b - a) * (e - d) == 0, "none", "no sub-sampler for a tile with pixels", tile=i, got=[a, b, d, e])
        else:
            c.check(t is not s and t.spp == spp and t.maximum_sample_cnt() >= spp, "config", "sub-sampler lost its configuration")
            subs.append(t)
    c.check(area == (win[1] - win[0]) * (win[3] - win[2]), "area", "tiles do not add up to the window", area=area)
    log = {}
    order = r.choice(["sequential", "interleaved", "reversed"])
    limit = area + 4 * cnt + 20
    n = 0
    if order == "reversed":
        subs.reverse()
    if order == "interleaved":
        live = list(subs)
        while live and n <= limit:
            k = r.randrange(len(live))
            if not step(live[k], spp, log, c, s.asked, "tiles"):
                live.pop(k)
            n += 1
    else:
        for t in subs:
            while n <= limit and step(t, spp, log, c, s.asked, "tiles"):
                n += 1
    c.check(n <= limit, "finite", "the tiles do not end")
    c.event(order)
    judge(c, log, win, spp, "tiles")
    # the parent still covers the window by itself
    log = {}
    n = 0
    while n <= limit and step(s, spp, log):
        n += 1
    judge(c, log, win, spp, "parent")


@task(quick=25, thorough=400, min_events=20)
def threads(c):
    """tiles drained by concurrent threads"""
    import sys
    r = c.rng
    win = (3, 3 + r.randrange(4, 12), 5, 5 + r.randrange(4, 12))
    s, spp = make(r, win)
    cnt = r.choice([2, 4, 8])
    c.note(window=win, spp=spp, tiles=cnt)
    c.sig(win, spp, cnt)
    logs = []
    errs = []
    try:
        sys.setswitchinterval(1e-5)
    except Exception:
        pass

    def run(i):
        log = {}
        try:
            t = s.get_subsampler(i, cnt)
            n = 0
            while t is not None and n < 1000 and step(t, spp, log):
                n += 1
        except Exception as e:
            errs.append(repr(e))
        logs.append(log)
    ts = [threading.Thread(target=run, args=(i,)) for i in range(cnt)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    try:
        sys.setswitchinterval(.005)
    except Exception:
        pass
    c.check(not errs, "errors", "exception in a tile thread", errs=errs)
    tot = {}
    for l in logs:
        for k, n in l.items():
            tot[k] = tot.get(k, 0) + n
    judge(c, tot, win, spp, "threads")
