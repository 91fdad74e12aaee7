"""P28 rendering"""
import os
import math
import shutil
import tempfile
import contextlib
from core import tasklist
import gen as g
import numpy as np
import lights as LT
import render as R
import pytracer.geometry as geo
import pytracer.light as L
import PIL.Image
from pytracer import Spectrum
from pytracer.transform import Transform
from pytracer.shape import Sphere, Disk
from pytracer.aggregate import GeometricPrimitive, Intersection
from pytracer.film import ImageFilm
from pytracer.filter import BoxFilter
from pytracer.integrator import SurfaceIntegrator, DirectLightingIntegrator, WhittedIntegrator, PathIntegrator, LightStrategy
from pytracer.renderer import SamplerRenderer, SamplerRendererTask
from pytracer.sampler import StratifiedSampler, Sample
from pytracer.scene import Scene
from checks.p19 import filt, config, extent
from checks.p21 import rand_cam

TASKS, task = tasklist()
RULE = ("whole renders: resolutions 1..9 x 1..9, sampler windows equal to, inside and beyond the film, 1..6 samples a pixel, jittered and regular, crop windows, every filter, "
        "every camera still and moving with weights (also zero), scenes with hits and misses and background lights, integrators returning any radiance including NaN, infinities and negatives, "
        "volume integrators; recorded sample by sample; distinct by configuration")
ASSUMPTIONS = ["a render's samples are those its sampler generated", "the film's own accumulation is P19, the camera's rays are P21"]
PI = math.pi


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="p28-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


class Sampler(StratifiedSampler):
    log = None

    def generate(self, samples, rng=np.random.rand):
        more = super().generate(samples, rng)
        if more:
            self.calls += 1
            for s in samples:
                self.log.append(key(s))
        return more


class FilmRec(ImageFilm):
    def add_sample(self, sample, Ls):
        self.log.append((key(sample), LT.rgb(Ls)))
        return super().add_sample(sample, Ls)


def key(s):
    return (float(s.imageX), float(s.imageY), float(s.lens_u), float(s.lens_v), float(s.time))


def rkey(ray):
    return tuple(g.lst(ray.o) + g.lst(ray.d) + [float(ray.time)])


BAD = [[float('nan')] * 3, [float('nan'), 1., 1.], [float('inf')] * 3, [0., float('inf'), 0.], [float('-inf')] * 3, [1., 1., float('-inf')],
       [float('inf'), float('-inf'), 0.], [-1., -1., -1.], [-.5, 0., 0.], [-5., .1, .1], [float('nan'), float('inf'), -1.]]


def bad(v):
    return not all(math.isfinite(x) for x in v) or LT.lum(v) < -1e-5


class Stub(SurfaceIntegrator):
    """any radiance, remembered by ray; faults at random"""

    def __init__(self, r, faults):
        self.r, self.faults = r, faults
        self.seen = {}
        self.times = {}
        self.isects = {}
        self.diffs = {}
        self.pre = 0
        self.nbad = 0

    def preprocess(self, scene, camera, renderer):
        self.pre += 1

    def request_samples(self, sampler, sample, scene):
        self.i1, self.i2 = sample.add_1d(3), sample.add_2d(2)

    def li(self, scene, renderer, ray, isect, sample, rng=np.random.rand):
        k = rkey(ray)
        self.times[k] = self.times.get(k, 0) + 1
        v = [self.r.uniform(0, 3) for _ in range(3)]
        if self.r.random() < self.faults:
            v = list(self.r.choice(BAD))
            if self.r.random() < .3:
                # anything below zero beyond rounding
                v = [-10 ** self.r.uniform(-4.6, 1)] * 3
            self.nbad += 1
        self.seen[k] = (v, key(sample), [len(sample.oneD[self.i1]), len(sample.twoD[self.i2])])
        self.diffs[k] = [g.lst(x) for x in (ray.rxOrigin, ray.ryOrigin, ray.rxDirection, ray.ryDirection)] if ray.has_differentials else None
        self.isects[k] = (isect.primitive, float(ray.maxt), g.lst(isect.dg.p) if isect.dg is not None else None)
        return LT.spec(v)


class Vol(object):
    """a volume integrator: constant transmittance and in-scattered light"""

    def __init__(self, r):
        self.T, self.lvi = [r.uniform(.1, 1) for _ in range(3)], [r.uniform(0, .5) for _ in range(3)]
        self.pre = 0

    def preprocess(self, scene, camera, renderer):
        self.pre += 1

    def request_samples(self, sampler, sample, scene):
        sample.add_1d(2)

    def li(self, scene, renderer, ray, sample, rng=None):
        return LT.spec(self.lvi), LT.spec(self.T)

    def transmittance(self, scene, renderer, ray, sample, rng=None):
        return LT.spec(self.T)


class Lamp(L.PointLight):
    """a light that also shows behind everything"""

    def le(self, rd):
        return LT.spec([abs(math.sin(3 * x)) for x in g.lst(rd.d)])


def wrap_camera(cam, r, zero):
    """record the rays the camera made, by sample; sometimes weight them"""
    make = cam.generate_ray_differential
    log = {}

    def gen(sample):
        w, ray = make(sample)
        k = r.choice([1., 1., r.uniform(.1, 2)])
        if r.random() < zero:
            k = 0.
        w = w * k
        log.setdefault(key(sample), []).append((float(w), rkey(ray), float(ray.time), geo.RayDifferential.from_rd(ray)))
        return [w, ray]
    cam.generate_ray_differential = gen
    return log


def sky_scene(r, cam, hits):
    """things in front of the camera, and lights with and without a background"""
    prims = []
    n = r.choice([1, 2, 4])
    for _ in range(n):
        s = [r.uniform(0, cam.res[0]), r.uniform(0, cam.res[1]), .5, .5, cam.shutter[0]]
        o, d, _ = cam.ray(s)
        m = cam.matrix(s[4])
        q = g.m_pt(m, g.add(o, g.mul(g.nrm(d), r.uniform(2, 6)))) if hits else [1e4 + r.random(), 1e4, 1e4]
        T = Transform.translate(g.V(q))
        rad = r.uniform(.3, 1.5)
        prims.append(GeometricPrimitive(Sphere(T, T.inverse(), False, rad, -rad, rad, 360.), R.matte([.5] * 3), None))
    lights = []
    for k in r.sample(["sky", "sky2", "point", "lamp"], r.choice([0, 1, 2, 3])):
        E = LT.colour(r, 3.)
        if k == "point":
            lights.append(L.PointLight(Transform(), LT.spec(E)))
        elif k == "lamp":
            lights.append(Lamp(Transform(), LT.spec(E)))
        else:
            lights.append(L.InfiniteAreaLight(Transform(), LT.spec(E), 1))
    return Scene(R.agg(prims, r), lights, None), lights


def setup(c, r, fd):
    while True:
        xr, yr, crop = config(r)
        xr, yr = (xr - 1) % 9 + 1, (yr - 1) % 9 + 1
        e = extent(xr, yr, crop)
        if e[1] <= xr and e[3] <= yr:
            break       # a crop window that holds a pixel
    f, p = filt(r)
    name = os.path.join(fd, "out.png")
    film = FilmRec(xr, yr, f, crop, name)
    film.log = []
    x0, x1, y0, y1 = extent(xr, yr, crop)
    full = (x0, y0, x1, y1) == (0, 0, xr, yr)
    if not full:
        # a crop window updates an existing picture
        PIL.Image.fromarray(np.zeros((yr, xr, 3), dtype='uint8') + 7, mode="RGB").save(name, 'PNG')
    cam = rand_cam(r, film=film)
    k = r.random()
    if k < .4:
        win = [int(x) for x in film.get_sample_extent()]
        # keep the work small for wide filters
        win = [max(win[0], -2), min(win[1], xr + 2), max(win[2], -2), min(win[3], yr + 2)]
    elif k < .8:
        win = [x0, x1, y0, y1]
    else:
        win = [0, r.randint(0, xr), 0, r.randint(0, yr)]
    nx, ny = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)])
    while (win[1] - win[0]) * (win[3] - win[2]) * nx * ny > 250 and nx * ny > 1:
        nx, ny = 1, 1
    smp = Sampler(win[0], win[1], win[2], win[3], nx, ny, r.random() < .8, cam.shutter[0], cam.shutter[1])
    smp.log = []
    smp.calls = 0
    info = dict(res=[xr, yr], crop=crop, filter=p, window=win, spp=[nx, ny], jitter=smp.jitter, camera=cam.desc, shutter=cam.shutter)
    return film, cam, smp, name, full, info


@task(quick=260, thorough=8000, min_events=4000)
def every_sample(c):
    """each sample evaluated once, put in its place with its ray's radiance"""
    r = c.rng
    with folder() as fd:
        film, cam, smp, name, full, info = setup(c, r, fd)
        clog = wrap_camera(cam.cam, r, r.choice([0., 0., .2]))
        hits = r.random() < .85
        sc, lights = sky_scene(r, cam, hits)
        it = Stub(r, r.choice([0., 0., .3]))
        vol = Vol(r) if r.random() < .25 else None
        ren = SamplerRenderer(smp, cam.cam, it, vol)
        c.note(lights=[type(x).__name__ for x in lights], volume=vol is not None, faults=it.faults, hits=hits, **info)
        c.sig(info, len(lights), hits)
        out = ren.render(sc)
        n = len(smp.log)
        area = max(0, smp.xPixel_end - smp.xPixel_start) * max(0, smp.yPixel_end - smp.yPixel_start)
        c.check(smp.calls == area and n == area * smp.spp, "all-pixels", "the sampler was not drained", got=n, want=area * smp.spp)
        c.check(len(film.log) == n, "count", "number of samples put on the film is not the number generated", got=len(film.log), want=n)
        c.check(sorted(k for k, _ in film.log) == sorted(smp.log), "once", "samples put on the film are not the samples generated, each once")
        c.check(it.pre == 1 and (vol is None or vol.pre == 1), "preprocess", "integrators are preprocessed once", got=it.pre)
        c.check(sum(len(v) for v in clog.values()) == n, "rays", "not one camera ray per sample", got=sum(len(v) for v in clog.values()), want=n)
        nhit = nmiss = 0
        for k, v in film.log:
            if not c.check(k in clog, "own-ray", "a sample on the film had no camera ray"):
                continue
            w, rk, t, ray = clog[k][0]
            isect = Intersection()
            probe = geo.Ray(g.P(list(rk[:3])), g.V(list(rk[3:6])), 0., math.inf, 0, t)
            hit = bool(sc.intersect(probe, isect))
            if w <= 0.:
                c.check(v == [0.] * 3, "unweighted", "a sample of zero weight is not black", got=v)
                continue
            if hit:
                nhit += 1
                if not c.check(rk in it.seen and it.times[rk] == clog_count(clog, rk), "evaluated", "a hit ray's radiance was not asked for exactly once",
                               got=it.times.get(rk)):
                    continue
                want, sk, sizes = it.seen[rk]
                c.check(sk == k, "sample", "the integrator was given another sample", got=sk, want=k)
                c.check(sizes == [3, 2], "requested", "the integrator's requested samples were not generated", got=sizes, want=[3, 2])
                if ray.has_differentials and it.diffs[rk] is not None:
                    # neighbouring samples, not neighbouring pixels
                    f = 1. / math.sqrt(smp.spp)
                    o, d = list(rk[:3]), list(rk[3:6])
                    wd = [g.add(b, g.mul(g.sub(g.lst(a), b), f)) for a, b in ((ray.rxOrigin, o), (ray.ryOrigin, o), (ray.rxDirection, d), (ray.ryDirection, d))]
                    c.close(it.diffs[rk], wd, "differentials", "auxiliary rays are not those of the neighbouring samples", tol=1e-9)
                pr, mt, ip = it.isects[rk]
                c.check(pr is isect.primitive and ip is not None and g.ln(g.sub(ip, g.lst(isect.dg.p))) < 1e-6, "isect",
                        "the integrator was given another intersection", got=ip, want=g.lst(isect.dg.p))
            else:
                nmiss += 1
                c.check(rk not in it.seen, "not-hit", "the integrator was asked about a ray that hits nothing")
                want = [0.] * 3
                for li in lights:
                    want = g.add(want, LT.rgb(li.le(ray)))
            if vol is not None:
                want = [want[i] * vol.T[i] + vol.lvi[i] for i in range(3)]
            want = [x * w for x in want]
            if hit and bad(want):
                c.check(v == [0.] * 3, "invalid-black", "invalid radiance is not replaced by black", got=v, want=want)
                c.event("fault")
            else:
                c.close(v, want, "radiance", "a sample was not given its own ray's radiance", tol=1e-9, hit=hit, weight=w)
        c.event("hits", nhit)
        c.event("misses", nmiss)
        # the finished picture: stored, and returned
        c.require(os.path.exists(name), "stored", "no image was stored")
        with PIL.Image.open(name) as pic:
            img = np.array(pic.convert('RGB'))
        c.check(img.shape == (film.yResolution, film.xResolution, 3), "size", "stored image has another size", got=img.shape)
        if c.check(out is not None, "returned", "render does not return the image"):
            c.check(np.asarray(out).shape == img.shape and bool((np.asarray(out) == img).all()), "same-image", "the returned image is not the stored one")
        x0, x1, y0, y1 = film.get_pixel_extent()
        if not full:
            m = np.ones(img.shape[:2], dtype=bool)
            m[y0:y1, x0:x1] = False
            c.check(bool((img[m] == 7).all()), "outside-crop", "pixels outside the crop window were changed")
        again = np.asarray(film.write_image())
        c.check(bool((again == img).all()), "finished", "the stored image is not the film's final state")


class Choosy(Sampler):
    """a sampler that looks at its results and turns some batches down"""

    def report_results(self, samples, rays, ls, isects):
        ok = self.pick.random() < self.rate
        n = len(samples)
        self.told.append((ok, [(key(samples[i]), rkey(rays[i]), LT.rgb(ls[i]), isects[i].primitive,
                                g.lst(isects[i].dg.p) if isects[i].dg is not None else None) for i in range(n)]))
        return ok


@task(quick=120, thorough=3000, min_events=1500)
def reported(c):
    """the sampler sees each batch's samples with their own results, and its refusal keeps the batch off the film"""
    r = c.rng
    with folder() as fd:
        film, cam, smp, name, full, info = setup(c, r, fd)
        smp.__class__ = Choosy
        smp.pick, smp.told, smp.rate = r, [], r.choice([0., .5, 1., r.random()])
        clog = wrap_camera(cam.cam, r, r.choice([0., 0., .2]))
        sc, lights = sky_scene(r, cam, True)
        it = Stub(r, r.choice([0., .3]))
        ren = SamplerRenderer(smp, cam.cam, it, None)
        c.note(lights=[type(x).__name__ for x in lights], rate=smp.rate, faults=it.faults, **info)
        c.sig(info, len(lights), smp.rate)
        ren.render(sc)
        shown = [x for _, b in smp.told for x in b]
        c.check(sorted(x[0] for x in shown) == sorted(smp.log), "told-once", "samples reported to the sampler are not those it made, each once",
                got=len(shown), want=len(smp.log))
        kept = [(x[0], x[2]) for ok, b in smp.told if ok for x in b]
        c.check(sorted(k for k, _ in kept) == sorted(k for k, _ in film.log), "kept", "samples on the film are not those of the accepted batches",
                got=len(film.log), want=len(kept))
        radiance = {}
        for k, v in film.log:
            radiance.setdefault(k, v)
        for k, v in kept:
            if k in radiance:
                c.close(radiance[k], v, "kept-radiance", "the film got another radiance than the sampler was shown", tol=1e-12)
        for k, rk, v, prim, ip in shown:
            if not c.check(k in clog, "told-ray", "a reported sample had no camera ray"):
                continue
            w, want, t, ray = clog[k][0]
            c.check(rk == want, "own-ray", "a sample is reported with another sample's ray", got=rk, want=want)
            if w <= 0.:
                c.check(v == [0.] * 3, "told-unweighted", "a sample of zero weight is not black", got=v)
                continue
            isect = Intersection()
            probe = geo.Ray(g.P(list(rk[:3])), g.V(list(rk[3:6])), 0., math.inf, 0, t)
            if sc.intersect(probe, isect):
                c.event("hits")
                c.check(prim is isect.primitive and ip is not None and g.ln(g.sub(ip, g.lst(isect.dg.p))) < 1e-6, "own-isect",
                        "a sample is reported with another sample's intersection", got=ip, want=g.lst(isect.dg.p))
                if want in it.seen and it.times[want] == 1:
                    x = [a * w for a in it.seen[want][0]]
                    c.close(v, [0.] * 3 if bad(x) else x, "own-radiance", "a sample is reported with another radiance", tol=1e-9)
        c.event("kept", len(kept))
        c.event("refused", len(shown) - len(kept))


@task(quick=60, thorough=1500, min_events=400)
def silhouettes(c):
    """the visible-object mode shows white where something is hit, black elsewhere"""
    r = c.rng
    with folder() as fd:
        film, cam, smp, name, full, info = setup(c, r, fd)
        clog = wrap_camera(cam.cam, r, r.choice([0., .2]))
        sc, lights = sky_scene(r, cam, r.random() < .85)
        it = Stub(r, 0.)
        ren = SamplerRenderer(smp, cam.cam, it, None)
        c.note(silhouettes=True, **info)
        c.sig(info, "silhouettes")
        SamplerRendererTask(sc, ren, cam.cam, smp, Sample(smp, it, None, sc), True, 1, 1)()
        c.check(sorted(k for k, _ in film.log) == sorted(smp.log), "once", "samples put on the film are not the samples generated, each once")
        c.check(not it.seen, "no-shading", "the visible-object mode asked for radiance")
        for k, v in film.log:
            if not c.check(k in clog, "own-ray", "a sample on the film had no camera ray"):
                continue
            w, rk, t, ray = clog[k][0]
            probe = geo.Ray(g.P(list(rk[:3])), g.V(list(rk[3:6])), 0., math.inf, 0, t)
            hit = w > 0. and bool(sc.intersect(probe, Intersection()))
            c.close(v, [1.] * 3 if hit else [0.] * 3, "mask", "a sample does not show whether its ray hits anything", tol=1e-9, hit=hit)
            c.event("seen" if hit else "unseen")


def clog_count(clog, rk):
    return sum(1 for v in clog.values() for x in v if x[1] == rk and x[0] > 0)


@task(quick=120, thorough=4000, min_events=120)
def picture(c):
    """end to end: the stored picture is the mean radiance of each pixel's samples"""
    r = c.rng
    with folder() as fd:
        xr, yr = r.randint(1, 8), r.randint(1, 8)
        name = os.path.join(fd, "out.png")
        film = ImageFilm(xr, yr, BoxFilter(.5, .5), [0., 1., 0., 1.], name)
        cam = rand_cam(r, r.choice(["persp", "ortho", "env"]), film=film)
        nx, ny = r.choice([(1, 1), (2, 2), (1, 3)])
        smp = Sampler(0, xr, 0, yr, nx, ny, True, cam.shutter[0], cam.shutter[1])
        smp.log, smp.calls = [], 0
        sc, lights = sky_scene(r, cam, True)
        it = Stub(r, r.choice([0., .2]))
        clog = wrap_camera(cam.cam, r, 0.)
        c.note(res=[xr, yr], spp=[nx, ny], camera=cam.desc, faults=it.faults)
        c.sig(xr, yr, nx, ny, cam.desc)
        out = np.asarray(SamplerRenderer(smp, cam.cam, it, None).render(sc))
        acc = np.zeros((yr, xr, 3))
        cnt = np.zeros((yr, xr))
        for k in smp.log:
            w, rk, t, ray = clog[k][0]
            if rk in it.seen:
                v = [x * w for x in it.seen[rk][0]]
                v = [0.] * 3 if bad(v) else v
            else:
                v = [0.] * 3
                for li in lights:
                    v = g.add(v, g.mul(LT.rgb(li.le(ray)), w))
            fx, fy = k[0] - math.floor(k[0]), k[1] - math.floor(k[1])
            if min(fx, fy, 1 - fx, 1 - fy) < 1e-9:
                return
            acc[int(k[1]), int(k[0])] += v
            cnt[int(k[1]), int(k[0])] += 1
        c.check(bool((cnt == nx * ny).all()), "per-pixel", "not every pixel got its samples")
        mean = acc / (nx * ny)
        # a round trip through XYZ: the film clamps negatives
        mean = np.maximum(mean, 0.)
        top = mean.max()
        want = mean * 255. / top if top > 0 else mean
        d = np.abs(out.astype(float) - np.floor(want + 1e-6))
        tol = 1. if top > 0 else 0.
        c.check(out.shape == want.shape and bool((np.abs(out - want) <= 1.02 + .01).all()), "pixels",
                "the picture is not each pixel's mean radiance, scaled to the brightest", worst=float(d.max()), tol=tol)
        c.event("pixels", xr * yr)


@task(quick=60, thorough=1500, min_events=100)
def repeat(c):
    """a fixed seed repeats the render; real integrators; tasks in full"""
    r = c.rng
    with folder() as fd:
        xr, yr = r.randint(1, 5), r.randint(1, 5)
        kind = r.choice(["path", "whitted", "direct-all", "direct-one"])
        seed, cs = r.randrange(2 ** 31), r.random()
        runs = []
        for j in range(3):
            import random
            q = random.Random(cs)
            name = os.path.join(fd, "out%d.png" % j)
            film = FilmRec(xr, yr, BoxFilter(.5, .5), [0., 1., 0., 1.], name)
            film.log = []
            cam = rand_cam(q, film=film)
            smp = Sampler(0, xr, 0, yr, 2, 1, True, cam.shutter[0], cam.shutter[1])
            smp.log, smp.calls = [], 0
            sc, lights = sky_scene(q, cam, True)
            w = cam.matrix(cam.shutter[0])
            lights.append(L.PointLight(Transform.translate(g.V([w[i][3] for i in range(3)])), LT.spec([4.] * 3)))
            it = {"path": lambda: PathIntegrator(2), "whitted": lambda: WhittedIntegrator(2), "direct-all": lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 2),
                  "direct-one": lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 2)}[kind]()
            np.random.seed(seed if j < 2 else seed ^ 1)
            out = SamplerRenderer(smp, cam.cam, it, None).render(sc)
            runs.append((film.log, None if out is None else np.array(out)))
        c.note(integrator=kind, res=[xr, yr], camera=cam.desc)
        c.sig(kind, xr, yr, seed)
        c.check(runs[0][0] == runs[1][0], "repeatable", "the same seed gives other samples or radiances")
        c.check(runs[0][1] is not None and bool((runs[0][1] == runs[1][1]).all()), "same-picture", "the same seed gives another picture")
        c.check(len(runs[0][0]) == 2 * xr * yr, "count", "not every sample was rendered", got=len(runs[0][0]))
        c.check(all(all(math.isfinite(x) and x >= 0 for x in v) for _, v in runs[0][0]), "valid", "invalid radiance reached the film")
        if runs[0][0] != runs[2][0]:
            c.event("seed-matters")


@task(quick=60, thorough=1500, min_events=200)
def lit_scene(c):
    """a lamp over a matte floor, through real cameras, samplers and integrators: closed form at every sample"""
    r = c.rng
    with folder() as fd:
        xr, yr = r.randint(1, 5), r.randint(1, 5)
        film = FilmRec(xr, yr, BoxFilter(.5, .5), [0., 1., 0., 1.], os.path.join(fd, "out.png"))
        film.log = []
        cam = rand_cam(r, r.choice(["persp", "persp", "ortho", "env"]), film=film)
        T, M, desc = g.rigid(r)
        n = g.m_vec(M, [0., 0., 1.])
        q = [r.uniform(.1, .9) for _ in range(3)]
        big = Disk(T, T.inverse(), False, 0., 300., 0., 360.)
        I = LT.colour(r)
        pos = g.m_pt(M, [r.uniform(-3, 3), r.uniform(-3, 3), r.choice([-1, 1]) * r.uniform(1, 4)])
        light = L.PointLight(Transform.translate(g.V(pos)), LT.spec(I))
        sky = None
        lights = [light]
        sc = Scene(R.agg([GeometricPrimitive(big, R.matte(q), None)], r), lights, None)
        kind = r.choice(["path", "whitted", "direct-all", "direct-one"])
        it = {"path": lambda: PathIntegrator(3), "whitted": lambda: WhittedIntegrator(3), "direct-all": lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 3),
              "direct-one": lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 3)}[kind]()
        smp = Sampler(0, xr, 0, yr, 2, 2, True, cam.shutter[0], cam.shutter[1])
        smp.log, smp.calls = [], 0
        clog = wrap_camera(cam.cam, r, 0.)
        c.note(integrator=kind, camera=cam.desc, floor=desc, rho=q, I=I, lamp=pos)
        c.sig(kind, cam.desc, desc, pos)
        SamplerRenderer(smp, cam.cam, it, None).render(sc)
        o0 = g.m_pt(M, [0., 0., 0.])
        for k, v in film.log:
            w, rk, t, ray = clog[k][0]
            o, d = list(rk[:3]), list(rk[3:6])
            dn = g.dot(d, n)
            if abs(dn) < 1e-3 * g.ln(d):
                continue
            s = g.dot(g.sub(o0, o), n) / dn
            if abs(s) < 1e-3:
                continue
            want = [0.] * 3
            if s > 0:
                p = g.add(o, g.mul(d, s))
                e = g.ln(g.sub(p, o0))
                if abs(e - 300.) < 1.:
                    continue
                if e < 300.:
                    l = g.sub(pos, p)
                    D2 = g.dot(l, l)
                    cs = g.dot(l, n) / math.sqrt(D2)
                    if abs(cs) < 1e-4:
                        continue
                    if cs * dn < 0:
                        want = [q[i] / PI * I[i] * abs(cs) / D2 * w for i in range(3)]
                        c.event("lit")
                    else:
                        c.event("shadow-side")
            else:
                c.event("miss")
            c.close(v, want, "closed-form", "a sample of a lamp-lit floor is not the closed form", tol=1e-5 * max(max(want), 1e-6), rel=1.)


@task(quick=80, thorough=1500, min_events=80)
def awkward(c):
    """regular samples, odd resolutions, level cameras over level floors, single rows: renders finish"""
    r = c.rng
    with folder() as fd:
        from pytracer.camera import PerspectiveCamera, EnvironmentCamera
        from pytracer.transform import AnimatedTransform
        xr, yr = r.choice([1, 3, 5, 7]), r.choice([1, 3, 5, 7])
        film = FilmRec(xr, yr, BoxFilter(.5, .5), [0., 1., 0., 1.], os.path.join(fd, "out.png"))
        film.log = []
        T = Transform()
        A = AnimatedTransform(T, 0., T, 1.)
        kind = r.choice(["persp", "env"])
        if kind == "persp":
            cam = PerspectiveCamera(A, [-1., 1., -1., 1.], 0., 1., 0., 1e6, 90., film)
        else:
            cam = EnvironmentCamera(A, 0., 1., film)
        ax = r.choice([0, 1, 2])
        D = Transform.rotate_x(90.) if ax == 1 else Transform.rotate_y(90.) if ax == 0 else T
        off = [0., 0., 0.]
        off[ax] = r.choice([-1., 1.])
        D = Transform.translate(g.V(off)) * D
        prims = [GeometricPrimitive(Disk(D, D.inverse(), False, 0., 1e4, 0., 360.), R.matte([.5] * 3), None)]
        sky = L.InfiniteAreaLight(T, LT.spec([1.] * 3), 1)
        nx, ny = r.choice([(1, 1), (2, 2), (1, 1), (1, 4)])
        smp = Sampler(0, xr, 0, yr, nx, ny, r.random() < .2, 0., 1.)
        smp.log, smp.calls = [], 0
        sc = Scene(R.agg(prims, r), [sky], None)
        it = r.choice([PathIntegrator(1), WhittedIntegrator(2), DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 2)])
        c.note(res=[xr, yr], camera=kind, axis=ax, offset=off, spp=[nx, ny], jitter=smp.jitter, integrator=type(it).__name__)
        c.sig(xr, yr, kind, ax, off, nx, ny, smp.jitter, type(it).__name__)
        out = SamplerRenderer(smp, cam, it, None).render(sc)
        c.check(len(film.log) == xr * yr * nx * ny and out is not None, "finished", "the render did not finish", got=len(film.log))
        c.check(all(all(math.isfinite(x) and x >= 0 for x in v) for _, v in film.log), "valid", "invalid radiance reached the film")
        c.event(kind)
