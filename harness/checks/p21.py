"""P21 cameras"""
import math
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer.transform import Transform, AnimatedTransform
from pytracer.camera import OrthoCamera, PerspectiveCamera, EnvironmentCamera
from pytracer.camera.projective import PinholeCamera
from pytracer.sampler import CameraSample
import pytracer.montecarlo as mc

TASKS, task = tasklist()
RULE = ("perspective, orthographic, environment and pinhole cameras x resolutions, screen windows (off-centre too), fields of view 5..150 degrees, lenses, "
        "static and moving rigid placements x raster positions inside and outside the film; distinct by camera and sample")


class Film(object):
    """resolution holder: cameras read nothing else from a film"""
    def __init__(self, x, y):
        self.xResolution, self.yResolution = x, y


class Cam(object):
    """camera, its description, and a plain-Python model in camera space"""

    def ray(self, s):
        """(origin, direction, focus point or None) in camera space"""
        sx = self.win[0] + s[0] / self.res[0] * (self.win[1] - self.win[0])
        sy = self.win[3] + s[1] / self.res[1] * (self.win[2] - self.win[3])
        if self.kind == "env":
            th, ph = g.PI * s[1] / self.res[1], 2 * g.PI * s[0] / self.res[0]
            return [0., 0., 0.], [math.sin(th) * math.cos(ph), math.cos(th), math.sin(th) * math.sin(ph)], None
        if self.kind == "pinhole":
            return [s[0], s[1], 0.], [-s[0], -s[1], self.focal], None
        if self.kind == "ortho":
            o, d = [sx, sy, 0.], [0., 0., 1.]
        else:
            t = math.tan(math.radians(self.fov) / 2)
            o, d = [0., 0., 0.], [sx * t, sy * t, 1.]
        if self.lens == 0.:
            return o, d, None
        F = [o[0] + d[0] * self.focal, o[1] + d[1] * self.focal, self.focal]
        l = mc.concentric_sample_disk(s[2], s[3])
        o = [float(l[0]) * self.lens, float(l[1]) * self.lens, 0.]
        return o, g.sub(F, o), F

    def matrix(self, t):
        if not self.moving:
            return self.M
        return [[float(x) for x in row] for row in self.c2w.interpolate(t).m] if self.t0 < t < self.t1 else (self.M if t <= self.t0 else self.M2)


def rand_cam(r, kind=None, film=None):
    c = Cam()
    c.kind = kind or r.choice(["persp", "persp", "ortho", "ortho", "env", "pinhole"])
    c.res = [r.randrange(1, 800), r.randrange(1, 800)] if film is None else [film.xResolution, film.yResolution]
    a = r.uniform(.2, 3)
    k = r.random()
    if k < .4:
        asp = c.res[0] / float(c.res[1])
        c.win = [-asp, asp, -1., 1.] if asp > 1 else [-1., 1., -1. / asp, 1. / asp]
    elif k < .7:
        c.win = [-a, a, -a * r.uniform(.3, 3), a]
    else:
        x, y = r.uniform(-2, 2), r.uniform(-2, 2)
        c.win = [x, x + a, y, y + a * r.uniform(.3, 2)]
    c.fov = r.choice([90., 45., r.uniform(5, 150)])
    c.lens = r.choice([0., 0., r.uniform(.001, .5)])
    c.focal = math.exp(r.uniform(-1, 3))
    (T1, c.M, d1, _), (T2, c.M2, d2, _) = g.motion(r)
    c.moving = c.kind != "pinhole" and r.random() < .4
    c.t0 = r.choice([0., r.uniform(-1, 1)])
    c.t1 = c.t0 + r.choice([1., r.uniform(.2, 3)])
    if c.moving:
        c.c2w = AnimatedTransform(T1, c.t0, T2, c.t1)
    else:
        c.c2w = AnimatedTransform(T1, c.t0, T1, c.t1)
    f = film or Film(*c.res)
    so, sc = r.choice([(0., 1.), (c.t0, c.t1), (.25, .5)])
    c.shutter = [so, sc]
    if c.kind == "persp":
        c.cam = PerspectiveCamera(c.c2w, list(c.win), so, sc, c.lens, c.focal, c.fov, f)
    elif c.kind == "ortho":
        c.cam = OrthoCamera(c.c2w, list(c.win), so, sc, c.lens, c.focal, f)
    elif c.kind == "env":
        c.cam = EnvironmentCamera(c.c2w, so, sc, f)
    else:
        c.cam = PinholeCamera(c.c2w, c.focal, f)
    c.desc = dict(camera=c.kind, res=c.res, win=c.win, fov=c.fov, lens=c.lens, focal=c.focal, c2w=[d1, d2], times=[c.t0, c.t1])
    return c


def rand_sample(r, cam):
    x = r.choice([0., float(cam.res[0]), cam.res[0] / 2., r.uniform(0, cam.res[0]), r.uniform(0, cam.res[0]), r.uniform(-5, cam.res[0] + 5)])
    y = r.choice([0., float(cam.res[1]), cam.res[1] / 2., r.uniform(0, cam.res[1]), r.uniform(0, cam.res[1]), r.uniform(-5, cam.res[1] + 5)])
    t = r.choice([cam.t0, cam.t1, r.uniform(cam.t0, cam.t1), r.uniform(*cam.shutter)])
    return [x, y, r.choice([.5, r.random(), r.random()]), r.choice([.5, r.random(), r.random()]), t]


@task(quick=2500, thorough=60000, min_events=20000)
def rays(c):
    r = c.rng
    cam = rand_cam(r)
    c.note(**cam.desc)
    for _ in range(3):
        s = rand_sample(r, cam)
        c.note(sample=s)
        c.sig(cam.desc, s)
        smp = CameraSample(*s)
        wt, ray = cam.cam.generate_ray(smp)
        c.check([smp.imageX, smp.imageY, smp.lens_u, smp.lens_v, smp.time] == s, "sample", "camera modified the sample")
        c.event(cam.kind + (".moving" if cam.moving else "") + (".lens" if cam.lens and cam.kind in ("persp", "ortho") else ""))
        o, d, F = cam.ray(s)
        M = cam.matrix(s[4])
        O, D = g.m_pt(M, o), g.nrm(g.m_vec(M, d))
        size = 1 + g.ln(O)
        c.close(g.lst(ray.o), O, "origin", "ray starts at the wrong place", tol=2e-7, rel=size)
        got = g.lst(ray.d)
        c.close(g.ln(got), 1., "unit", "direction is not normalized", tol=1e-6)
        c.close(g.nrm(got), D, "direction", "ray points the wrong way", tol=1e-6, rel=1.)
        c.check(wt == 1., "weight", "ray weight", got=wt)
        c.check(ray.mint == 0. and math.isinf(ray.maxt) and ray.maxt > 0, "range", "ray range", got=[ray.mint, ray.maxt])
        c.check(ray.time == s[4], "time", "ray does not carry the shutter time", got=ray.time)
        c.check(ray.depth == 0, "depth", "camera ray has a depth", got=ray.depth)
        if F is not None:
            W = g.m_pt(M, F)
            v = g.sub(W, g.lst(ray.o))
            dist = g.ln(g.cross(v, D))
            c.check(dist < 1e-6 * (1 + g.ln(v)) and g.dot(v, D) > 0, "focus", "ray misses the point of perfect focus", dist=dist)
        again = cam.cam.generate_ray(CameraSample(*s))[1]
        c.check(g.ray_snap(again) == g.ray_snap(ray), "repeatable", "asking twice gives different rays")


@task(quick=300, thorough=6000, min_events=500)
def focus(c):
    """all rays of one raster position meet on the focal plane, starting on the lens"""
    r = c.rng
    cam = rand_cam(r, r.choice(["persp", "ortho"]))
    if cam.lens == 0.:
        return
    s = rand_sample(r, cam)
    c.note(sample=s, **cam.desc)
    c.sig(cam.desc, s)
    M = cam.matrix(s[4])
    inv = g.m_inv_affine(M)
    F = None
    q = [0] * 4
    for _ in range(24):
        ray = cam.cam.generate_ray(CameraSample(s[0], s[1], r.random(), r.random(), s[4]))[1]
        o, d = g.m_pt(inv, g.lst(ray.o)), g.m_vec(inv, g.lst(ray.d))
        c.check(abs(o[2]) < 1e-6 * (1 + g.ln(g.lst(ray.o))) and math.hypot(o[0], o[1]) <= cam.lens * (1 + 1e-6) + 1e-6, "lens", "ray does not start on the lens", o=o)
        q[(o[0] > 0) * 2 + (o[1] > 0)] += 1
        t = (cam.focal - o[2]) / d[2]
        p = [o[i] + t * d[i] for i in range(3)]
        if F is None:
            F = p
        c.check(g.ln(g.sub(p, F)) < 1e-5 * (1 + g.ln(F) + g.ln(g.lst(ray.o))), "meet", "rays do not meet on the focal plane", p=p, q=F)
    c.check(sum(1 for x in q if x) >= 3, "lens-used", "lens samples do not spread over the lens", quadrants=q)


@task(quick=400, thorough=8000, min_events=300)
def project(c):
    """a world point in view: the ray of its raster position passes through it"""
    r = c.rng
    cam = rand_cam(r, r.choice(["persp", "ortho", "env"]))
    if cam.kind != "env":
        cam.lens = 0.
        cam.cam.lens_rad = 0.
    t = r.uniform(cam.t0, cam.t1)
    M = cam.matrix(t)
    inv = g.m_inv_affine(M)
    P = g.m_pt(M, [r.gauss(0, 3), r.gauss(0, 3), math.exp(r.uniform(-1, 4)) if cam.kind != "env" else r.gauss(0, 3)])
    x, y, z = g.m_pt(inv, P)
    if cam.kind == "env":
        d = g.nrm([x, y, z])
        raster = [(math.atan2(d[2], d[0]) / (2 * g.PI)) % 1. * cam.res[0], math.acos(max(-1., min(1., d[1]))) / g.PI * cam.res[1]]
    else:
        k = 1. / (z * math.tan(math.radians(cam.fov) / 2)) if cam.kind == "persp" else 1.
        raster = [(x * k - cam.win[0]) / (cam.win[1] - cam.win[0]) * cam.res[0], (cam.win[3] - y * k) / (cam.win[3] - cam.win[2]) * cam.res[1]]
    c.note(P=P, raster=raster, **cam.desc)
    c.sig(cam.desc, P)
    ray = cam.cam.generate_ray(CameraSample(raster[0], raster[1], .3, .6, t))[1]
    v = g.sub(P, g.lst(ray.o))
    D = g.nrm(g.lst(ray.d))
    dist = g.ln(g.cross(v, D))
    c.check(dist < 3e-6 * (1 + g.ln(v) + g.ln(P)) and g.dot(v, D) > 0, "through", "ray misses the world point of its raster position", dist=dist)
