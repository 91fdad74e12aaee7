"""Little scenes for the integrators: recording materials, scenes and renderers."""
import math
import random
import gen as g
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.transform import Transform
from pytracer.reflection import BSDF, Lambertian
from pytracer.shape import create_triangle_mesh, Sphere, Disk
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate, BVH, Intersection
from pytracer.scene import Scene
from pytracer.renderer import SamplerRenderer

PI = math.pi


class Mat(object):
    """a material made of given lobes"""

    def __init__(self, lobes, e=1.):
        self.lobes, self.e = lobes, e

    def get_bsdf(self, dg, dgs):
        b = BSDF(dgs, dg.nn, self.e)
        for l in self.lobes:
            b.push_back(l)
        return b

    def get_bssrdf(self, dg, dgs):
        return None


def matte(rho):
    return Mat([Lambertian(Spectrum.from_rgb(np.array(rho, dtype=float)))])


def black():
    return Mat([])


class Rng(object):
    """the generator handed to the code: replayable"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    def __call__(self, *shape):
        assert not shape
        self.n += 1
        return self.r.random()


class Sc(Scene):
    """a scene that records the rays it is asked about"""

    def __init__(self, agg, lights):
        super().__init__(agg, lights, None)
        self.times = []
        self.n = 0
        self.depths = []

    def intersect(self, ray, isect):
        self.n += 1
        self.times.append(float(ray.time))
        self.depths.append(ray.depth)
        return super().intersect(ray, isect)

    def intersect_p(self, ray):
        self.times.append(float(ray.time))
        return super().intersect_p(ray)


class Ren(SamplerRenderer):
    """a renderer without camera that counts recursion and may have a medium: transmittance exp(-sigma * length)"""

    def __init__(self, integ, sigma=0.):
        super().__init__(None, None, integ, None)
        self.sigma = sigma
        self.depths = []
        self.nest = self.deepest = 0

    def li(self, scene, ray, sample, isect, rng=np.random.rand):
        self.depths.append(ray.depth)
        self.nest += 1
        self.deepest = max(self.nest, self.deepest)
        try:
            return super().li(scene, ray, sample, isect, rng)
        finally:
            self.nest -= 1

    def transmittance(self, scene, ray, sample, rng=np.random.rand):
        if self.sigma == 0.:
            return super().transmittance(scene, ray, sample, rng)
        L = (float(ray.maxt) - float(ray.mint)) * g.ln(g.lst(ray.d))
        return Spectrum(math.exp(-self.sigma * L))


class Smp(object):
    """a sample with only what integrators read"""

    def __init__(self, time=0.):
        self.time = time
        self.n1D, self.n2D = [], []
        self.oneD, self.twoD = [], []

    def add_1d(self, n):
        self.n1D.append(n)
        return len(self.n1D) - 1

    def add_2d(self, n):
        self.n2D.append(n)
        return len(self.n2D) - 1

    def fill(self, r):
        self.oneD = [np.array([r.random() for _ in range(n)]) for n in self.n1D]
        self.twoD = [np.array([[r.random(), r.random()] for _ in range(n)]) for n in self.n2D]
        return self


def tri(pts, mat, light=None):
    T = Transform()
    mesh = create_triangle_mesh(T, T, False, {'indices': [0, 1, 2], 'P': [g.P(q) for q in pts]})
    return [GeometricPrimitive(x, mat, light) for x in mesh.refine()]


def facing_tri(pts, p):
    """order the corners so that the triangle's outward side faces p"""
    n = g.cross(g.sub(pts[1], pts[0]), g.sub(pts[2], pts[0]))
    return pts if g.dot(n, g.sub(p, pts[0])) > 0 else [pts[0], pts[2], pts[1]]


def ground(r, T, M, mat, rad=50.):
    """a big disk through the origin of the frame (T, M), normal along its z"""
    return GeometricPrimitive(Disk(T, T.inverse(), False, 0., rad, 0., 360.), mat, None)


def agg(prims, r):
    return SimpleAggregate(prims, True) if r.random() < .6 else BVH(prims)


def hit(c, scene, o, d, time=0., diff=False):
    R = geo.RayDifferential(g.P(o), g.V(d), 0., math.inf, 0, time)
    if diff:
        R.has_differentials = True
        e = 1e-3
        R.rxOrigin, R.ryOrigin = g.P(o), g.P(o)
        s, t, _ = g.onb(g.nrm(d))
        R.rxDirection, R.ryDirection = g.V(g.add(d, g.mul(s, e))), g.V(g.add(d, g.mul(t, e)))
    isect = Intersection()
    ok = scene.intersect(R, isect)
    return bool(ok), R, isect
