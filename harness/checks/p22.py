"""P22 camera ray differentials"""
import math
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer.transform import AnimatedTransform
from pytracer.sampler import CameraSample, Sample
from checks.p21 import rand_cam, rand_sample

TASKS, task = tasklist()
RULE = "the cameras and samples of P21; each differential ray compared with three plain rays; distinct by camera and sample"


def sample(r, s):
    if r.random() < .5:
        return CameraSample(*s)
    smp = Sample()
    smp.add_1d(3)
    smp = smp.duplicate(1)[0]
    smp.imageX, smp.imageY, smp.lens_u, smp.lens_v, smp.time = s
    return smp


def fields(s):
    return [s.imageX, s.imageY, s.lens_u, s.lens_v, s.time]


@task(quick=2000, thorough=50000, min_events=15000)
def neighbours(c):
    r = c.rng
    cam = rand_cam(r)
    s = rand_sample(r, cam)
    c.note(sample=s, **cam.desc)
    c.sig(cam.desc, s)
    smp = sample(r, s)
    wt, rd = cam.cam.generate_ray_differential(smp)
    c.check(fields(smp) == s, "sample", "the sample was modified", got=fields(smp))
    c.event(cam.kind + (".moving" if cam.moving else "") + (".lens" if cam.lens and cam.kind in ("persp", "ortho") else ""))
    w0, ray = cam.cam.generate_ray(CameraSample(*s))
    c.check(wt == w0 and isinstance(rd, geo.RayDifferential) and rd.has_differentials, "kind", "no differential ray", wt=wt, has=getattr(rd, 'has_differentials', None))
    size = 1 + g.ln(g.lst(ray.o))
    c.close(g.lst(rd.o), g.lst(ray.o), "main", "main ray differs from the plain ray", tol=1e-9, rel=size)
    c.close(g.lst(rd.d), g.lst(ray.d), "main", "main ray differs from the plain ray", tol=1e-9)
    c.check((rd.mint, rd.maxt, rd.time, rd.depth) == (ray.mint, ray.maxt, ray.time, ray.depth), "main-range", "range, time or depth differ from the plain ray",
            got=[rd.mint, rd.maxt, rd.time, rd.depth], want=[ray.mint, ray.maxt, ray.time, ray.depth])
    # a pixel's step in direction sets the resolution needed
    for ax, (o, d) in enumerate(((rd.rxOrigin, rd.rxDirection), (rd.ryOrigin, rd.ryDirection))):
        s2 = list(s)
        s2[ax] += 1
        near = cam.cam.generate_ray(CameraSample(*s2))[1]
        name = "xy"[ax]
        stepd = g.ln(g.sub(g.lst(near.d), g.lst(ray.d)))
        stepo = g.ln(g.sub(g.lst(near.o), g.lst(ray.o)))
        c.close(g.lst(o), g.lst(near.o), name + "-origin", "offset ray does not start where the neighbour's does", tol=1e-6, rel=1e-3 * size + stepo)
        c.close(g.lst(d), g.lst(near.d), name + "-direction", "offset ray does not point where the neighbour's does", tol=1e-6, rel=1e-3 + stepd)


@task(quick=500, thorough=10000, min_events=2000)
def scaling(c):
    r = c.rng
    cam = rand_cam(r)
    s = rand_sample(r, cam)
    k = r.choice([1., .5, 0., r.uniform(.01, 2)])
    c.note(sample=s, scale=k, **cam.desc)
    c.sig(cam.desc, s, k)
    _, rd = cam.cam.generate_ray_differential(CameraSample(*s))
    o, d = g.lst(rd.o), g.lst(rd.d)
    old = [g.lst(v) for v in (rd.rxOrigin, rd.ryOrigin, rd.rxDirection, rd.ryDirection)]
    res = rd.scale_differential(k)
    rd = rd if res is None else res
    c.check(g.lst(rd.o) == o and g.lst(rd.d) == d, "main", "scaling moved the main ray")
    new = [g.lst(v) for v in (rd.rxOrigin, rd.ryOrigin, rd.rxDirection, rd.ryDirection)]
    for b, v, w in zip((o, o, d, d), old, new):
        want = [b[i] + k * (v[i] - b[i]) for i in range(3)]
        c.close(w, want, "linear", "offset not scaled about the main ray", tol=1e-9, rel=1 + g.ln(b))
    # transforming
    T, M, desc = g.affine(r)
    x = rd
    before = (g.ray_snap(x), [g.lst(v) for v in (x.rxOrigin, x.ryOrigin, x.rxDirection, x.ryDirection)])
    tr = T if r.random() < .6 else AnimatedTransform(T, 0., T, 1.)
    y = tr(x)
    c.check(before == (g.ray_snap(x), [g.lst(v) for v in (x.rxOrigin, x.ryOrigin, x.rxDirection, x.ryDirection)]), "argument", "transforming modified its argument")
    size = 1 + max(g.ln(v) for v in new) + g.ln(o)
    amp = 1 + max(abs(v) for row in M for v in row)
    c.check(isinstance(y, geo.RayDifferential) and y.has_differentials, "transform-kind", "transformed ray lost its differentials")
    for v, w, f in ((new[0], y.rxOrigin, g.m_pt), (new[1], y.ryOrigin, g.m_pt), (new[2], y.rxDirection, g.m_vec), (new[3], y.ryDirection, g.m_vec)):
        c.close(g.lst(w), f(M, v), "transform", "offset ray not transformed with the main ray", tol=1e-8, rel=size * amp)
    c.close(g.lst(y.o), g.m_pt(M, o), "transform-main", "main ray", tol=1e-8, rel=size * amp)
    c.close(g.lst(y.d), g.m_vec(M, d), "transform-main", "main ray", tol=1e-8, rel=size * amp)
    c.check((y.mint, y.maxt, y.time, y.depth) == (x.mint, x.maxt, x.time, x.depth), "transform-range", "range lost")
    # copies are independent
    z = geo.RayDifferential.from_rd(x)
    z.rxOrigin.x += 1.
    z.ryDirection.y += 1.
    c.check(before[1] == [g.lst(v) for v in (x.rxOrigin, x.ryOrigin, x.rxDirection, x.ryDirection)], "copy", "copies share their offset rays")
