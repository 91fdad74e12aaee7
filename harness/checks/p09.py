"""P09 vector geometry"""
import math
import numpy as np
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer.geometry import Point, Vector, Normal, Ray, RayDifferential
from pytracer.geometry.utility import (coordinate_system, normalize, face_forward, spherical_direction,
                                       spherical_theta, spherical_phi)

TASKS, task = tasklist()
RULE = ("random, axis-aligned and nearly aligned directions, points and rays with every field varied; distinct by values")


@task(quick=3000, thorough=80000)
def frames(c):
    r = c.rng
    d = g.unit(r)
    v = g.V(d)
    c.note(d=d)
    c.sig(d)
    a, s, t = coordinate_system(v)
    s_, t_ = g.lst(s), g.lst(t)
    c.close(a, d, "frame-first", "first axis is not the given direction", tol=1e-12)
    c.check(abs(g.ln(s_) - 1) < 1e-9 and abs(g.ln(t_) - 1) < 1e-9, "frame-unit", "axes not unit", s=s_, t=t_)
    c.check(max(abs(g.dot(d, s_)), abs(g.dot(d, t_)), abs(g.dot(s_, t_))) < 1e-9, "frame-orthogonal", "axes not orthogonal",
            s=s_, t=t_)
    c.close(g.cross(d, s_), t_, "frame-handed", "handedness is not consistent", tol=1e-9)
    c.check(g.snap(v) == g.snap(d), "frame-mutated", "argument modified")
    # spherical coordinates
    th, ph = float(spherical_theta(v)), float(spherical_phi(v))
    c.check(0 <= th <= math.pi + 1e-12 and 0 <= ph <= 2 * math.pi + 1e-12, "spherical-range", "out of range", th=th, ph=ph)
    c.close(spherical_direction(math.sin(th), math.cos(th), ph), d, "spherical-roundtrip", "direction changed", tol=1e-7)
    th, ph = r.uniform(0, math.pi), r.uniform(0, 2 * math.pi)
    w = [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
    c.close(spherical_direction(math.sin(th), math.cos(th), ph), w, "spherical-direction", "", tol=1e-9)
    x, y, z = g.onb(d)
    got = spherical_direction(math.sin(th), math.cos(th), ph, g.V(x), g.V(y), g.V(z))
    c.close(got, [w[0] * x[i] + w[1] * y[i] + w[2] * z[i] for i in range(3)], "spherical-basis", "direction in a basis", tol=1e-9)
    c.close(spherical_theta(g.V(w)), th, "theta", "", tol=1e-6)
    if math.sin(th) > 1e-3:
        c.close(spherical_phi(g.V(w)), ph, "phi", "", tol=1e-6)
    # face forward
    n = g.unit(r)
    nn = g.N(n)
    f = face_forward(nn, v)
    dd = g.dot(n, d)
    c.check(isinstance(f, Normal), "face-type", "face_forward result type")
    if abs(dd) > 1e-12:
        c.close(f, n if dd > 0 else g.mul(n, -1), "face-forward", "wrong side", tol=0)
    c.check(f is not nn and g.snap(nn) == g.snap(n), "face-mutated", "argument modified or returned")
    f[0] += 1.
    c.check(g.snap(nn) == g.snap(n), "face-alias", "result aliases the argument")


@task(quick=400, thorough=6000)
def poles(c):
    # unit directions around the poles and axes, as rounding in a rotation or a product leaves them
    r = c.rng
    ax = r.randrange(3)
    d = [0., 0., 0.]
    d[ax] = r.choice([-1., 1.])
    kind = r.choice(["ulp", "ulp", "tilt", "rotated"])
    if kind == "rotated":
        th = r.uniform(-math.pi, math.pi)
        b = g.unit(r)
        from pytracer.transform import Transform
        t = Transform.rotate(math.degrees(th), g.V(b))
        d = g.lst(t(t.inverse()(g.V(d))))
    else:
        d[ax] *= 1. + r.randrange(-3, 4) * 2. ** -52
        if kind == "tilt":
            d[(ax + 1) % 3] = r.choice([-1, 1]) * 10. ** r.uniform(-160, -8)
            d[(ax + 2) % 3] = r.choice([0., -0., 10. ** r.uniform(-160, -8)])
    c.note(d=d)
    c.sig(d)
    if ax == 2:
        c.event("nearly-polar")
        if abs(d[2]) > 1.:
            c.event("length-above-one")
    th, ph = float(spherical_theta(g.V(d))), float(spherical_phi(g.V(d)))
    c.check(0 <= th <= math.pi + 1e-12 and 0 <= ph <= 2 * math.pi + 1e-12, "spherical-range", "out of range", th=th, ph=ph)
    c.close(spherical_direction(math.sin(th), math.cos(th), ph), d, "spherical-roundtrip", "direction changed", tol=1e-7)
    a, s, t = [g.lst(x) for x in coordinate_system(g.V(d))]
    c.check(max(abs(g.ln(s) - 1), abs(g.ln(t) - 1), abs(g.dot(d, s)), abs(g.dot(d, t)), abs(g.dot(s, t))) < 1e-9,
            "frame-orthogonal", "frame around an axis", s=s, t=t)


@task(quick=3000, thorough=80000)
def arithmetic(c):
    r = c.rng
    a, b = g.vec3(r), g.vec3(r)
    k = g.num(r)
    c.note(a=a, b=b, k=k)
    c.sig(a, b, k)
    Va, Vb, Pa, Pb, Na, Nb = g.V(a), g.V(b), g.P(a), g.P(b), g.N(a), g.N(b)
    c.close(Va + Vb, g.add(a, b), "vec-add", "", tol=1e-12)
    c.close(Va - Vb, g.sub(a, b), "vec-sub", "", tol=1e-12)
    c.close(Va * k, g.mul(a, k), "vec-scale", "", tol=1e-12)
    c.close(k * Va, g.mul(a, k), "vec-scale", "", tol=1e-12)
    c.close(-Va, g.mul(a, -1), "vec-neg", "", tol=0)
    c.check(all(type(x) is Vector for x in (Va + Vb, Va - Vb, Va * k, k * Va, -Va)), "vec-types", "vector arithmetic type")
    c.close(Pa - Pb, g.sub(a, b), "pt-pt", "", tol=1e-12)
    c.check(type(Pa - Pb) is Vector, "pt-pt-type", "point difference is not a vector")
    c.close(Pa - Vb, g.sub(a, b), "pt-vec", "", tol=1e-12)
    c.check(type(Pa - Vb) is Point, "pt-vec-type", "point minus vector is not a point")
    c.close(Pa + Vb, g.add(a, b), "pt-plus-vec", "", tol=1e-12)
    c.check(type(Pa + Vb) is Point, "pt-plus-type", "point plus vector is not a point")
    for X, Y in ((Va, Vb), (Na, Nb), (Va, Nb), (Na, Vb)):
        c.close(X.cross(Y), g.cross(a, b), "cross", "cross product", tol=1e-9)
        c.check(type(X.cross(Y)) is Vector, "cross-type", "")
        c.close(np.dot(X, Y), g.dot(a, b), "dot", "", tol=1e-9)
        c.close(X.abs_dot(Y), abs(g.dot(a, b)), "abs-dot", "", tol=1e-9)
    for X in (Va, Na, Pa):
        c.close(X.sq_length(), g.dot(a, a), "sq-length", "", tol=1e-9)
        c.close(X.length(), g.ln(a), "length", "", tol=1e-9)
        c.close([X.x, X.y, X.z], a, "components", "", tol=0)
    c.close(Pa.dist(Pb), g.ln(g.sub(a, b)), "dist", "", tol=1e-9)
    c.close(Pa.sq_dist(Pb), g.dot(g.sub(a, b), g.sub(a, b)), "sq-dist", "", tol=1e-9)
    c.check(bool(Va == Vb) == (a == b) and bool(Va != Vb) == (a != b) and bool(Va == g.V(a)) and not bool(Va != g.V(a)), "vec-eq", "")
    c.check(bool(Pa == Pb) == (a == b) and bool(Pa == g.P(a)) and not bool(Pa != g.P(a)), "pt-eq", "")
    for X, T in ((Va, Vector), (Na, Normal)):
        n = normalize(X)
        if g.ln(a) > 0:
            c.close(n, g.nrm(a), "normalize", "", tol=1e-9)
        else:
            c.close(n, a, "normalize-zero", "zero vector", tol=0)
        c.check(type(n) is T, "normalize-type", "")
        c.check(g.snap(X) == g.snap(a), "normalize-mutated", "normalize modified its argument")
        n += 1.
        c.check(g.snap(X) == g.snap(a), "normalize-alias", "normalize result aliases its argument")
        Y = X.copy()
        c.check(Y.normalize() is Y, "inplace-normalize", "")
        c.check(g.snap(X) == g.snap(a), "copy-alias", "copy aliases its source")
        if g.ln(a) > 0:
            c.close(Y, g.nrm(a), "inplace-normalize", "", tol=1e-9)
    # directions keep their meaning at any length
    e = math.exp(r.uniform(-45, 45))
    if g.ln(a) > 0:
        b0 = g.mul(a, e / g.ln(a))
        for X in (g.V(b0), g.N(b0)):
            c.close(normalize(X), g.nrm(a), "normalize-length", "direction lost for a very short or long vector", tol=1e-9, length=e)
            c.close(X.copy().normalize(), g.nrm(a), "inplace-normalize-length", "direction lost for a very short or long vector",
                    tol=1e-9, length=e)
            c.close(X.length() / e, 1., "length-any", "length of a very short or long vector", tol=1e-9, length=e)
    for T in (Vector, Point, Normal):
        src = np.array(a)
        X = T.from_arr(src)
        src[0] += 1.
        c.check(g.snap(X) == g.snap(a) and type(X) is T, "from-arr", "from_arr aliases or retypes")
        Y = X.copy()
        Y[1] += 1.
        c.check(g.snap(X) == g.snap(a), "copy-alias", "copy aliases its source")
    X = g.V(a)
    X.x, X.y, X.z = b
    c.close(X, b, "setters", "", tol=0)
    try:
        Vector(float('nan'), 0., 0.)
        c.check(False, "nan-vector", "NaN component accepted")
    except ValueError:
        c.check(True, "nan-vector")


@task(quick=1500, thorough=40000)
def rays(c):
    r = c.rng
    o, d = g.vec3(r), g.vec3(r)
    mint, maxt, depth, tm = r.random(), r.choice([math.inf, 5 * r.random()]), r.randrange(9), r.random()
    c.note(o=o, d=d, mint=mint, maxt=maxt, depth=depth, time=tm)
    c.sig(o, d, mint, maxt, depth, tm)
    Po, Vd = g.P(o), g.V(d)
    for cls in (Ray, RayDifferential):
        R = cls(Po, Vd, mint, maxt, depth, tm)
        want = (g.snap(o), g.snap(d), mint, maxt, depth, tm)
        c.check(g.ray_snap(R) == want, "ctor", "ray fields")
        t = g.num(r)
        pt = R(t)
        c.close(pt, g.add(o, g.mul(d, t)), "eval", "ray point", tol=1e-9)
        c.check(type(pt) is Point, "eval-type", "")
        Po[0] += 1.
        Vd[0] += 1.
        c.check(g.ray_snap(R) == want, "ctor-alias", "ray aliases its constructor arguments")
        Po[0] = o[0]
        Vd[0] = d[0]
        C = cls.from_ray(R)
        c.check(g.ray_snap(C) == want, "copy", "copy differs")
        C.o[0] += 1.
        C.d[1] += 1.
        C.maxt = 0.
        c.check(g.ray_snap(R) == want, "copy-alias", "copy aliases its source")
        o2, d2 = g.vec3(r), g.vec3(r)
        lo, hi = r.random(), r.random() + 1
        K = cls.from_parent(g.P(o2), g.V(d2), R, lo, hi)
        c.check(g.ray_snap(K) == (g.snap(o2), g.snap(d2), lo, hi, depth + 1, tm), "child", "child ray fields")
        K = cls.from_parent(g.P(o2), g.V(d2), R)
        c.check((K.mint, K.maxt) == (0., math.inf), "child-default", "child ray default range")
        c.check(g.ray_snap(R) == want, "child-mutated", "parent modified")
    D0, D1 = cls(), cls()
    D0.o[0] += 1.
    D0.rxOrigin[0] += 1.
    c.check(float(D1.o[0]) == 0. and float(cls().o[0]) == 0. and float(cls().rxOrigin[0]) == 0., "default-alias",
            "default-constructed rays share state")
    R = RayDifferential(Po, Vd, mint, maxt, depth, tm)
    off = [g.vec3(r) for _ in range(4)]
    R.has_differentials = True
    R.rxOrigin, R.ryOrigin = g.P(off[0]), g.P(off[1])
    R.rxDirection, R.ryDirection = g.V(off[2]), g.V(off[3])
    C = RayDifferential.from_rd(R)
    c.check(C.has_differentials and all(g.snap(x) == g.snap(y) for x, y in zip(
        (C.rxOrigin, C.ryOrigin, C.rxDirection, C.ryDirection), off)) and g.ray_snap(C) == g.ray_snap(R), "rd-copy", "copy lost differentials")
    for x in (C.rxOrigin, C.ryOrigin, C.rxDirection, C.ryDirection, C.o, C.d):
        x += 1.
    c.check(all(g.snap(x) == g.snap(y) for x, y in zip((R.rxOrigin, R.ryOrigin, R.rxDirection, R.ryDirection, R.o, R.d), off + [o, d])),
            "rd-copy-alias", "copy aliases its source")
    s = r.choice([0., 1., .5, r.uniform(0, 3)])
    R.scale_differential(s)
    for name, x, y, b in (("rxo", R.rxOrigin, off[0], o), ("ryo", R.ryOrigin, off[1], o), ("rxd", R.rxDirection, off[2], d), ("ryd", R.ryDirection, off[3], d)):
        c.close(x, g.add(b, g.mul(g.sub(y, b), s)), "scale-" + name, "scaled offset wrong", tol=1e-9)
    c.check(g.snap(R.o) == g.snap(o) and g.snap(R.d) == g.snap(d), "scale-main", "scaling changed the main ray")
