"""P06 animated transforms"""
import math
import numpy as np
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer.transform import Transform, AnimatedTransform

TASKS, task = tasklist()
RULE = ("pairs of keyframes translate*rotate*stretch (rigid, uniformly and non-uniformly stretched), times before, at, "
        "inside and after the interval; distinct by keyframe parameters and time")
ASSUMPTIONS = ["keyframes are orientation preserving (the polar decomposition has no rotation otherwise)",
               "rotations exactly half a turn apart have two shortest arcs; relative angles above 179 degrees are not generated"]


def key(r, kind, wide=1.):
    d = [r.gauss(0, 3) for _ in range(3)]
    ax, ang = g.unit(r), r.choice([r.uniform(-180, 180), 0., 90., 120., 180., 270.])
    T = Transform.translate(g.V(d)) * Transform.rotate(ang, g.V(ax))
    R = g.m_rotate(ang, ax)
    S = g.ident()
    if kind == 1:
        s = math.exp(wide * r.uniform(-1, 1))
        S = g.m_scale([s] * 3)
        T = T * Transform.scale(s, s, s)
    elif kind == 2:
        s = [math.exp(wide * r.uniform(-1, 1)) for _ in range(3)]
        b, bx = r.uniform(0, 180), g.unit(r)
        Q = Transform.rotate(b, g.V(bx))
        q = g.m_rotate(b, bx)
        qi = [[q[j][i] for j in range(4)] for i in range(4)]
        S = g.mm(g.mm(q, g.m_scale(s)), qi)
        T = T * (Q * Transform.scale(*s) * Q.inverse())
    return T, d, R, S, [d, ang, ax]


def rel_axis_angle(R0, R1):
    """axis and angle in [0,pi] of R1 R0^T"""
    D = [[sum(R1[i][k] * R0[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
    tr = D[0][0] + D[1][1] + D[2][2]
    ax = [D[2][1] - D[1][2], D[0][2] - D[2][0], D[1][0] - D[0][1]]
    s = g.ln(ax) / 2
    ang = math.atan2(s, (tr - 1) / 2)
    return (ax if s > 1e-12 else [1., 0., 0.]), ang


@task(quick=900, thorough=20000)
def interpolate(c):
    r = c.rng
    kind = r.randrange(3)
    T0, d0, R0, S0, k0 = key(r, kind)
    T1, d1, R1, S1, k1 = key(r, kind)
    if r.random() < .1:
        R1, T1 = R0, Transform.translate(g.V(d1)) * Transform.translate(g.V(d0)).inverse() * T0
        S1 = S0
    t0 = r.choice([0., r.uniform(-2, 2)])
    t1 = t0 + math.exp(r.uniform(-2, 2))
    A = AnimatedTransform(T0, t0, T1, t1)
    c.note(key0=k0, key1=k1, t0=t0, t1=t1, kind=kind)
    ax, ang = rel_axis_angle(R0, R1)
    u = r.choice([0., 1., .5, r.random(), r.random(), -1., 2.])
    t = t0 + u * (t1 - t0)
    c.sig(k0, k1, u)
    I = A.interpolate(t)
    p, v = g.vec3(r), g.vec3(r)
    if t <= t0:
        c.close(I.m, T0.m, "start", "at or before the start time the pose is not the first keyframe", tol=1e-9)
        want = np.array(T0.m)
    elif t >= t1:
        c.close(I.m, T1.m, "end", "at or after the end time the pose is not the second keyframe", tol=1e-9)
        want = np.array(T1.m)
    else:
        c.event("inside")
        if ang > math.radians(179.):
            c.event("half-turn-skipped")
            return
        Ru = g.mm(g.m_rotate(math.degrees(ang * u), ax), R0)
        tr = [(1 - u) * a + u * b for a, b in zip(d0, d1)]
        St = [[(1 - u) * S0[i][j] + u * S1[i][j] for j in range(4)] for i in range(4)]
        want = np.array(g.mm(g.mm(g.m_translate(tr), Ru), St))
        # slerp falls back to a normalised lerp for tiny arcs: error below 1e-5
        c.close(I.m, want, "inside-pose", "intermediate pose is not translation-lerp * slerp * stretch-lerp",
                tol=2e-5, u=u, angle=ang)
        c.close(np.dot(np.array(I.m), np.array(I.m_inv)), np.eye(4), "inside-inverse", "stored inverse is not the inverse", tol=1e-6)
        if kind == 0:
            M = np.array(I.m)[:3, :3]
            c.close(M.dot(M.T), np.eye(3), "rigid", "intermediate pose of rigid keyframes is not rigid", tol=1e-6)
            c.check(np.linalg.det(M) > 0, "rigid-mirror", "intermediate pose of rigid keyframes is mirrored")
    # calls agree with the pose at that time (one float ulp around the ends may pick either side)
    ray = geo.Ray(g.P(p), g.V(v), .25, 7., 3, t)
    rs = g.ray_snap(ray)
    q = A(ray)
    c.close(q.o, np.array(I(g.P(p))), "call-ray-origin", "ray not carried by the pose at its time", tol=1e-7)
    c.close(q.d, np.array(I(g.V(v))), "call-ray-dir", "ray not carried by the pose at its time", tol=1e-7)
    c.check((q.mint, q.maxt, q.depth, q.time) == (.25, 7., 3, t), "call-ray-fields", "range/depth/time changed")
    c.check(g.ray_snap(ray) == rs, "call-ray-mutated", "ray was modified")
    c.close(A(float(t), g.P(p)), np.array(I(g.P(p))), "call-point", "point not carried by the pose at the time", tol=1e-7)
    c.close(A(float(t), g.V(v)), np.array(I(g.V(v))), "call-vector", "vector not carried by the pose at the time", tol=1e-7)


@task(quick=500, thorough=10000)
def decompose(c):
    r = c.rng
    kind = r.randrange(3)
    T, d, R, S, k = key(r, kind)
    c.note(key=k, kind=kind)
    c.sig(k, kind)
    from pytracer.transform import quat
    m = np.array(T.m)
    keep = m.copy()
    t, q, s = AnimatedTransform.decompose(m)
    c.check(np.array_equal(m, keep), "mutated", "decompose modified the matrix")
    c.close(t, d, "translation", "translation part wrong", tol=1e-8)
    c.close(s, S, "stretch", "stretch part wrong", tol=1e-6)
    rec = Transform.translate(t) * quat.to_transform(q) * Transform(np.array(s))
    c.close(rec.m, T.m, "recompose", "T*R*S does not give the original matrix", tol=1e-6)


@task(quick=250, thorough=4000)
def wide(c):
    """strongly stretched keyframes (factors from 1/3000 to 3000): parts and intermediate poses, relative to the stretch"""
    r = c.rng
    kind = r.choice([1, 2])
    w = r.choice([4., 6., 8.])
    T0, d0, R0, S0, k0 = key(r, kind, w)
    T1, d1, R1, S1, k1 = key(r, kind, w)
    c.note(key0=k0, key1=k1, S0=S0, S1=S1, kind=kind)
    c.sig(k0, k1)
    from pytracer.transform import quat
    big = max(abs(x) for row in S0[:3] for x in row[:3])
    t, q, s = AnimatedTransform.decompose(np.array(T0.m))
    c.close(t, d0, "wide-translation", "translation part wrong", tol=1e-8)
    c.close(np.array(s)[:3, :3] / big, np.array(S0)[:3, :3] / big, "wide-stretch", "stretch part wrong", tol=1e-5)
    c.close(np.array(quat.to_transform(q).m)[:3, :3], np.array(R0)[:3, :3], "wide-rotation",
            "rotation part of a strongly stretched pose is not its rotation", tol=1e-4 if kind == 2 else 1e-6)
    ax, ang = rel_axis_angle(R0, R1)
    if ang > math.radians(179.):
        c.event("half-turn-skipped")
        return
    u = r.uniform(.05, .95)
    I = AnimatedTransform(T0, 0., T1, 1.).interpolate(u)
    Ru = g.mm(g.m_rotate(math.degrees(ang * u), ax), R0)
    tr = [(1 - u) * a + u * b for a, b in zip(d0, d1)]
    St = [[(1 - u) * S0[i][j] + u * S1[i][j] for j in range(4)] for i in range(4)]
    want = np.array(g.mm(g.mm(g.m_translate(tr), Ru), St))
    big = max(abs(x) for row in St[:3] for x in row[:3])
    c.event("wide-pose")
    c.close(np.array(I.m)[:3, :3] / big, want[:3, :3] / big, "wide-pose", "intermediate pose of strongly stretched keyframes "
            "is not rotation-slerp * stretch-lerp", tol=1e-3 if kind == 2 else 2e-5)
    c.close(np.array(I.m)[:3, 3], want[:3, 3], "wide-pose-translation", "", tol=1e-8)


@task(quick=250, thorough=5000)
def nudge(c):
    """keyframes that hardly differ: the small motion is carried out"""
    r = c.rng
    T0, d0, R0, S0, k0 = key(r, r.randrange(3))
    e = 10. ** r.uniform(-6, -1)
    what = r.choice(["move", "turn", "stretch", "all"])
    dd = [e * x for x in g.unit(r)] if what in ("move", "all") else [0., 0., 0.]
    ang = math.degrees(e) if what in ("turn", "all") else 0.
    ax = g.unit(r)
    T1 = Transform.translate(g.V(dd)) * T0
    if ang:
        T1 = Transform.translate(g.V(d0)) * Transform.rotate(ang, g.V(ax)) * Transform.translate(g.V([-x for x in d0])) * T1
    k = 1. + e if what in ("stretch", "all") else 1.
    if k != 1.:
        T1 = T1 * Transform.scale(k, k, k)
    t0 = r.choice([0., r.uniform(-2, 2)])
    t1 = t0 + math.exp(r.uniform(-2, 2))
    c.note(key0=k0, what=what, e=e, axis=ax, t0=t0, t1=t1)
    c.sig(k0, what, e)
    A = AnimatedTransform(T0, t0, T1, t1)
    M0, M1 = np.array(T0.m), np.array(T1.m)
    for t in (t0, t0 - r.random()):
        c.close(A.interpolate(t).m, M0, "nudge-start", "at or before the start time the pose is not the first keyframe", tol=1e-9)
    for t in (t1, t1 + r.random()):
        c.close(A.interpolate(t).m, M1, "nudge-end", "at or after the end time the pose is not the second keyframe", tol=1e-9)
    # inside, the pose lies on the way to within the square of the step
    u = r.choice([.5, r.random()])
    M = np.array(A.interpolate(t0 + u * (t1 - t0)).m)
    want = M0 + u * (M1 - M0)
    big = float(np.max(np.abs(M0[:3, :3])))
    off = np.abs(M - want)
    c.check(bool(np.all(off[:3, :3] <= big * (2. * e * e + 1e-3 * e + 1e-8))) and bool(np.all(off[:3, 3] <= (1. + g.ln(d0)) * (2. * e * e + 1e-9))), "nudge-inside",
            "between keyframes that hardly differ the pose is not between them", off=off, e=e, u=u)
    p = g.vec3(r)
    c.close(A(float(t1), g.P(p)), np.array(T1(g.P(p))), "nudge-point", "the point does not arrive at the second keyframe", tol=1e-9)
    c.event(what)


@task(quick=150, thorough=2000)
def static(c):
    """equal keyframes: never animated"""
    r = c.rng
    T, M, desc = g.affine(r)
    A = AnimatedTransform(T, 0., T, r.choice([0., 1.]))
    c.note(T=desc)
    c.sig(desc)
    p = g.vec3(r)
    t = r.uniform(-1, 2)
    c.close(A(float(t), g.P(p)), g.m_pt(M, p), "point", "static animated transform moved the point wrongly", tol=1e-9)
    c.close(A.interpolate(t).m, M, "pose", "", tol=1e-9)


@task(quick=60, thorough=600)
def motion(c):
    """motion bounds contain the carried box at every time"""
    r = c.rng
    T0, d0, R0, S0, k0 = key(r, r.randrange(3))
    T1, d1, R1, S1, k1 = key(r, r.randrange(3))
    if r.random() < .2:
        T1 = T0
    (_, _, _, t0), (_, _, _, t1) = g.motion(r)
    A = AnimatedTransform(T0, t0, T1, t1)
    a, b = g.vec3(r), g.vec3(r)
    box = geo.BBox(g.P(a), g.P(b))
    c.note(key0=k0, key1=k1, a=a, b=b)
    c.sig(k0, k1, a, b)
    for use_inv in (False, True):
        mb = A.motion_bounds(box, use_inv)
        for _ in range(25):
            t = r.uniform(t0, t1)
            I = A.interpolate(t)
            if use_inv:
                I = I.inverse()
            p = I(geo.Point(*[r.choice([x, y]) for x, y in zip(a, b)]))
            ext = float(np.max(np.array(mb.pMax) - np.array(mb.pMin)))
            eps = 1e-3 * ext + 1e-9
            c.check(bool(np.all(np.array(p) >= np.array(mb.pMin) - eps) and np.all(np.array(p) <= np.array(mb.pMax) + eps)),
                    "contains", "motion bound misses the carried box", p=p, lo=mb.pMin, hi=mb.pMax, t=t, use_inv=use_inv)
