"""P07 quaternions"""
import math
import numpy as np
from core import tasklist
import gen as g
from pytracer.transform import Transform, quat

TASKS, task = tasklist()
RULE = ("rotations with random, axis-aligned and near-aligned axes and random, zero, tiny and half-turn angles, "
        "so that all four conversion branches are taken; distinct by axis and angle")


def angle(r):
    k = r.random()
    if k < .15:
        return r.choice([0., 90., 120., 180., 180., 240., 270., 359.])
    if k < .25:
        return 180. + r.gauss(0, 1e-4)
    if k < .3:
        return r.gauss(0, 1e-3)
    return r.uniform(-360, 360)


def qlist(q):
    return [float(q.w), float(q.x), float(q.y), float(q.z)]


def lopsided(r):
    """an axis whose components differ by many orders of magnitude"""
    v = [r.choice([1, -1]) * 10 ** r.uniform(-10, 0) for _ in range(2)] + [r.choice([1., -1.])]
    r.shuffle(v)
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


@task(quick=2500, thorough=60000)
def roundtrip(c):
    r = c.rng
    ax, a = g.unit(r), angle(r)
    if r.random() < .25:
        ax = lopsided(r)
        a = r.choice([180., -180., 180. + r.gauss(0, 1e-6), a])
        c.event("lopsided-axis")
    c.note(axis=ax, angle=a)
    c.sig(ax, a)
    T = Transform.rotate(a, g.V(ax))
    M = g.m_rotate(a, ax)
    tr = M[0][0] + M[1][1] + M[2][2]
    c.event("trace-branch" if tr > 0 else "diag%d-branch" % max(range(3), key=lambda i: M[i][i]))
    for name, q in (("from_transform", quat.from_transform(T)), ("from_arr", quat.from_arr(np.array(T.m)))):
        n = sum(x * x for x in qlist(q))
        c.check(abs(n - 1) < 1e-6, "unit-" + name, "rotation does not convert to a unit quaternion", norm=n)
        B = quat.to_transform(q)
        c.close(B.m, M, "roundtrip-" + name, "rotation -> quaternion -> rotation changed it", tol=1e-6)


@task(quick=800, thorough=20000)
def to_rotation(c):
    r = c.rng
    q = [r.gauss(0, 1) for _ in range(4)]
    if r.random() < .3:
        q = [x if r.random() < .5 else 0. for x in q]
        if not any(q):
            q[r.randrange(4)] = 1.
    n = math.sqrt(sum(x * x for x in q))
    q = [x / n for x in q]
    Q = quat.Quaternion(*q)
    c.note(q=q)
    c.sig(q)
    T = quat.to_transform(Q)
    M = np.array(T.m)
    R = M[:3, :3]
    c.close(R.dot(R.T), np.eye(3), "orthonormal", "unit quaternion gives a non-rotation", tol=1e-9)
    c.check(np.linalg.det(R) > 0, "proper", "unit quaternion gives a mirror")
    c.close(T.m_inv, M.T, "inverse", "inverse of the rotation is not its transpose", tol=1e-12)
    c.close(M[3], [0, 0, 0, 1], "affine-row", "", tol=1e-12)
    c.close(M[:, 3], [0, 0, 0, 1], "affine-col", "", tol=1e-12)
    q2 = qlist(quat.from_transform(T))
    s = 1. if sum(a * b for a, b in zip(q, q2)) > 0 else -1.
    c.close([s * x for x in q2], q, "quat-roundtrip", "quaternion -> rotation -> quaternion changed it (beyond sign)", tol=1e-6)
    T2 = quat.to_transform(quat.Quaternion(*[-x for x in q]))
    c.close(T2.m, M, "double-cover", "q and -q give different rotations", tol=1e-9)


@task(quick=1000, thorough=20000)
def slerp(c):
    r = c.rng
    ax0, ax1 = g.unit(r), g.unit(r)
    q0 = quat.from_transform(Transform.rotate(angle(r), g.V(ax0)))
    q1 = quat.from_transform(Transform.rotate(angle(r), g.V(ax1)))
    if r.random() < .1:
        q1 = quat.from_transform(quat.to_transform(q0) * Transform.rotate(r.gauss(0, .1), g.V(ax1)))
    a, b = qlist(q0), qlist(q1)
    d = sum(x * y for x, y in zip(a, b))
    if r.random() < .15:     # nearly opposite, or a few degrees apart
        u = [r.gauss(0, 1) for _ in range(4)]
        k = sum(x * y for x, y in zip(u, a))
        u = [x - k * y for x, y in zip(u, a)]
        k = math.sqrt(sum(x * x for x in u))
        e = r.choice([1, -1]) * 10 ** r.uniform(-2.5, -.5)
        sg = r.choice([1., -1.])
        b = [sg * (math.cos(e) * y + math.sin(e) * x / k) for x, y in zip(u, a)]
        q1 = quat.Quaternion(*b)
        b = qlist(q1)
        d = sum(x * y for x, y in zip(a, b))
        c.event("near-or-opposite")
    if d < -1 + 1e-6:
        c.event("antipodal-skipped")
        q1 = -q1
        b = qlist(q1)
        d = -d
    th = math.acos(max(-1., min(1., d)))
    c.close(quat.dot(q0, q1), d, "dot", "quaternion dot wrong", tol=1e-9)
    t = r.choice([0., 1., .5, r.random(), r.random()])
    c.note(q0=a, q1=b, t=t)
    c.sig(a, b, t)
    q = qlist(quat.slerp(t, q0, q1))
    c.check(abs(sum(x * x for x in q) - 1) < 1e-6, "unit", "slerp of unit quaternions is not unit", q=q)
    if t == 0.:
        c.close(q, a, "end0", "slerp(0) is not the first", tol=1e-6)
    if t == 1.:
        c.close(q, b, "end1", "slerp(1) is not the second", tol=1e-5)
    # great-circle position: angle from q0 is t*theta and from q1 is (1-t)*theta
    def apart(x, y):
        return 2 * math.atan2(math.sqrt(sum((i - j) ** 2 for i, j in zip(x, y))), math.sqrt(sum((i + j) ** 2 for i, j in zip(x, y))))
    th, da, db = apart(a, b), apart(q, a), apart(q, b)
    c.check(abs(da - t * th) < 1e-6, "speed-from-start", "not at angle t*theta from the first", got=da, want=t * th)
    c.check(abs(db - (1 - t) * th) < 1e-6, "speed-to-end", "not at angle (1-t)*theta from the second", got=db, want=(1 - t) * th)
