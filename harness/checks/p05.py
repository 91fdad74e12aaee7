"""P05 transforms form a consistent algebra"""
import math
import numpy as np
from core import tasklist
import gen as g
import pytracer.geometry as geo
from pytracer.transform import Transform

TASKS, task = tasklist()
RULE = ("random products of 1-5 constructors (translate, scale, rotate, rotate_xyz, look_at), boundary angles "
        "and mirrored scales included; a case is distinct by its constructor list")


def build(c, n):
    r = c.rng
    T, M, desc = Transform(), g.ident(), []
    for _ in range(n):
        k = r.randrange(6)
        if k == 0:
            d = g.vec3(r)
            t, m = Transform.translate(g.V(d)), g.m_translate(d)
            desc.append(["translate", d])
        elif k == 1:
            s = g.scales(r)
            t, m = Transform.scale(*s), g.m_scale(s)
            desc.append(["scale", s])
        elif k == 2:
            a, ax = r.choice([r.uniform(-720, 720), 90, 180, 270, 0]), g.mul(g.unit(r), math.exp(r.uniform(-3, 3)))
            t, m = Transform.rotate(a, g.V(ax)), g.m_rotate(a, ax)
            desc.append(["rotate", a, ax])
        else:
            i = k - 3
            a = r.choice([r.uniform(-720, 720), 90, 180, 270, 0])
            ax = [0., 0., 0.]
            ax[i] = 1.
            t = [Transform.rotate_x, Transform.rotate_y, Transform.rotate_z][i](a)
            m = g.m_rotate(a, ax)
            desc.append(["rotate_" + "xyz"[i], a])
        c.close(t.m, m, "constructor-matrix", "constructor matrix differs from its definition", tol=1e-9, which=desc[-1])
        ti = np.dot(np.array(t.m), np.array(t.m_inv))
        c.close(ti, np.eye(4), "constructor-inverse", "stored inverse is not the inverse", tol=1e-9, which=desc[-1])
        T = T * t
        M = g.mm(M, m)
    return T, M, desc


@task(quick=1500, thorough=40000)
def algebra(c):
    r = c.rng
    A, MA, da = build(c, r.randrange(1, 4))
    B, MB, db = build(c, r.randrange(1, 4))
    c.note(A=da, B=db)
    c.sig(da, db)
    p, v, n = g.vec3(r), g.vec3(r), g.vec3(r)
    P, Vv, Nn = g.P(p), g.V(v), g.N(n)
    sA = (g.snap(A.m), g.snap(A.m_inv))
    AB = A * B
    tol = 1e-8 * (1 + max(abs(x) for row in g.mm(MA, MB) for x in row))
    c.close(AB.m, g.mm(MA, MB), "product-matrix", "composition is not the matrix product", tol=tol)
    c.close(AB(P), A(B(P)), "compose-point", "(A*B)(p) != A(B(p))", tol=tol)
    c.close(AB(Vv), A(B(Vv)), "compose-vector", "(A*B)(v) != A(B(v))", tol=tol)
    nn1, nn2 = AB(Nn), A(B(Nn))
    sc = 1 + float(np.max(np.abs(nn2))) + float(np.max(np.abs(AB.m_inv)))
    c.close(np.array(nn1) / sc, np.array(nn2) / sc, "compose-normal", "(A*B)(n) != A(B(n))", tol=1e-8)
    c.close(A(P), g.m_pt(MA, p), "point", "transformed point wrong", tol=1e-9)
    c.close(A(Vv), g.m_vec(MA, v), "vector", "transformed vector wrong", tol=1e-9)
    inv, _ = g.m_inv3(MA)
    si = 1 + max(abs(x) for row in inv for x in row) * (1 + g.ln(n))
    c.close(np.array(A(Nn)) / si, np.array(g.m_nrm(MA, n)) / si, "normal", "transformed normal wrong", tol=1e-9)
    # types
    c.check(isinstance(A(P), geo.Point) and isinstance(A(Vv), geo.Vector) and isinstance(A(Nn), geo.Normal),
            "result-type", "transforming changed the kind of the argument")
    raw = np.array(p)
    c.close(A(raw, dtype=geo.Point), A(P), "dtype-point", "raw array as point", tol=1e-12)
    c.close(A(raw, dtype=geo.Vector), A(g.V(p)), "dtype-vector", "raw array as vector", tol=1e-12)
    # inverse
    I = A.inverse()
    c.close(I(A(P)), p, "inverse-roundtrip", "inverse does not undo the transform",
            tol=1e-9 * si * (1 + max(abs(x) for row in MA for x in row)) ** 2)
    c.check(np.array_equal(I.m, A.m_inv) and np.array_equal(I.m_inv, A.m), "inverse-pair", "inverse() does not swap the pair")
    pi = np.dot(np.array(B.inverse().m), np.array(I.m))
    sp = 1 + float(np.max(np.abs(pi)))
    c.close(np.array(AB.inverse().m) / sp, pi / sp, "inverse-of-product", "(AB)^-1 != B^-1 A^-1", tol=1e-8)
    c.close(np.dot(np.array(AB.m), np.array(AB.m_inv)) / sp, np.eye(4) / sp, "product-inverse",
            "stored inverse of a product is not its inverse", tol=1e-8 * (1 + tol * 1e8))
    # normal stays perpendicular
    t1 = g.cross(n, v)
    if g.ln(t1) > 1e-6:
        tn, tt = A(Nn), A(g.V(t1))
        d = float(np.dot(np.array(tn), np.array(tt)))
        s = float(np.linalg.norm(tn)) * float(np.linalg.norm(tt))
        c.check(abs(d) <= 1e-8 * (1 + s) * (1 + g.ln(n) * g.ln(t1)), "normal-perpendicular",
                "transformed normal is not perpendicular to transformed tangent", dot=d, scale=s)
    # ray
    ray = geo.Ray(g.P(p), g.V(v), r.uniform(0, 1), r.uniform(1, 9), r.randrange(5), r.random())
    rs = g.ray_snap(ray)
    tr = A(ray)
    t = r.uniform(-3, 5)
    c.close(tr(t), A(ray(t)), "ray-point", "transformed ray does not trace transformed points", tol=1e-8 * (1 + tol * 1e8))
    c.check((tr.mint, tr.maxt, tr.depth, tr.time) == (ray.mint, ray.maxt, ray.depth, ray.time), "ray-fields",
            "transforming a ray changed its range, depth or time")
    c.check(type(tr) is geo.Ray, "ray-type", "")
    c.check(g.ray_snap(ray) == rs, "ray-mutated", "transforming a ray modified it")
    # immutability of arguments and of the transform
    c.check(g.snap(P) == g.snap(p) and g.snap(Vv) == g.snap(v) and g.snap(Nn) == g.snap(n), "argument-mutated",
            "transforming modified its argument")
    c.check((g.snap(A.m), g.snap(A.m_inv)) == sA, "transform-mutated", "using a transform modified it")
    c.check(A == A.copy() and not (A != A.copy()), "copy-equal", "copy is not equal")
    det = g.m_inv3(MA)[1]
    c.check(bool(A.swaps_handedness()) == (det < 0), "handedness", "swaps_handedness wrong", det=det)
    src = np.array(MA)
    T2 = Transform(src)
    src[0, 0] += 1.
    c.close(T2.m, MA, "ctor-alias", "Transform aliases the matrix it was built from", tol=1e-12)
    c.close(np.dot(np.array(T2.m), np.array(T2.m_inv)), np.eye(4), "ctor-inverse", "inverse computed wrongly",
            tol=1e-8 * si * (1 + max(abs(x) for row in MA for x in row)))


@task(quick=400, thorough=8000)
def predicates(c):
    """is_identity, has_scale and equality say what the matrix is: near misses included"""
    r = c.rng
    k = r.randrange(8)
    which = r.randrange(1, 8)
    v = [g.num(r) or 1. if which >> i & 1 else 0. for i in range(3)]
    if k == 0:
        T, M = Transform.translate(g.V(v)), g.m_translate(v)
    elif k == 1:
        s = [math.exp(r.uniform(-2, 2)) * r.choice([1, 1, -1]) if which >> i & 1 else r.choice([1., 1., -1.]) for i in range(3)]
        T, M = Transform.scale(*s), g.m_scale(s)
    elif k == 2:
        a, ax = r.choice([90, 180, 270, r.uniform(1, 359)]), r.choice([[1., 0, 0], [0, 1., 0], [0, 0, 1.], g.unit(r)])
        T, M = Transform.rotate(a, g.V(ax)), g.m_rotate(a, ax)
    elif k == 3:
        T, M = Transform(), g.ident()
    elif k == 4:
        T, M = Transform.translate(g.V(v)) * Transform.translate(g.V(v)).inverse(), g.ident()
    elif k == 5:
        M = g.ident()
        M[r.randrange(3)][r.randrange(4)] += r.choice([-1, 1]) * math.exp(r.uniform(-4, 2))
        if abs(g.m_inv3(M)[1]) < 1e-2:
            M = g.m_scale([2., 1., 1.])
        T = Transform(np.array(M))
    elif k == 6:
        # stretched along the diagonals of two axes: every row keeps its unit length
        i, e = r.randrange(3), r.uniform(.05, .9) * r.choice([-1, 1])
        s, ax = [1., 1., 1.], [0., 0., 0.]
        ax[i], s[(i + 1) % 3], s[(i + 2) % 3] = 1., math.sqrt(1 + e), math.sqrt(1 - e)
        q = g.rigid(r) if r.random() < .5 else (Transform(), g.ident())
        T = Transform.rotate(45., g.V(ax)) * Transform.scale(*s) * q[0]
        M = g.mm(g.mm(g.m_rotate(45., ax), g.m_scale(s)), q[1])
    else:
        T, M, _ = build(c, r.randrange(1, 4))
    c.note(kind=k, M=M)
    c.sig(k, M)
    off = max(abs(M[i][j] - (i == j)) for i in range(4) for j in range(4))
    if off == 0 or off > 1e-9:
        c.check(bool(T.is_identity()) == (off == 0), "identity", "is_identity() is wrong about its matrix")
        c.check(bool(T == Transform()) == (off == 0) and bool(T != Transform()) == (off != 0), "equality",
                "comparison with the identity is wrong")
        c.event("identity" if off == 0 else "not-identity")
    # lengths of all vectors are kept exactly when the rows are orthonormal
    rows = [[sum(M[i][j] * M[k][j] for j in range(3)) for i in range(3)] for k in range(3)]
    dev = max(abs(rows[i][k] - (i == k)) for i in range(3) for k in range(3))
    if dev < 1e-8 or dev > 1e-3:
        c.check(bool(T.has_scale()) == (dev > 1e-3), "has-scale", "has_scale() is wrong about its matrix", rows=rows)
        c.event("scaled" if dev > 1e-3 else "unscaled")
    c.check(bool(T.swaps_handedness()) == (g.m_inv3(M)[1] < 0), "handedness", "swaps_handedness wrong")


@task(quick=400, thorough=6000)
def box(c):
    """boxes under translation and positive scaling map corner to corner"""
    r = c.rng
    a, b = g.vec3(r), g.vec3(r)
    lo = [min(x, y) for x, y in zip(a, b)]
    hi = [max(x, y) for x, y in zip(a, b)]
    d = g.vec3(r)
    s = [math.exp(r.uniform(-1, 1)) for _ in range(3)]
    T = Transform.translate(g.V(d)) * Transform.scale(*s)
    c.note(lo=lo, hi=hi, d=d, s=s)
    c.sig(lo, hi, d, s)
    bb = geo.BBox(g.P(lo), g.P(hi))
    res = T(bb)
    c.close(res.pMin, [x * k + y for x, k, y in zip(lo, s, d)], "box-min", "", tol=1e-9)
    c.close(res.pMax, [x * k + y for x, k, y in zip(hi, s, d)], "box-max", "", tol=1e-9)
    c.check(g.snap(bb.pMin) == g.snap(lo) and g.snap(bb.pMax) == g.snap(hi), "box-mutated", "transforming a box modified it")


@task(quick=800, thorough=20000)
def look_at(c):
    r = c.rng
    pos, look, up = g.vec3(r), g.vec3(r), g.unit(r)
    z = g.sub(look, pos)
    if g.ln(z) < 1e-3 or g.ln(g.cross(g.nrm(z), up)) < 1e-2:
        look = g.add(pos, [.3, -1.2, .7])
        up = [0., 0., 1.]
    up = g.mul(up, math.exp(r.uniform(-2, 2)))
    c.note(pos=pos, look=look, up=up)
    c.sig(pos, look, up)
    T = Transform.look_at(g.P(pos), g.P(look), g.V(up))
    z = g.nrm(g.sub(look, pos))
    c.close(T(geo.Point(0., 0., 0.)), pos, "look-origin", "camera origin is not at pos", tol=1e-9)
    c.close(T(geo.Vector(0., 0., 1.)), z, "look-forward", "forward axis does not point at the target", tol=1e-9)
    y = g.lst(T(geo.Vector(0., 1., 0.)))
    x = g.lst(T(geo.Vector(1., 0., 0.)))
    c.check(g.dot(y, up) > 0, "look-up", "up axis is not in the half-plane of up", y=y)
    c.check(abs(g.dot(g.cross(z, g.nrm(up)), y)) < 1e-8, "look-up-plane", "up axis leaves the plane of forward and up", y=y)
    c.check(abs(g.ln(y) - 1) < 1e-9 and abs(g.ln(x) - 1) < 1e-9 and abs(g.dot(x, y)) < 1e-9 and abs(g.dot(x, z)) < 1e-9,
            "look-rigid", "axes are not orthonormal")
    c.close(x, g.cross(y, z), "look-handed", "x axis is not up x forward", tol=1e-8)
    c.close(np.dot(np.array(T.m), np.array(T.m_inv)), np.eye(4), "look-inverse", "stored inverse is not the inverse", tol=1e-8)
    c.check(not T.has_scale(), "look-scale", "look-at reports a scale")


@task(quick=600, thorough=15000)
def projections(c):
    r = c.rng
    n = math.exp(r.uniform(-4, 1))
    f = n * (1 + math.exp(r.uniform(-2, 6)))
    fov = r.uniform(5, 170)
    c.note(n=n, f=f, fov=fov)
    c.sig(n, f, fov)
    T = Transform.perspective(fov, n, f)
    z = r.choice([n, f, r.uniform(n, f)])
    tn = math.tan(math.radians(fov) / 2)
    sx, sy = r.choice([-1., 0, 1, r.uniform(-2, 2)]), r.choice([-1., 0, 1, r.uniform(-2, 2)])
    p = [sx * z * tn, sy * z * tn, z]
    q = T(g.P(p))
    c.close(q, [sx, sy, f * (z - n) / ((f - n) * z)], "perspective", "projected point wrong", tol=1e-6, p=p)
    c.close(T.inverse()(q), p, "perspective-inverse", "unprojection does not undo projection", tol=1e-5 * (f / n) ** .5)
    # the same map behind the viewer, where the homogeneous coordinate is negative
    z = r.choice([-1., -n, -f, r.uniform(-f, -n)])
    p = [sx * z * tn, sy * z * tn, z]
    q = T(g.P(p))
    c.close(q, [sx, sy, f * (z - n) / ((f - n) * z)], "perspective-behind", "projected point behind the viewer wrong",
            tol=1e-6, p=p)
    # a point map does not change when its homogeneous matrix is multiplied by a constant
    k = r.choice([-1., -2., .5, 3., r.choice([-1, 1]) * math.exp(r.uniform(-4, 4))])
    A, MA, da = build(c, r.randrange(1, 3))
    K = Transform(np.array(MA) * k)
    p = g.vec3(r)
    c.close(K(g.P(p)), g.m_pt(MA, p), "homogeneous-scale", "scaling the homogeneous matrix moved the point",
            tol=1e-7 + 3e-5 * (abs(k - 1) < 2e-5), k=k, p=p)
    ray = geo.Ray(g.P(p), g.V(g.unit(r)))
    c.close(K(ray).o, g.m_pt(MA, p), "homogeneous-ray", "scaling the homogeneous matrix moved the ray's origin",
            tol=1e-7 + 3e-5 * (abs(k - 1) < 2e-5), k=k, p=p)
    O = Transform.orthographic(n, f)
    p = [g.num(r), g.num(r), r.uniform(n, f)]
    c.close(O(g.P(p)), [p[0], p[1], (p[2] - n) / (f - n)], "orthographic", "projected point wrong", tol=1e-8)
    c.close(O.inverse()(O(g.P(p))), p, "orthographic-inverse", "", tol=1e-8)


@task(quick=500, thorough=10000)
def given(c):
    """transforms from matrices: a copy of its own, the inverse found, the caller's arrays left alone"""
    r = c.rng
    _, M, desc = build(c, r.randrange(1, 4))
    if r.random() < .5:
        M = [[x + r.gauss(0, .1) if i < 3 else x for x in row] for i, row in enumerate(M)]
    a = np.array(M, dtype=float)
    if abs(np.linalg.det(a)) < 1e-3 or np.linalg.cond(a) > 1e6:
        return
    k = r.choice(["plain", "transposed", "window"])
    m = a.copy()
    if k == "transposed":
        m = np.array(a.T).T
    elif k == "window":
        big = np.zeros((6, 6))
        big[1:5, 1:5] = a
        m = big[1:5, 1:5]
    inv = np.linalg.inv(a)
    both = r.random() < .5
    mi = np.array(inv.T).T if k == "transposed" else inv.copy()
    c.note(M=M, kind=k, both=both)
    c.sig(M, k, both)
    T = Transform(m, mi) if both else Transform(m)
    c.event(k + (".both" if both else ""))
    tol = 1e-9 * (1 + np.abs(a).max()) * (1 + np.abs(inv).max())
    c.close(T.m, a, "given-matrix", "not the matrix given", tol=0)
    c.close(T.m_inv, inv, "given-inverse", "not its inverse", tol=tol)
    c.check(np.array_equal(m, a) and np.array_equal(mi, inv), "given-pure", "the caller's matrix was changed")
    if c.check(m.flags.writeable and mi.flags.writeable, "given-frozen", "the caller's matrix became read-only"):
        m *= -3.
        m += 1.
        mi *= 5.
        c.close(T.m, a, "given-own", "overwriting the caller's matrix changed the transform", tol=0)
        c.close(T.m_inv, inv, "given-own-inverse", "overwriting the caller's matrix changed the transform", tol=tol)
    C = T.copy()
    c.check(bool(C == T) and not bool(C != T), "copy-equal", "a copy is not equal")
    p = g.vec3(r)
    sz = 1 + g.ln(p)
    c.close(g.lst(C(g.P(p))), g.lst(T(g.P(p))), "copy-same", "a copy transforms otherwise", tol=1e-12 * sz)
    I = T.inverse()
    c.close(g.lst(I(T(g.P(p)))), p, "given-undone", "the inverse does not undo it", tol=tol * sz)
    c.close(I.inverse().m, a, "inverse-inverse", "the inverse of the inverse is another", tol=1e-12)
