"""P39 scene-description interface: model-based histories of calls"""
import io
import math
import contextlib
from core import tasklist
import gen as g
import numpy as np
import pytracer.interface as I
import pytracer.transform as trans
from pytracer.transform import Transform

TASKS, task = tasklist()
RULE = "random well-nested histories of 10..80 scene calls (transforms, named coordinate systems, attribute and transform scopes to depth 10, options, clean and re-initialise) mirrored by a reference state; distinct by history"
SETTERS = [("set_pixel_filter", "filter"), ("set_film", "film"), ("set_sampler", "sampler"), ("set_aggregator", "aggregator"),
           ("set_renderer", "renderer"), ("set_surface", "surface"), ("set_volume", "volume"), ("set_camera", "camera")]
OPTS = [k for _, k in SETTERS]
PARAMS = ['float', 'int', 'bool', 'vector', 'normal', 'spectrum', 'point', 'string']


def quiet(f, *a):
    """(raised exception type or None, value)"""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return None, f(*a)
        except Exception as e:
            return type(e), None


def eye4():
    return [[1. if i == j else 0. for j in range(4)] for i in range(4)]


def look(eye, at, up):
    """camera to world"""
    z = g.nrm(g.sub(at, eye))
    x = g.nrm(g.cross(g.nrm(up), z))
    y = g.cross(z, x)
    if g.ln(x) < .5:
        return None
    return [[x[0], y[0], z[0], eye[0]], [x[1], y[1], z[1], eye[1]], [x[2], y[2], z[2], eye[2]], [0., 0., 0., 1.]]


class Model(object):
    """reference state: everything by value"""

    def __init__(self):
        self.live = False
        self.reset()

    def reset(self):
        self.cur = [eye4(), eye4()]
        self.stack = []
        self.names = {}
        self.attr = None
        self.opt = None
        self.o = dict(zip(OPTS, ["box", "image", "stratified", "simple", "sampler", "directlighting", "", "perspective"]))
        self.p = dict.fromkeys(OPTS)
        self.time = (0., 1.)
        self.cam = [eye4(), eye4()]


def mats(ts):
    return [np.array(t.m, dtype=float).tolist() for t in ts]


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-6 * (1 + np.max(np.abs(b)))))


def observe(c, md, last):
    """the interface's state against the model"""
    ts = list(I.TRANSFORM_SET)
    c.check(len(ts) == 2 and same(mats(ts), md.cur), "transforms", "current transforms differ after " + last, got=mats(ts), want=md.cur)
    for t, m in zip(ts, md.cur):
        k = np.dot(np.array(t.m, dtype=float), np.array(t.m_inv, dtype=float))
        c.check(np.max(np.abs(k - np.eye(4))) < 1e-5 * (1 + np.max(np.abs(t.m)) * np.max(np.abs(t.m_inv))), "inverse", "stored inverse is not the inverse after " + last)
    ro = I.RENDER_OPTION
    c.check([getattr(ro, k + "_name") for k in OPTS] == [md.o[k] for k in OPTS], "options", "render options after " + last, want=md.o)
    c.check(all(getattr(ro, k + "_param") is md.p[k] for k in OPTS), "params", "render parameters after " + last)
    c.check((ro.trans_start_time, ro.trans_end_time) == md.time, "time", "transformation times after " + last)
    c.check(same(mats(ro.cam2wld), md.cam), "camera", "camera placement after " + last, got=mats(ro.cam2wld), want=md.cam)
    c.check(I.GLOBAL_OPTION is md.opt, "global", "global options after " + last)
    c.check(getattr(I.GRAPHICS_STATE, "probe", None) == md.attr, "attributes", "graphics state after " + last, got=getattr(I.GRAPHICS_STATE, "probe", None), want=md.attr)


def args(r, k):
    """(call arguments, matrix)"""
    if k == "trans_translate":
        d = g.vec3(r)
        return [list(d)], g.m_translate(d)
    if k == "trans_rotate":
        a, x = r.choice([90., -45., r.uniform(-360, 360)]), g.unit(r)
        return [a, list(x)], g.m_rotate(a, x)
    if k == "trans_scale":
        s = [r.choice([-1, 1]) * math.exp(r.gauss(0, .3)) for _ in range(3)]
        if r.random() < .3:
            s = [s[0]] * 3
        return [list(s)], g.m_scale(s)
    if k == "trans_look_at":
        while True:
            e, a, u = g.vec3(r), g.vec3(r), g.unit(r)
            d = g.sub(a, e)
            if g.ln(d) > .1 and g.ln(g.cross(g.nrm(d), u)) > .1:
                break
        m = look(e, a, u)
        return [e, a, u], np.linalg.inv(np.array(m)).tolist()
    T, M, _ = g.affine(r)
    return [T], M


LEAVES = ["trans_identity", "trans_translate", "trans_rotate", "trans_scale", "trans_look_at", "trans_concat", "trans_set"]


def step(c, md, k, scopes):
    """one call on both; returns False when refused"""
    r = c.rng
    if k in LEAVES:
        if k == "trans_identity":
            I.trans_identity()
            md.cur = [eye4(), eye4()]
        else:
            a, m = args(r, k)
            before = repr([g.lst(x) if isinstance(x, list) else (x if isinstance(x, float) else x.m.tolist()) for x in a])
            getattr(I, k)(*a)
            c.check(repr([g.lst(x) if isinstance(x, list) else (x if isinstance(x, float) else x.m.tolist()) for x in a]) == before, "args", "changed its argument: " + k)
            md.cur = [[list(q) for q in m] if k == "trans_set" else g.mm(x, m) for x in md.cur]
        if max(abs(v) for x in md.cur for q in x for v in q) > 1e4:
            I.trans_identity()
            md.cur = [eye4(), eye4()]
    elif k == "add":
        n = r.choice("abcd")
        I.add_coordinate_system(n)
        md.names[n] = [list(map(list, x)) for x in md.cur]
    elif k == "recall":
        n = r.choice(["a", "b", "c", "d", "world", "camera", "nowhere"])
        e, _ = quiet(I.set_coordinate_system, n)
        if n in md.names:
            c.check(e is None, "recall", "recorded coordinate system refused", name=n, error=str(e))
            md.cur = [list(map(list, x)) for x in md.names[n]]
            c.event("recalled")
        else:
            c.check(e is RuntimeError, "unknown", "unknown coordinate system accepted", name=n, error=str(e))
    elif k == "split":
        # the two key transforms differ
        T1, M1, _ = g.affine(r)
        T2, M2, _ = g.affine(r)
        I.TRANSFORM_SET = [T1, T2]
        md.cur = [M1, M2]
    elif k == "open":
        if len(scopes) >= 10:
            return
        w = r.choice(["attribute", "transform"])
        getattr(I, w + "_begin")()
        scopes.append(w)
        md.stack.append((w, [list(map(list, x)) for x in md.cur], md.attr))
    elif k == "close":
        if not scopes:
            w = r.choice(["attribute", "transform"])
            e, _ = quiet(getattr(I, w + "_end"))
            c.check(e is None, "unmatched", "unmatched end is not ignored", error=str(e))
            return
        w = scopes.pop()
        getattr(I, w + "_end")()
        _, cur, attr = md.stack.pop()
        md.cur = cur
        if w == "attribute":
            md.attr = attr
        c.event("closed-depth-%d" % (len(scopes) + 1))
    elif k == "attr":
        v = r.random()
        I.GRAPHICS_STATE.probe = v
        md.attr = v
    elif k == "option":
        f, o = r.choice(SETTERS)
        n = r.choice(["Box", "gaussian", "ORTHO", "x%d" % r.randrange(99)])
        p = I.Param()
        getattr(I, f)(n, p)
        md.o[o], md.p[o] = n.lower(), p
        if o == "camera":
            md.cam = [np.linalg.inv(np.array(x)).tolist() for x in md.cur]
            md.names["camera"] = [list(map(list, x)) for x in md.cam]
    elif k == "time":
        a = r.random()
        I.set_transformation_time(a, a + 1)
        md.time = (a, a + 1)
    elif k == "world":
        I.world_begin()
        md.cur = [eye4(), eye4()]
        md.names["world"] = [eye4(), eye4()]
    elif k == "reinit":
        e, _ = quiet(I.system_init, I.Option())
        c.check(e is RuntimeError, "twice", "second initialisation accepted", error=str(e))


ALL = LEAVES * 2 + ["add", "add", "recall", "recall", "split", "open", "open", "open", "close", "close", "close", "attr", "option", "option", "time", "world", "reinit"]
CALLS = [("trans_identity", []), ("trans_translate", [[1., 2., 3.]]), ("trans_rotate", [30., [0., 0., 1.]]), ("trans_scale", [[1., 2., 3.]]),
         ("trans_look_at", [[0., 0., 5.], [0., 0., 0.], [0., 1., 0.]]), ("trans_concat", [Transform()]), ("trans_set", [Transform()]),
         ("add_coordinate_system", ["q"]), ("set_coordinate_system", ["q"]), ("set_transformation_time", [0., 2.]), ("world_begin", []),
         ("attribute_begin", []), ("attribute_end", []), ("transform_begin", []), ("transform_end", [])] + [(f, ["box", None]) for f, _ in SETTERS]


def refused(c):
    for f, a in CALLS:
        e, _ = quiet(getattr(I, f), *a)
        c.check(e is RuntimeError, "uninit", f + " accepted before initialisation", error=str(e))


@task(quick=260, thorough=15000, min_events=70000)
def histories(c):
    r = c.rng
    quiet(I.system_clean)
    refused(c)
    log = []
    try:
        for life in range(r.choice([1, 1, 2, 3])):
            md = Model()
            md.opt = I.Option(n_cores=r.randrange(1, 9))
            with contextlib.redirect_stdout(io.StringIO()):
                I.system_init(md.opt)
            if life:
                c.event("second-life")
            scopes = []
            observe(c, md, "initialisation")
            for _ in range(r.randint(10, 40)):
                k = r.choice(ALL)
                log.append(k)
                c.note(history=log[-12:], scopes=list(scopes))
                step(c, md, k, scopes)
                observe(c, md, k)
            while scopes and r.random() < .8:
                step(c, md, "close", scopes)
                observe(c, md, "close")
            # every name still recalls what it recorded
            for n in sorted(md.names):
                e, _ = quiet(I.set_coordinate_system, n)
                c.check(e is None and same(mats(I.TRANSFORM_SET), md.names[n]), "recall-late", "named system no longer what was recorded", name=n)
            with contextlib.redirect_stdout(io.StringIO()):
                I.system_clean()
            c.check(I.GLOBAL_OPTION is None and I.RENDER_OPTION is None, "cleaned", "options survive cleaning")
            refused(c)
            with contextlib.redirect_stdout(io.StringIO()):
                I.system_clean()
    finally:
        quiet(I.system_clean)
    c.sig(log)


@task(quick=1500, thorough=40000, min_events=15000)
def params(c):
    """typed parameter queues"""
    r = c.rng
    p, other = I.Param(), I.Param()
    md = {k: [] for k in PARAMS}
    log = []
    for _ in range(r.randint(5, 30)):
        k = r.choice(PARAMS)
        op = r.choice(["push", "push", "enum", "more", "fetch", "bad"])
        log.append((op, k))
        c.note(history=log[-12:])
        if op == "push":
            x = r.choice([r.random(), [r.random(), 2], "s%d" % r.randrange(9), None, [], True])
            p.push_back(k, x)
            md[k].append(x)
        elif op == "enum":
            got = p.enum(k)
            want = md[k].pop(0) if md[k] else None
            c.check(got is want or got == want, "order", "not the oldest value of this type", got=got, want=want)
        elif op == "more":
            c.check(p.has_more(k) == (len(md[k]) > 0), "more", "has_more")
        elif op == "fetch":
            c.check(list(p.fetch(k)) == md[k], "fetch", "not all values of this type", got=list(p.fetch(k)), want=md[k])
        else:
            for f, a in ((p.push_back, ("matrix", 1)), (p.enum, ("matrix",)), (p.fetch, ("matrix",)), (p.has_more, ("matrix",))):
                e, _ = quiet(f, *a)
                c.check(e is KeyError, "type", "unknown parameter type accepted", error=str(e))
        c.check([list(p.fetch(q)) for q in PARAMS] == [md[q] for q in PARAMS], "state", "another type's values changed")
    c.check(not any(other.has_more(k) for k in PARAMS), "shared", "values appear in another container")
    c.sig(log)
