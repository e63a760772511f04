"""Scene scores (shape, semantics, perceptual) are the documented averages over thresholds and categories."""
import math
from symex.api import *
from checks.P16 import Scene, settings, bnd
from checks.P17 import area, unit, TOL

REG = Registry()
FUNCTIONS = ['Evaluator.shape_score', 'semantics_score', 'perceptual_score', '_perceptual_score_1', '_room_scale',
             '_gaussian_function']
ASSUMPTIONS = ['exp is positive, strictly increasing and one at zero']
MODS = ['sumo.metrics.evaluator', 'sumo.semantic.project_object_dict', 'sumo.semantic.project_object',
        'sumo.threedee.box_3d', 'sumo.geometry.pose3', 'sumo.base.vector']
EV = 'sumo.metrics.evaluator'


def exp(c, x):
    if c.concrete:
        return math.exp(x)
    from symex import smath
    return smath.exp(x)


def obj(W, id, cat='x', score=-1, ev=True, size=None, t=None):
    PO = W.module('sumo.semantic.project_object').ProjectObject
    box = pose = None
    if size is not None:
        box = W.module('sumo.threedee.box_3d').Box3d(W.np.array([0.0, 0.0, 0.0]),
                                                     W.np.array(list(size), dtype='float64'))
    if t is not None:
        V = W.module('sumo.base.vector').Vector3
        pose = W.module('sumo.geometry.pose3').Pose3(t=V(*t))
    return PO.gen_bounding_box_object(id=id, bounds=box, pose=pose, category=cat, score=score, evaluated=ev)


def make(W, dets, gts, sim, thresholds, categories=(), **extra):
    E = W.module(EV).Evaluator
    D = W.module('sumo.semantic.project_object_dict').ProjectObjectDict

    def scene(objs):
        d = D()
        for o in objs:
            d[o.id] = o
        return Scene(d)

    class Fake(E):
        def _shape_similarity(self, a, b):
            return sim[a.id][b.id]
    s = settings(W, thresholds, list(categories))
    s.update(extra)
    return Fake(scene(dets), scene(gts), s)


def distinct(c, xs):
    for i in range(len(xs)):
        for j in range(i):
            c.assume(any_(c, [xs[i] < xs[j], xs[i] > xs[j]]))


def data(c, nd, ng):
    ds = [('d%d' % i, c.real('score%d' % i)) for i in range(nd)]
    gs = ['g%d' % i for i in range(ng)]
    sim = {d: {g: c.real('s_%s_%s' % (d, g), 0, 1) for g in gs} for d, _ in ds}
    distinct(c, [s for _, s in ds])
    for d, _ in ds:
        distinct(c, list(sim[d].values()))
    if c.concrete:
        for d, _ in ds:
            for v in sim[d].values():
                c.assume(min(abs(v - t) for t in (0.25, 0.5, 0.75)) > EPS)
    return ds, gs, sim


def greedy(ds, gs, sim, t):
    got = {}
    for d, s in sorted(ds, key=lambda x: -x[1]):
        cand = [g for g in gs if g not in got.values() and sim[d][g] >= t]
        if cand:
            got[d] = max(cand, key=lambda g: sim[d][g])
    return got


def ap(ds, gs, ev, sim, t):
    got = greedy(ds, gs, sim, t)
    ms = [int(d in got) for d, s in sorted(ds, key=lambda x: -x[1]) if d not in got or ev[got[d]]]
    return area(ms, sum(ev[g] for g in gs)) if ms else 0


def shape(nd, ng, th):
    def h(c, W):
        ds, gs, sim = data(c, nd, ng)
        ev = {g: bool(c.bool('ev_' + g)) for g in gs}
        c.assume(any(ev.values()))
        e = make(W, [obj(W, d, score=s) for d, s in ds], [obj(W, g, ev=ev[g]) for g in gs], sim, th)
        r = e.shape_score()
        unit(c, r, 'shape score is in [0, 1]')
        c.eq(r, sum(ap(ds, gs, ev, sim, t) for t in th) / len(th), 'shape score is the mean average precision',
             tol=TOL)
    return h


for nd, ng, th, tier in [(2, 2, [0.75, 0.25], 'quick'), (1, 2, [0.5, 0.75, 0.25], 'quick'), (3, 1, [0.5], 'quick'),
                         (3, 2, [0.5], 'thorough'), (2, 3, [0.5, 0.25], 'thorough')]:
    REG.add(shape(nd, ng, th), 'shape_%dx%d_%d' % (nd, ng, len(th)), bnd(nd, ng, th) +
            ', any evaluated flags; no ties', MODS, tier)


def semantics(nd, ng, cats, th):
    def h(c, W):
        ds, gs, sim = data(c, nd, ng)
        dc = {d: c.choice('cat_' + d, cats) for d, _ in ds}
        gc = {g: c.choice('cat_' + g, cats) for g in gs}
        ev = {g: g != 'g1' or bool(c.bool('ev_' + g)) for g in gs}
        used = [k for k in ('y', 'x') if any(gc[g] == k and ev[g] for g in gs)]
        c.assume(bool(used))
        e = make(W, [obj(W, d, dc[d], s) for d, s in ds], [obj(W, g, gc[g], ev=ev[g]) for g in gs], sim, th, ['y', 'x'])
        r = e.semantics_score()
        unit(c, r, 'semantics score is in [0, 1]')
        aps = [ap([d for d in ds if dc[d[0]] == k], [g for g in gs if gc[g] == k], ev, sim, t) for t in th for k in used]
        c.eq(r, sum(aps) / len(aps), 'semantics score is the mean over categories and thresholds', tol=TOL)
    return h


for nd, ng, cats, th in [(2, 2, 'xy', [0.5]), (1, 2, 'xyz', [0.5, 0.25]), (2, 1, 'xyz', [0.25, 0.75])]:
    REG.add(semantics(nd, ng, list(cats), th), 'semantics_%dx%d_%d' % (nd, ng, len(th)), bnd(nd, ng, th) +
            ', each in any of the categories ' + ', '.join(cats) + ' (x and y evaluated), any evaluated flag; no ties', MODS)


def bell(c, p, x):
    return p['weight'] * exp(c, -0.5 * (x - p['mean']) * (x - p['mean']) / p['std_dev'] ** 2)


def params(room=0.5, true=0.5, rel=0.25, tr=0.5, el=0.25):
    def g(w, m, s):
        return dict(weight=w, mean=m, std_dev=s)
    return dict(room_scale=g(100, 1.0, room), true_obj_scale=g(5, 1.0, true), relative_obj_scale=g(6, 1.0, rel),
                translation=g(7, 0.0, tr), elevation=g(8, 0.0, el), missed_weight=25, extra_weight=20)


def perceptual(what):
    def h(c, W):
        p = params()
        size = [2.0, 1.0, 4.0]
        dt, dsz, fl = [1.0, 2.0, 3.0], [2.0, 1.0, 4.0], [8.0, 0.5, 4.0]
        gt = [1.0, 2.0, 3.0]
        ev = bool(c.bool('evaluated'))
        matched = bool(c.bool('matched'))
        if what == 'elevation':
            dt[1] = c.real('y', -50, 50)
        elif what == 'translation_x':
            dt[0] = c.real('x', -50, 50)
        elif what == 'translation_z':
            dt[2] = c.real('z', -50, 50)
        elif what == 'size':
            dsz[1] = c.real('height', 0, 50)
        elif what == 'floor':
            fl[2] = c.real('depth', 0, 50)
        s = 0.75 if matched else 0.25
        sim = {'d': {'g': s, 'f': 0}, 'df': {'g': 0, 'f': 1}}
        e = make(W, [obj(W, 'd', 'x', 2, size=dsz, t=dt), obj(W, 'df', 'floor', 1, size=fl, t=[0.0, 0.0, 0.0])],
                 [obj(W, 'g', 'x', ev=ev, size=size, t=gt),
                  obj(W, 'f', 'floor', size=[4.0, 1.0, 4.0], t=[0.0, 0.0, 0.0])], sim, [0.5], perceptual=p)
        r = e.perceptual_score()
        room = fl[0] * fl[2] / 16.0
        tot, best = bell(c, p['room_scale'], room), 100

        def pair(dv, gv, tx, ty, tz):
            t, b = bell(c, p['true_obj_scale'], dv / gv), 5
            if room > 0:
                # the ratio det/(gt*room) is used as it stands
                t, b = t + bell(c, p['relative_obj_scale'], dv / (gv * room)), b + 6
            d2 = tx * tx + tz * tz
            t += 7 * exp(c, -0.5 * d2 / p['translation']['std_dev'] ** 2)
            t += bell(c, p['elevation'], ty)
            return t, b + 7 + 8
        t, b = pair(fl[0] * fl[1] * fl[2], 16.0, 0, 0, 0)
        tot, best = tot + t, best + b
        dv = dsz[0] * dsz[1] * dsz[2]
        if matched:
            if ev:
                t, b = pair(dv, 8.0, dt[0] - gt[0], dt[1] - gt[1], dt[2] - gt[2])
                tot, best = tot + t, best + b
        else:
            tot -= 20 * dv
            if ev:
                tot -= 25 * 8.0
        unit(c, r, 'perceptual score is in [0, 1]')
        if c.concrete:
            want = max(tot, 0) / best
        else:
            want = tot / best if tot > 0 else 0
        c.eq(r, want, 'perceptual score is the documented sum', tol=1e-9)
    return h


for k, b in [('elevation', 'any elevation'), ('translation_x', 'any x offset'), ('translation_z', 'any z offset'),
             ('size', 'any detected height'), ('floor', 'any detected floor depth')]:
    REG.add(perceptual(k), 'perceptual_' + k, 'a floor and one object, matched or not, evaluated or not, ' + b, MODS)


@REG.harness(bounds='a perfect submission of a floor and one object of any size and place', mods=MODS)
def perfect(c, W):
    n = lambda s: [c.real(s + k, 0.125, 20) for k in 'xyz']
    a, b, t = n('a'), n('b'), n('t')
    k = bool(c.bool('ev'))
    def objs(p, s):
        return [obj(W, p + 'f', 'floor', s, size=a, t=[0.0, 0.0, 0.0]), obj(W, p + 'o', 'x', s + 1, k, size=b, t=t)]
    sim = {'df': {'gf': 1, 'go': 0}, 'do': {'gf': 0, 'go': 1}}
    e = make(W, objs('d', 1), objs('g', 1), sim, [0.25, 0.75], ['x', 'floor'])
    c.eq(e.perceptual_score(), 1, 'perfect perceptual score', tol=TOL)
    c.eq(e.shape_score(), 1, 'perfect shape score', tol=TOL)
    c.eq(e.semantics_score(), 1, 'perfect semantics score', tol=TOL)


@REG.harness(bounds='a floor and one object, any sizes and places of the detected ones, one similarity per threshold', mods=MODS)
def range_(c, W):
    n = lambda s, lo: [c.real(s + k, lo, 20) for k in 'xyz']
    b, t = n('b', 0.125), n('t', -20)
    k = c.choice('match', [0.5, 0.125])
    sim = {'df': {'gf': 1, 'go': 0}, 'do': {'gf': 0, 'go': k}}
    o = [0.0, 0.0, 0.0]
    e = make(W, [obj(W, 'df', 'floor', 2, size=[2.0, 1.0, 4.0], t=o), obj(W, 'do', 'x', 1, size=b, t=t)],
             [obj(W, 'gf', 'floor', size=[4.0, 1.0, 4.0], t=o), obj(W, 'go', 'x', size=[1.0, 1.0, 2.0], t=[1.0, 1.0, 1.0])],
             sim, [0.25, 0.75], ['x'])
    unit(c, e.perceptual_score(), 'perceptual score is in [0, 1]')
