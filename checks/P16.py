"""Data association: greedy by detection score, one to one, best similarity, above threshold, per category."""
from symex.api import *

REG = Registry()
FUNCTIONS = ['Evaluator.__init__', '_make_similarity_cache', '_compute_agnostic_data_assoc',
             '_compute_category_data_assoc', 'sort_corrs_by_similarity']
ASSUMPTIONS = ['shape similarity is an arbitrary number per detection / ground truth pair',
               'among equal scores or similarities any choice is accepted']
MODS = ['sumo.metrics.evaluator', 'sumo.semantic.project_object_dict', 'sumo.semantic.project_object']


class Scene(object):
    def __init__(self, elements):
        self.elements = elements


def elements(W, rows):
    """rows: (id, category, score, evaluated)"""
    PO = W.module('sumo.semantic.project_object').ProjectObject
    d = W.module('sumo.semantic.project_object_dict').ProjectObjectDict()
    for i, cat, score, ev in rows:
        d[i] = PO.gen_bounding_box_object(id=i, bounds=None, category=cat, score=score, evaluated=ev)
    return d


def settings(W, thresholds, categories):
    E = W.module('sumo.metrics.evaluator').Evaluator
    s = E.default_settings()
    s['thresholds'] = W.np.array(thresholds)
    s['categories'] = categories
    return s


def evaluator(W, dets, gts, sim, thresholds, categories=()):
    E = W.module('sumo.metrics.evaluator').Evaluator

    class Fake(E):
        def _shape_similarity(self, a, b):
            return sim[a.id][b.id]
    return Fake(Scene(elements(W, dets)), Scene(elements(W, gts)), settings(W, thresholds, list(categories)))


def valid(c, assoc, dets, gts, sim, thresh):
    """assoc is the greedy association of dets to gts at this threshold (any order among ties)"""
    score = {d[0]: d[2] for d in dets}
    ev = {g[0]: g[3] for g in gts}
    got = {}
    for d, corr in assoc.items():
        c.check(d in score and corr.det_id == d and corr.gt_id in ev, 'entries pair a detection with a ground truth')
        c.check(corr.gt_id not in got.values(), 'a ground truth element is matched at most once')
        got[d] = corr.gt_id
        c.le(thresh, sim[d][corr.gt_id], 'a match is at least as similar as the threshold')
        c.eq(corr.similarity, sim[d][corr.gt_id], 'the match carries its similarity')
        c.eq(corr.det_score, score[d], 'the match carries the detection score')
        c.check(bool(corr.evaluated) == bool(ev[corr.gt_id]), "the match carries the 'evaluated' flag")
    owner = {g: d for d, g in got.items()}
    for d in score:
        for g in ev:
            if got.get(d) == g:
                continue
            m = EPS if c.concrete else 0
            ok = [sim[d][g] < thresh + m]
            if d in got:
                ok.append(sim[d][got[d]] >= sim[d][g] - m)
            if g in owner:
                ok.append(score[owner[g]] >= score[d] - m)
            c.check(any_(c, ok), 'no better pair is left unmatched')


def data(c, nd, ng, ev=True):
    dets = [('d%d' % i, 'a', c.real('score%d' % i), True) for i in range(nd)]
    gts = [('g%d' % i, 'a', -1, c.bool('ev%d' % i) if ev else i == 0) for i in range(ng)]
    sim = {d[0]: {g[0]: c.real('s_%s_%s' % (d[0], g[0]), 0, 1) for g in gts} for d in dets}
    return dets, gts, sim


def agnostic(nd, ng, thresholds):
    def h(c, W):
        dets, gts, sim = data(c, nd, ng, nd + ng < 5)
        e = evaluator(W, dets, gts, sim, thresholds)
        a = e._agnostic_data_assoc
        c.check(sorted(a.keys()) == sorted(thresholds), 'one association per threshold')
        for t in thresholds:
            valid(c, a[t], dets, gts, sim, t)
    return h


def bnd(nd, ng, th):
    return '%d detections, %d ground truth elements, any similarities and scores (reals), thresholds %s' % (nd, ng, th)


for nd, ng, th, tier in [(2, 2, [0.75, 0.25], 'quick'), (1, 3, [0.5, 0.25, 0.75], 'quick'), (3, 1, [0.5, 0.75], 'quick'),
                         (3, 2, [0.5], 'quick'), (2, 3, [0.5], 'quick'), (3, 3, [0.5], 'thorough'), (3, 2, [0.5, 0.25], 'thorough')]:
    REG.add(agnostic(nd, ng, th), 'agnostic_%dx%d_%d' % (nd, ng, len(th)), bnd(nd, ng, th), MODS, tier)


def by_category(nd, ng, cats, th):
    def h(c, W):
        dets, gts, sim = data(c, nd, ng, False)
        dets = [(d[0], c.choice('cat_' + d[0], cats), d[2], d[3]) for d in dets]
        gts = [(g[0], c.choice('cat_' + g[0], cats), g[2], True) for g in gts]
        e = evaluator(W, dets, gts, sim, th, ['y', 'x'])
        a = e._category_data_assoc
        for cat in a:
            c.check(cat in ('x', 'y'), 'only configured categories')
        for cat in ('x', 'y'):
            ds = [d for d in dets if d[1] == cat]
            gs = [g for g in gts if g[1] == cat]
            if cat not in a:
                c.check(not ds and not gs, 'a category with elements has an association')
                continue
            for t in th:
                c.check(t in a[cat], 'one association per threshold')
                valid(c, a[cat][t], ds, gs, sim, t)
    return h


for nd, ng, cats, th in [(2, 2, 'xyz', [0.5]), (1, 2, 'xz', [0.75, 0.25]), (2, 1, 'xy', [0.25, 0.75])]:
    REG.add(by_category(nd, ng, list(cats), th), 'category_%dx%d_%d' % (nd, ng, len(th)),
            bnd(nd, ng, th) + ', each element in any of the categories ' + ', '.join(cats) + ' (x and y evaluated)', MODS)


@REG.harness(bounds='2 detections, 2 ground truth elements; the similarities reported are per pair, threshold 0.5', mods=MODS)
def similarity_is_submission_first(c, W):
    dets, gts, sim = data(c, 2, 1)
    E = W.module('sumo.metrics.evaluator').Evaluator
    seen = []

    class Fake(E):
        def _shape_similarity(self, a, b):
            seen.append((a.id, b.id))
            return sim[a.id][b.id]
    s = settings(W, [0.5], [])
    Fake(Scene(elements(W, dets)), Scene(elements(W, gts)), s)
    c.check(sorted(set(seen)) == [('d0', 'g0'), ('d1', 'g0')], 'every pair is compared, submission first')
