"""Precision-recall curves and average precision follow their definition for every list of detections."""
from symex.api import *

REG = Registry()
FUNCTIONS = ['metrics.utils.compute_pr', 'compute_auc_ap', 'compute_ap']
ASSUMPTIONS = ['the 2^-52 added to denominators is far below the tolerance 1e-9']
MODS = ['sumo.metrics.utils']
TOL = 1e-9


def U(W):
    return W.module('sumo.metrics.utils')


def dets(c, W, n, extra=2):
    """n detections in any score order; returns arrays, the matches by falling score, and n_gt"""
    hit = [c.bool('hit%d' % i) for i in range(n)]
    hit = [1 if h else 0 for h in hit]
    score = [c.real('score%d' % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            if c.concrete:
                c.assume(score[i] != score[j])
            else:
                c.assume(any_(c, [score[i] < score[j], score[i] > score[j]]))
    n_gt = max(sum(hit), 1) + c.choice('missed', list(range(extra)))
    order = sorted(range(n), key=lambda i: -score[i])
    return W.np.array(hit, dtype='int64'), W.np.array(score, dtype='float64'), [hit[i] for i in order], n_gt


def curve(ms, n_gt):
    tp, p, r = 0, [], []
    for i, m in enumerate(ms):
        tp += m
        p.append(tp / (i + 1))
        r.append(tp / n_gt)
    return p, r


def envelope(p):
    return [max(p[i:]) for i in range(len(p))]


def area(ms, n_gt):
    """every correct detection contributes the best precision at its recall or beyond, over n_gt"""
    p, r = curve(ms, n_gt)
    return sum(q for q, m in zip(envelope(p), ms) if m) / n_gt


def seq(c, a, b, label):
    c.check(len(a) == len(b), label + ' (length)')
    for x, y in zip(a, b):
        c.eq(x, y, label, tol=TOL)


def unit(c, x, label):
    c.le(0, x, label)
    c.le(x, 1, label)


def auc(n):
    def h(c, W):
        m, s, ms, n_gt = dets(c, W, n)
        ap, p, r = U(W).compute_ap(m, s, n_gt)
        unit(c, ap, 'average precision is in [0, 1]')
        c.eq(ap, area(ms, n_gt), 'average precision is the area under the interpolated curve', tol=TOL)
        for x in p:
            unit(c, x, 'precision is in [0, 1]')
        for i, x in enumerate(r):
            unit(c, x, 'recall is in [0, 1]')
            if i:
                c.le(r[i - 1], x, 'recall does not fall')
        seq(c, list(r), curve(ms, n_gt)[1], 'recall')
        seq(c, list(p), envelope(curve(ms, n_gt)[0]), 'interpolated precision')
    return h


def pr(n):
    def h(c, W):
        m, s, ms, n_gt = dets(c, W, n, 1)
        interp = c.choice('interp', [False, True])
        p, r = U(W).compute_pr(m, s, n_gt, interp=interp)
        p0, r0 = curve(ms, n_gt)
        seq(c, list(p), envelope(p0) if interp else p0, 'precision curve')
        seq(c, list(r), r0, 'recall curve')
    return h


def sampled(n, k, exact=False):
    def h(c, W):
        m, s, ms, n_gt = dets(c, W, n)
        if exact:       # quarters are exact in binary: the boundary itself is decided, with no tolerance
            n_gt = c.choice('n_gt', [x for x in (1, 2, 4) if x >= n_gt])
            samples = [c.choice('sample%d' % i, [0.0, 0.25, 0.5, 0.75, 1.0]) for i in range(k)]
        else:
            samples = [c.real('sample%d' % i, 0, 1) for i in range(k)]
        interp = c.choice('interp', [False, True])
        ap, p, r = U(W).compute_ap(m, s, n_gt, W.np.array(samples, dtype='float64'), interp, False)
        p0, r0 = curve(ms, n_gt)
        p0 = envelope(p0) if interp else p0
        c.check(len(p) == k and len(r) == k, 'one value per sample')
        for i in range(k):
            c.eq(r[i], samples[i], 'the sample points are returned')
            cases = []
            for j in range(n):
                left = r0[j - 1] < samples[i] if j else True
                cases.append(all_(c, [left, samples[i] <= r0[j], close(c, p[i], p0[j], TOL)]))
            cases.append(all_(c, [samples[i] > r0[-1], close(c, p[i], 0, TOL)]))
            if not exact and c.concrete and any(abs(samples[i] - x) < EPS for x in r0):
                continue
            c.check(any_(c, cases), 'precision at the first recall that reaches the sample, else zero')
        c.eq(ap, sum(list(p)) / k, 'average precision is the mean over the samples', tol=TOL)
    return h


for n, tier in [(1, 'quick'), (2, 'quick'), (3, 'quick'), (4, 'quick'), (5, 'thorough')]:
    REG.add(auc(n), 'area_%d' % n, '%d detections, any distinct scores (reals) in any order, any hits, '
            'up to one missed ground truth element' % n, MODS, tier)
for n, tier in [(2, 'quick'), (3, 'quick'), (4, 'thorough')]:
    REG.add(pr(n), 'curve_%d' % n, '%d detections, any distinct scores (reals) in any order, any hits' % n, MODS, tier)
for n, k, tier in [(2, 2, 'quick'), (3, 1, 'quick'), (3, 2, 'thorough')]:
    REG.add(sampled(n, k), 'sampled_%d_%d' % (n, k), '%d detections, any distinct scores, any hits, '
            '%d recall samples (any reals in [0, 1])' % (n, k), MODS, tier)
for n, k, tier in [(2, 1, 'quick'), (3, 1, 'quick'), (4, 1, 'thorough')]:
    REG.add(sampled(n, k, True), 'exact_%d_%d' % (n, k), '%d detections, any distinct scores, any hits, 1, 2 or 4 '
            'ground truth elements, recall samples at exact quarters' % n, MODS, tier)


@REG.harness(bounds='3 detections with any scores, ties included', mods=MODS)
def ties(c, W):
    hit = [1 if c.bool('hit%d' % i) else 0 for i in range(3)]
    score = [c.real('score%d' % i) for i in range(3)]
    n_gt = max(1, sum(hit))
    ap, p, r = U(W).compute_ap(W.np.array(hit, dtype='int64'), W.np.array(score, dtype='float64'), n_gt)
    unit(c, ap, 'average precision is in [0, 1]')
    if all(hit):
        c.eq(ap, 1, 'only correct detections and none missed: average precision 1', tol=TOL)


@REG.harness(bounds='3 detections, one more wrong detection with any score, any recall', mods=MODS)
def false_alarm(c, W):
    m, s, ms, n_gt = dets(c, W, 3)
    x = c.real('extra')
    for i in range(3):
        c.assume(any_(c, [x < s[i], x > s[i]]))
    u = U(W)
    a, _, _ = u.compute_ap(m, s, n_gt)
    b, _, _ = u.compute_ap(W.np.array(list(m) + [0], dtype='int64'), W.np.array(list(s) + [x], dtype='float64'), n_gt)
    c.le(b, a, 'a false alarm does not raise the average precision', tol=TOL)


@REG.harness(bounds='no detections, 1 to 3 ground truth elements', mods=MODS)
def empty(c, W):
    n = c.choice('n', [1, 2, 3])
    u = U(W)
    z = W.np.array([])
    c.eq(u.compute_ap(z, z, n)[0], 0, 'no detections: average precision 0')
    s = c.real('s', 0, 1)
    ap, p, r = u.compute_ap(z, z, n, W.np.array([s], dtype='float64'), True, False)
    c.eq(ap, 0, 'no detections: sampled average precision 0')
