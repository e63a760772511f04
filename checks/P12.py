"""Symmetry descriptors: exactly the documented combinations, equality, text and XML forms."""
import xml.etree.ElementTree as ET
from symex.api import *

REG = Registry()
FUNCTIONS = ['ObjectSymmetry.__init__', 'is_valid', '__eq__', '__ne__', 'from_strings', 'from_xml', 'to_xml', '__str__']
ASSUMPTIONS = ['axis types and labels range over a finite set, chosen by the solver']
MODS = ['sumo.semantic.object_symmetry']
TYPES = ['none', 'twoFold', 'fourFold', 'cylindrical', 'spherical']
ALLOWED = {('none',) * 3, ('none', 'none', 'twoFold'), ('fourFold', 'none', 'none'), ('fourFold', 'twoFold', 'twoFold'),
           ('fourFold',) * 3, ('twoFold',) * 3, ('cylindrical', 'none', 'none'), ('cylindrical', 'twoFold', 'twoFold'),
           ('spherical',) * 3}
VALID = [(x, y, z) for x in TYPES for y in TYPES for z in TYPES if tuple(sorted((x, y, z))) in ALLOWED]
WRONG = ['', 'None', 'twofold', 'cube', 'none ']


def S(W):
    m = W.module('sumo.semantic.object_symmetry')
    return m.ObjectSymmetry, m.SymmetryType


def pick(c, name, pool=TYPES):
    return [c.choice(name + k, pool) for k in 'xyz']


def build(W, names):
    O, T = S(W)
    return O(*[getattr(T, n) for n in names])


def axes(o):
    return [o.x_symmetry.name, o.y_symmetry.name, o.z_symmetry.name]


@REG.harness(bounds='all three axis types', mods=MODS)
def combinations(c, W):
    O, T = S(W)
    n = pick(c, 'a')
    ok = tuple(sorted(n)) in ALLOWED
    ts = [getattr(T, k) for k in n]
    c.check(bool(O.is_valid(*ts)) == ok, 'exactly the documented combinations are valid')
    kind, o = outcome(O, *ts)
    c.check(kind == ('ok' if ok else 'ValueError'), 'other combinations are refused')
    if ok:
        c.check(axes(o) == n, 'every axis keeps its type')
        c.check(str(o) == 'x_symmetry: %s, y_symmetry: %s, z_symmetry: %s' % tuple(n), 'readable form')


@REG.harness(bounds='types given for some of the axes, in any order', mods=MODS)
def defaults(c, W):
    O, T = S(W)
    k = c.choice('axis', ['', 'x', 'y', 'z'])
    t = c.choice('type', TYPES)
    kind, o = outcome(O, **({k + '_symmetry': getattr(T, t)} if k else {}))
    if k and t == 'spherical':
        c.check(kind == 'ValueError', 'one spherical axis is refused')
        return
    c.check(kind == 'ok', 'a single symmetric axis is allowed')
    c.check(axes(o) == [t if a == k else 'none' for a in 'xyz'], 'other axes have no symmetry')


@REG.harness(bounds='any two valid descriptors', mods=MODS)
def equality(c, W):
    a, b = c.choice('a', VALID), c.choice('b', VALID)
    x, y = build(W, a), build(W, b)
    c.check(bool(x == y) == (a == b), 'descriptors are equal iff all axes are')
    c.check(bool(x != y) == (a != b), 'unequal is the opposite of equal')


@REG.harness(bounds='any valid descriptor, any order of the axis tags', mods=MODS)
def xml(c, W):
    O, T = S(W)
    n = c.choice('n', VALID)
    node = ET.fromstring(ET.tostring(build(W, n).to_xml()))
    c.check(node.tag == 'symmetry', 'documented tag')
    c.check(sorted((e.tag, e.text) for e in node) == sorted(zip('xyz', n)), 'one tag per axis with its type')
    order = c.choice('order', [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)])
    kids = list(node)
    for k in kids:
        node.remove(k)
    node.extend([kids[i] for i in order])
    c.check(axes(O.from_xml(node)) == list(n), 'a symmetry survives the XML form')


@REG.harness(bounds='any label per axis, one of them possibly unknown or missing', mods=MODS)
def xml_faults(c, W):
    O, T = S(W)
    f = c.choice('fault', ['tag', 'missing', 'label', 'combination'])
    n = list(c.choice('n', VALID)) if f != 'combination' else None
    node = ET.Element('symmetry' if f != 'tag' else c.choice('tag', ['sym', 'Symmetry', 'pose']))
    k = c.choice('axis', [0, 1, 2]) if f in ('missing', 'label') else -1
    if f == 'label':
        n[k] = c.choice('label', WRONG)
    if f == 'combination':
        n = pick(c, 'm')
        if tuple(sorted(n)) in ALLOWED:
            return
    for i in range(3):
        if not (f == 'missing' and i == k):
            ET.SubElement(node, 'xyz'[i]).text = n[i]
    kind, v = outcome(O.from_xml, node)
    c.check(kind == 'RuntimeError', 'malformed symmetry XML is refused')


@REG.harness(bounds='any label per axis, known or unknown', mods=MODS)
def strings(c, W):
    O, T = S(W)
    n = pick(c, 's', TYPES + WRONG[:2])
    kind, o = outcome(O.from_strings, n)
    ok = tuple(sorted(n)) in ALLOWED
    c.check(kind == ('ok' if ok else 'ValueError'), 'labels outside the documented combinations are refused')
    if ok:
        c.check(axes(o) == n, 'every axis gets its label')


@REG.harness(bounds='lists of 0 to 5 labels', mods=MODS)
def string_count(c, W):
    O, T = S(W)
    n = c.choice('n', [0, 1, 2, 4, 5])
    t = c.choice('t', TYPES)
    c.check(outcome(O.from_strings, [t] * n)[0] == 'ValueError', 'exactly three labels are required')
