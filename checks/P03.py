"""Serialised rigid transforms (dictionary, XML, quaternion forms) read back as the same transform."""
import json
import xml.etree.ElementTree as ET

from symex.api import *
from checks.P01 import G, pose, pose_any, same, MODS

REG = Registry()
FUNCTIONS = ['Pose3.to_json', 'Pose3.from_json', 'Rot3.to_json', 'Rot3.from_json', 'Pose3.to_xml', 'Pose3.from_xml',
             'Rot3.to_xml', 'Rot3.from_xml', 'Pose3.to_surreal', 'Pose3.from_surreal', 'Quaternion.__cinit__',
             'Quaternion.as_vector', 'Quaternion.to_rotation_matrix', 'array_from_matrix3', 'matrix3_of_array']
ASSUMPTIONS = ['printed decimals read back within half a unit of the last printed digit',
               'Eigen quaternion <-> matrix conversion follows its published algorithm']
TOL = 1e-7
MODS = MODS + ['sumo.geometry.quaternion']


def wire(c, d):
    """through real JSON text on replay"""
    return json.loads(json.dumps(d)) if c.concrete else d


def near(c, a, b, label):
    c.check(tuple(a.shape) == tuple(b.shape), label + ' (shape)')
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        c.check(all_(c, [x - y <= TOL * 100, y - x <= TOL * 100]), label)


@REG.harness(bounds='any rotation block in [-2,2]^9, translation in [-100,100]^3', mods=MODS)
def dictionary(c, W):
    Pose3, Rot3, V = G(W)
    p, R, t = pose_any(c, W, 'p')
    d = wire(c, p.to_json())
    q = Pose3.from_json(d)
    same(c, q.matrix(), p.matrix(), 'pose survives the dictionary form')
    c.check(set(d) == {'Rotation', 'Translation'}, 'documented keys')
    c.check(set(d['Rotation']) == {'X', 'Y', 'Z'}, 'documented keys')
    for j, k in enumerate('XYZ'):
        for i in range(3):
            c.eq(d['Rotation'][k][i], R[i, j], 'dictionary holds the columns')
    same(c, Rot3.from_json(wire(c, p.rotation().to_json())).matrix(), R, 'rotation survives the dictionary form')


@REG.harness(bounds='any rotation block in [-2,2]^9, translation in [-100,100]^3', mods=MODS)
def xml(c, W):
    Pose3, Rot3, V = G(W)
    p, R, t = pose_any(c, W, 'p')
    node = ET.fromstring(ET.tostring(p.to_xml()))
    q = Pose3.from_xml(node)
    near(c, q.matrix(), p.matrix(), 'pose survives the XML form')
    cols = {e.tag: e.text for e in node.find('rotation')}
    c.check(sorted(cols) == ['c1', 'c2', 'c3'], 'documented column tags')
    for j in range(3):
        v = W.np.fromstring(cols['c%d' % (j + 1)], sep=',')
        near(c, v, R[:, j], 'tag c%d holds that column' % (j + 1))
    r = Rot3.from_xml(ET.fromstring(ET.tostring(p.rotation().to_xml())))
    near(c, r.matrix(), R, 'rotation survives the XML form')


@REG.harness(bounds='any child order, any rotation block and translation', mods=MODS)
def xml_child_order(c, W):
    Pose3, Rot3, V = G(W)
    p, R, t = pose_any(c, W, 'p')
    node = p.to_xml()
    kids = list(node)
    if c.bool('flip'):
        for k in kids:
            node.remove(k)
        node.extend(kids[::-1])
    rot = node.find('rotation')
    cols = list(rot)
    s = c.choice('shift', [0, 1, 2])
    for k in cols:
        rot.remove(k)
    rot.extend(cols[s:] + cols[:s])
    near(c, Pose3.from_xml(node).matrix(), p.matrix(), 'child order is irrelevant')


@REG.harness(bounds='each single structural fault of the XML form', mods=MODS)
def xml_faults(c, W):
    Pose3, Rot3, V = G(W)
    p, R, t = pose_any(c, W, 'p')
    node = p.to_xml()
    rot, tr = node.find('rotation'), node.find('translation')
    fault = c.choice('fault', ['tag', 'no translation', 'no rotation', 'extra', 'short translation',
                               'long translation', 'no column', 'odd column', 'short column', 'rotation tag'])
    if fault == 'tag':
        node.tag = 'posse'
    elif fault == 'no translation':
        node.remove(tr)
    elif fault == 'no rotation':
        node.remove(rot)
    elif fault == 'extra':
        ET.SubElement(node, 'scale').text = '1'
    elif fault == 'short translation':
        tr.text = '1, 2'
    elif fault == 'long translation':
        tr.text = '1, 2, 3, 4'
    elif fault == 'no column':
        rot.remove(rot[c.choice('which', [0, 1, 2])])
    elif fault == 'odd column':
        rot[c.choice('which', [0, 1, 2])].tag = 'c4'
    elif fault == 'short column':
        rot[c.choice('which', [0, 1, 2])].text = '1, 2'
    if fault == 'rotation tag':
        rot.tag = 'rotate'
        k, v = outcome(Rot3.from_xml, rot)
    else:
        k, v = outcome(Pose3.from_xml, node)
    c.check(isinstance(v, (RuntimeError, ValueError)), 'malformed pose XML is rejected: ' + fault)


@REG.harness(bounds='any proper rotation (unit quaternion), translation in [-100,100]^3', mods=MODS)
def surreal_from_rotation(c, W):
    Pose3, Rot3, V = G(W)
    R, q = quat_rotation(c, W, 'q')
    t = vec(c, W, 't', lo=-100, hi=100)
    d = wire(c, Pose3(Rot3(R), t).to_surreal())
    x = d['QuaternionXYZW']
    c.check(len(x) == 4 and len(d['Translation']) == 3, 'documented sizes')
    # the written quaternion is q or -q, vector part first
    want = [q[1], q[2], q[3], q[0]]
    for i in range(4):
        for j in range(i, 4):
            c.eq(x[i] * x[j], want[i] * want[j], 'quaternion order and value (up to sign)')
    for i in range(3):
        c.eq(d['Translation'][i], t[i], 'translation is kept')


@REG.harness(bounds='any unit quaternion, translation in [-100,100]^3', mods=MODS)
def surreal_read(c, W):
    Pose3, Rot3, V = G(W)
    R, q = quat_rotation(c, W, 'q')
    t = [c.real('t%d' % i, -100, 100) for i in range(3)]
    p = Pose3.from_surreal(wire(c, {'QuaternionXYZW': [q[1], q[2], q[3], q[0]], 'Translation': list(t)}))
    same(c, p.rotation().matrix() if hasattr(p.rotation(), 'matrix') else p.rotation(), R, 'rotation as read')
    for i in range(3):
        c.eq(p.translation()[i], t[i], 'translation as read')


@REG.harness(bounds='any quaternion of norm in [0.1, 10]', mods=MODS)
def quaternion_scale(c, W):
    """a quaternion of any length denotes the rotation of its unit quaternion"""
    Q = W.module('sumo.geometry.quaternion').Quaternion
    R, q = quat_rotation(c, W, 'q')
    s = c.real('s', 0.125, 8)
    m = Q(W.np.array([s * v for v in q])).to_rotation_matrix()
    same(c, m, R, 'length of the quaternion is irrelevant')
    k = Q(W.np.array(q)).as_vector()
    for i in range(4):
        c.eq(k[i], q[i], 'components are w, x, y, z')
    I = Q().to_rotation_matrix()
    same(c, I, W.np.identity(3), 'default quaternion is the identity')
