import numpy as np
from hypothesis import strategies as st
from defdap.quat import Quat
from defdap.crystal import crystalStructures
from lib.framework import sub, check, close, same
from lib import strats as S


def ang(c):
    return 2 * np.arccos(np.clip(c, -1, 1))


def cos_half(qa, qb, sym):
    """Brute force: largest |cos(half angle)| over the group, built independently."""
    return max(abs(np.dot(qa, S.qmul(s, qb))) for s in S.SYMQ[sym])


# pairs: arbitrary, close, symmetry related, or on the edge between two operators
@st.composite
def pairs(draw):
    sym = draw(S.sym_name)
    a = draw(S.quat4)
    kind = draw(st.sampled_from(['any', 'any', 'sym', 'near', 'special']))
    n = len(S.SYMQ[sym])
    k = draw(st.integers(0, n - 1))
    if kind == 'any':
        b = draw(S.quat4)
    elif kind == 'sym':
        b = S.qmul(S.SYMQ[sym][k], a)
    elif kind == 'near':
        ax, d = draw(S.vec3), draw(S.fl(0, 0.2))
        h = np.concatenate([[np.cos(d / 2)], np.sin(d / 2) * S.uvec(ax)])
        b = S.qmul(S.SYMQ[sym][k], S.qmul(h, a))
    else:
        ax = draw(st.tuples(*[st.integers(-2, 2)] * 3).filter(any))
        d = draw(S.angle(0, np.pi))
        h = np.concatenate([[np.cos(d / 2)], np.sin(d / 2) * S.uvec(ax)])
        b = S.qmul(h, a)
    return sym, tuple(map(float, a)), tuple(map(float, S._unit4(b))), k, draw(
        st.integers(0, n - 1)), kind


@sub(pairs(), quick=1500, thorough=60000)
def pair(case):
    """Non-trivial: distinct orientations."""
    sym, a, b, k, l, kind = case
    qa, qb = Quat(*a), Quat(*b)
    want = cos_half(a, b, sym)
    m = qa.mis_ori(qb, sym)
    close(m, want, 1e-9, 'misorientation is not the minimum over symmetric equivalents')
    check(0 <= m <= 1 + 1e-9, f'misorientation cosine {m}')
    check(ang(m) <= S.MAX_MISORI[sym] + 1e-6, f'angle {np.rad2deg(ang(m))} above maximum')
    close(qb.mis_ori(qa, sym), m, 1e-9, 'misorientation not symmetric')
    # symmetric equivalents on either side
    ea = Quat(S.qmul(S.SYMQ[sym][k], a))
    eb = Quat(S.qmul(S.SYMQ[sym][l], b))
    close(ea.mis_ori(qb, sym), m, 1e-9, 'changed by symmetric equivalent (left)')
    close(qa.mis_ori(eb, sym), m, 1e-9, 'changed by symmetric equivalent (right)')
    # common rotation of the sample frame
    close((qa * Quat(*b)).mis_ori(qb * Quat(*b), sym), m, 1e-9, 'changed by sample rotation')
    if kind == 'sym':
        close(m, 1, 1e-9, 'equivalent orientations have a misorientation')
    elif m > 1 - 1e-13:
        check(S.disori_q(a, b, sym) < 1e-5, 'zero misorientation for distinct orientations')
    # returned equivalent
    q1 = qa.mis_ori(qb, sym, return_quat=1)
    m2, q2 = qa.mis_ori(qb, sym, return_quat=2)
    close(m2, m, 0, 'return_quat=2 changes the value')
    for q in (q1, q2):
        check(isinstance(q, Quat), 'returned equivalent is not a Quat')
        close(abs(qa.dot(q)), m, 1e-12, 'returned equivalent does not realise the minimum')
        check(min(S.rot_angle(sm @ S.rot_quat(b) @ S.rot_quat(q.quat_coef).T)
                  for sm in S.SYM[sym]) < 1e-6, 'returned equivalent is not equivalent')
    same(qa.quat_coef, np.array(a), 'operand changed')
    same(qb.quat_coef, np.array(b), 'operand changed')
    return kind if a != b else False


@sub(st.tuples(S.sym_name, st.lists(S.quat4, min_size=1, max_size=8), S.quat4,
               st.lists(st.integers(0, 23), min_size=8, max_size=8)),
     quick=700, thorough=20000)
def bulk(case):
    """Non-trivial: more than one orientation."""
    sym, qs, ref, ks = case
    quats = [Quat(*q) for q in qs]
    n = len(S.SYMQ[sym])
    eq = Quat.calc_sym_eqvs(quats, sym)
    check(np.shape(eq) == (n, 4, len(qs)), f'shape of equivalents {np.shape(eq)}')
    close(eq[0], np.array(qs).T, 1e-12, 'first equivalent is not the orientation itself')
    check((eq[:, 0] >= 0).all(), 'equivalents not in the northern hemisphere')
    ops = Quat.sym_eqv(sym)
    for j, q in enumerate(qs):
        rs = [S.rot_quat(e) for e in eq[:, :, j]]
        want = [m @ S.rot_quat(q) for m in S.SYM[sym]]
        for r in rs:
            close((r @ r.T), np.eye(3), 1e-9, 'equivalent is not a unit quaternion')
        for w in want:
            check(sum(np.abs(w - r).max() < 1e-7 for r in rs) == 1,
                  'equivalents are not the orbit of the orientation')
        for i, op in enumerate(ops):
            close(abs(np.dot((op * quats[j]).quat_coef, eq[i, :, j])), 1, 1e-9,
                  'bulk equivalents differ from operator times orientation')
    ref_q = Quat(*ref)
    mis, comps = Quat.calcMisOri(eq, ref_q)
    check(np.shape(mis) == (len(qs),) and np.shape(comps) == (4, len(qs)), 'shapes')
    for j, q in enumerate(qs):
        close(mis[j], cos_half(ref, q, sym), 1e-9, 'bulk misorientation')
        close(mis[j], min(ref_q.mis_ori(quats[j], sym), 1), 1e-9, 'bulk and pair misorientation')
        check(mis[j] <= 1, 'cosine above one')
        close(abs(np.dot(comps[:, j], ref)), mis[j], 1e-9, 'bulk closest equivalent')
        check(min(S.rot_angle(sm @ S.rot_quat(q) @ S.rot_quat(comps[:, j]).T)
                  for sm in S.SYM[sym]) < 1e-6, 'bulk closest is not equivalent')
    same(ref_q.quat_coef, np.array(ref), 'operand changed')
    return len(set(qs)) > 1


@sub(st.tuples(S.sym_name, S.quat4, S.quat4, S.quat4), quick=500, thorough=20000)
def triangle(case):
    """Triangle inequality of the disorientation metric. Non-trivial: three distinct."""
    sym, a, b, c = case
    d = lambda x, y: ang(Quat(*x).mis_ori(Quat(*y), sym))
    check(d(a, c) <= d(a, b) + d(b, c) + 1e-6, 'triangle inequality violated')
    return len({a, b, c}) == 3


@sub(st.tuples(S.sym_name, st.integers(0, 23), st.integers(0, 23)), quick=400, thorough=700)
def group(case):
    """Group axioms of the tables. Non-trivial: two non-identity operators."""
    sym, i, j = case
    ops = crystalStructures[sym].symmetries
    n = len(ops)
    check(n == {'cubic': 24, 'hexagonal': 12}[sym], f'{n} operators')
    check(len(Quat.sym_eqv(sym)) == n, 'sym_eqv list')
    i, j = i % n, j % n
    mats = [S.rot_quat(o.quat_coef) for o in ops]
    has = lambda m: sum(np.abs(m - x).max() < 1e-9 for x in mats) == 1
    close(ops[i].norm(), 1, 1e-9, 'operator norm')
    check(has(mats[i]), 'duplicate operator')
    check(has(mats[i] @ mats[j]), 'not closed')
    check(has(mats[i].T), 'no inverse')
    check(np.abs(mats[0] - np.eye(3)).max() < 1e-12, 'identity not first')
    check(any(np.abs(mats[i] - m).max() < 1e-9 for m in S.SYM[sym]), 'not a crystal rotation')
    return i > 0 and j > 0


@sub(st.tuples(S.quat4, S.quat4), quick=500, thorough=20000)
def axis(case):
    """Misorientation axis without symmetry. Non-trivial: angle in (1e-3, pi - 1e-3)."""
    a, b = Quat(*case[0]), Quat(*case[1])
    rel = S.rot_quat(case[1]) @ S.rot_quat(case[0]).T       # b = rel a
    v = a.mis_ori_axis(b)
    check(np.shape(v) == (3,), 'axis shape')
    th = S.rot_angle(rel)
    if th < 1e-3:
        check(np.all(np.isfinite(v)) and np.abs(v).max() < 2e-3,
              f'axis of a vanishing misorientation {v}')
        return 'zero'
    close(np.sqrt(np.dot(v, v)), th, 1e-5, 'length of the axis vector is not the angle')
    if th < np.pi - 1e-3:
        # active rotation by +angle about v reproduces rel
        close(S.rot_axis_passive(v, -th), rel, 1e-4, 'axis does not reproduce the rotation')
        return 'general'
    return False


@sub(st.tuples(S.quat4, S.vec3, st.integers(-80, -20), S.fl(1, 9)), quick=400, thorough=10000)
def small_axis(case):
    """Axis of a small rotation is as accurate as its components. Non-trivial: always."""
    a, v, e, m = case
    v = S.uvec(v)
    w = m * 10 ** (e / 10)                       # angle 1e-8 ... 0.09
    # b = (passive rotation by -w about v) after a: the axis vector points along v
    d = Quat.from_axis_angle(v, -w)
    qa = Quat(*a)
    got = qa.mis_ori_axis(d * qa)
    check(np.shape(got) == (3,), 'axis shape')
    close(got, w * v, 1e-12 + 1e-5 * w, f'axis of a rotation by {w:.3g}')
    return True


@sub(st.tuples(S.sym_name, st.integers(300, 3000), st.integers(0, 2 ** 31 - 1), S.quat4,
               st.sampled_from([None, .05, 1e-3])), quick=15, thorough=300)
def bulk_many(case):
    """Thousands of orientations, all over or about the reference. Non-trivial: always."""
    sym, n, seed, ref, near = case
    rng = np.random.RandomState(seed)
    qs = rng.randn(n, 4)
    if near:
        qs = np.concatenate([np.ones((n, 1)), near * qs[:, 1:]], axis=1)
        qs = S.qmul(qs.T, np.repeat(np.array(ref)[:, None], n, axis=1)).T
        qs = np.array([S.qmul(S.SYMQ[sym][k % len(S.SYMQ[sym])], q)
                       for k, q in zip(rng.randint(0, 24, n), qs)])
    qs /= np.sqrt((qs ** 2).sum(axis=1))[:, None]
    qs[qs[:, 0] < 0] *= -1
    eq = Quat.calc_sym_eqvs([Quat(q) for q in qs], sym)
    mis, comps = Quat.calcMisOri(eq, Quat(*ref))
    dots = np.array([np.abs(S.qmul(s, qs.T).T @ np.array(ref)) for s in S.SYMQ[sym]])
    close(mis, np.minimum(dots.max(axis=0), 1), 1e-9, 'bulk misorientation')
    close(np.abs(np.array(ref) @ comps), mis, 1e-9, 'bulk closest equivalent')
    own = np.array([np.abs((S.qmul(s, qs.T) * comps).sum(axis=0)) for s in S.SYMQ[sym]])
    close(own.max(axis=0), np.ones(n), 1e-9, 'bulk closest is not equivalent')
    return True
