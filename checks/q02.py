import numpy as np
from hypothesis import strategies as st
from defdap.quat import Quat
from lib.framework import sub, check, close, same
from lib import strats as S

TOL = 1e-9


def as_rot(q, r, what, tol=TOL):
    """q is a northern unit quaternion describing rotation r."""
    check(isinstance(q, Quat), f'{what}: not a Quat')
    c = np.asarray(q.quat_coef)
    close(np.sqrt((c ** 2).sum()), 1, 1e-9, f'{what}: norm')
    check(c[0] >= 0, f'{what}: southern {c}')
    close(S.rot_quat(c), r, tol, what)


@sub(st.tuples(S.quat4, S.quat4, S.quat4), quick=3000, thorough=100000)
def group_laws(case):
    """Non-trivial: three different orientations."""
    a, b, c = (Quat(*x) for x in case)
    ra, rb, rc = (S.rot_quat(x) for x in case)
    as_rot(a * b, ra @ rb, 'product')
    as_rot((a * b) * c, ra @ rb @ rc, 'triple product')
    as_rot(a * (b * c), ra @ rb @ rc, 'triple product')
    as_rot(a.conjugate, ra.T, 'conjugate')
    as_rot(a * a.conjugate, np.eye(3), 'right inverse')
    as_rot(a.conjugate * a, np.eye(3), 'left inverse')
    as_rot((a * b).conjugate, rb.T @ ra.T, 'conjugate of product')
    one = Quat(1, 0, 0, 0)
    as_rot(a * one, ra, 'right identity')
    as_rot(one * a, ra, 'left identity')
    close(a.dot(b), np.dot(case[0], case[1]), 1e-12, 'dot product')
    close((a * c).dot(b * c) ** 2, a.dot(b) ** 2, 1e-9, 'right multiplication is an isometry')
    close(a.norm(), 1, 1e-9, 'norm')
    for q, x in zip((a, b, c), case):
        same(q.quat_coef, np.array(x), 'operation changed its operand')
    return len(set(case)) == 3


@sub(st.tuples(S.quat4, S.vec3, S.vec3, st.sampled_from(['array', 'list', 'tuple'])),
     quick=2500, thorough=80000)
def vectors(case):
    """Non-trivial: rotation that moves the vector."""
    qc, v, w, kind = case
    q = Quat(*qc)
    r = S.rot_quat(qc)
    conv = {'array': np.array, 'list': list, 'tuple': tuple}[kind]
    vv, ww = conv(v), conv(w)
    a, b = q.transform_vector(vv), q.transform_vector(ww)
    close(a, r @ np.array(v), TOL, 'transformed vector is not the rotated vector')
    close(a, q.rot_matrix() @ np.array(v), TOL, 'transform differs from rotation matrix')
    close(np.dot(a, b), np.dot(v, w), 1e-8, 'angles/lengths not preserved')
    close(q.conjugate.transform_vector(a), np.array(v), TOL, 'inverse transform')
    same(np.array(vv), np.array(v), 'vector changed')
    same(q.quat_coef, np.array(qc), 'quaternion changed')
    iv = [int(round(2 * x)) for x in v]
    close(q.transform_vector(np.array(iv)), r @ np.array(iv), TOL, 'integer vector')
    return np.abs(a - np.array(v)).max() > 1e-6


@sub(st.tuples(st.lists(S.quat4, min_size=1, max_size=10), S.quat4), quick=800, thorough=20000)
def bulk_product(case):
    """Non-trivial: more than one orientation."""
    qs, rc = case
    quats = [Quat(*q) for q in qs]
    right = Quat(*rc)
    for form in (quats, np.array(quats + [None], dtype=object)[:-1]):
        out = Quat.multiply_many_quats(form, right)
        check(len(out) == len(quats), 'number of products')
        for i, (q, o) in enumerate(zip(qs, out)):
            as_rot(o, S.rot_quat(q) @ S.rot_quat(rc), f'bulk product {i}')
            one = quats[i] * right
            check(abs(abs(one.dot(o)) - 1) < 1e-12, 'bulk and scalar products differ')
            if abs(one[0]) > 1e-9:
                close(o.quat_coef, one.quat_coef, 1e-12, 'bulk and scalar products differ')
    for q, x in zip(quats, qs):
        same(q.quat_coef, np.array(x), 'bulk product changed an operand')
    same(right.quat_coef, np.array(rc), 'bulk product changed an operand')
    return len(set(qs)) > 1


@sub(st.tuples(S.quat4, S.quat4), quick=800, thorough=20000)
def sums_and_equality(case):
    """Non-trivial: different quaternions."""
    a, b = Quat(*case[0]), Quat(*case[1])
    s = a + b
    close(s.quat_coef, np.array(case[0]) + np.array(case[1]), 1e-12, 'sum')
    same(a.quat_coef, np.array(case[0]), 'sum changed an operand')
    check((a == Quat(*case[0])) and hash(a) == hash(Quat(*case[0])), 'equal quaternions')
    check((a == b) == (tuple(case[0]) == tuple(case[1])), 'equality is not componentwise')
    a += b
    close(a.quat_coef, np.array(case[0]) + np.array(case[1]), 1e-12, 'in-place sum')
    same(b.quat_coef, np.array(case[1]), 'in-place sum changed its operand')
    a.normalise()
    n = np.array(case[0]) + np.array(case[1])
    close(a.quat_coef, n / np.sqrt((n ** 2).sum()), 1e-9, 'normalise')
    return case[0] != case[1]


OPS = st.one_of(st.tuples(st.just('set'), st.integers(0, 3), S.fl(0.1, 1)),
                st.tuples(st.just('coef'), S.quat4), st.tuples(st.just('iadd'), S.quat4),
                st.tuples(st.just('norm')), st.tuples(st.just('mul'), S.quat4),
                st.tuples(st.just('use'), S.vec3))


@sub(st.tuples(S.quat4, st.lists(OPS, min_size=2, max_size=8), S.vec3), quick=800, thorough=20000)
def histories(case):
    """Every use of a quaternion refers to its present components. Non-trivial: changed after
    use."""
    start, ops, v = case
    q, c = Quat(*start), np.array(start)
    used = nt = False
    for op, *arg in ops + [('norm',), ('use', v)]:
        if op == 'set':
            q[arg[0]] = arg[1]
            c[arg[0]] = arg[1]
        elif op == 'coef':
            q.quat_coef = np.array(arg[0])
            c = np.array(arg[0])
        elif op == 'iadd':
            q += Quat(*arg[0])
            c = c + np.array(arg[0])
        elif op == 'norm':
            n = np.sqrt((c ** 2).sum())
            if n < 1e-3:
                return False
            q.normalise()
            c = c / n
        elif op == 'mul':
            got = np.array((q * Quat(*arg[0])).quat_coef)
            want = S.qmul(c, np.array(arg[0]))
            close(min(np.abs(got - want).max(), np.abs(got + want).max()), 0., 1e-9, 'product')
        else:
            u = c / np.sqrt((c ** 2).sum())
            k = (c ** 2).sum()
            r = S.rot_quat(u)
            close(q.transform_vector(list(arg[0])), k * r @ np.array(arg[0]), 1e-9 * max(1, k),
                  'transformed vector')
            close(q.rot_matrix(), k * r, 1e-9 * max(1, k), 'rotation matrix')
            inv = q.conjugate
            close(np.abs(inv.quat_coef @ (c * [1, -1, -1, -1])), k, 1e-9 * max(1, k), 'conjugate')
        nt = nt or used and op in ('set', 'coef', 'iadd')
        used = used or op == 'use'
        close(q.quat_coef, c, 1e-9 * max(1, np.abs(c).max()), f'components after {op}')
        check(abs(q.norm() - np.sqrt((c ** 2).sum())) < 1e-9 * max(1, np.abs(c).max()), 'norm')
    same(hash(q), hash(Quat(q.quat_coef, allow_southern=True)), 'hash of equal quaternions')
    return nt


@sub(st.tuples(st.integers(300, 3000), st.integers(0, 2 ** 31 - 1), S.quat4), quick=15,
     thorough=300)
def bulk_many(case):
    """Thousands of orientations. Non-trivial: always."""
    n, seed, rc = case
    qs = np.random.RandomState(seed).randn(n, 4)
    qs /= np.sqrt((qs ** 2).sum(axis=1))[:, None]
    qs[qs[:, 0] < 0] *= -1
    out = Quat.multiply_many_quats([Quat(q) for q in qs], Quat(*rc))
    check(len(out) == n, 'number of products')
    got = np.array([o.quat_coef for o in out])
    want = S.qmul(qs.T, np.repeat(np.array(rc)[:, None], n, axis=1)).T
    close(np.abs((got * want).sum(axis=1)), np.ones(n), 1e-9, 'bulk products')
    check((got[:, 0] >= 0).all(), 'southern product')
    return True
