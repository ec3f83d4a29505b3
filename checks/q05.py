import numpy as np
from hypothesis import strategies as st
import defdap
from defdap.quat import Quat
from lib.framework import sub, check, close, same
from lib import strats as S

TRI = st.sampled_from(['up', 'down', None])


@st.composite
def oris(draw):
    """Orientations; often ones that put simple crystal directions along sample axes."""
    kind = draw(st.sampled_from(['quat', 'euler', 'aligned']))
    if kind == 'quat':
        return draw(S.quat4)
    if kind == 'euler':
        return tuple(map(float, Quat.from_euler_angles(*draw(S.euler)).quat_coef))
    a = np.array(draw(st.tuples(*[st.integers(-2, 2)] * 3).filter(any)), float)
    b = np.array(draw(st.tuples(*[st.integers(-2, 2)] * 3).filter(any)), float)
    c = np.cross(a, b)
    if np.abs(c).max() < 1e-9:
        return draw(S.quat4)
    a, c = S.uvec(a), S.uvec(c)
    r = np.array([a, np.cross(c, a), c])
    return tuple(map(float, S._unit4(S.mat_to_quat(r if draw(st.booleans()) else r.T))))


def to_vec(alpha, beta):
    return np.array([np.sin(alpha) * np.cos(beta), np.sin(alpha) * np.sin(beta), np.cos(alpha)])


def in_sector(v, sym, tri, tol):
    x, y, z = v
    if sym == 'cubic':
        return x <= tol and y >= -x - tol and z >= y - tol
    if tri == 'up':        # azimuth 90 to 120 degrees
        return z >= -tol and x <= tol and y >= -np.sqrt(3) * x - tol
    return z >= -tol and x >= -tol and y >= np.sqrt(3) * x - tol


def judge(alpha, beta, q, direction, sym, tri, tol=2e-6):
    check(np.isfinite(alpha) and np.isfinite(beta), f'angles {alpha}, {beta}')
    v = to_vec(alpha, beta)
    true = S.rot_quat(q) @ S.uvec(direction)
    orbit = np.concatenate([S.SYM[sym] @ true, -(S.SYM[sym] @ true)])
    check(np.abs(orbit - v).max(axis=1).min() < tol,
          f'{v} is not a symmetric equivalent of the crystal direction {true}')
    check(in_sector(v, sym, tri, tol), f'{v} outside the {sym} {tri} sector')
    return v


@sub(st.tuples(S.sym_name, TRI, st.lists(oris(), min_size=1, max_size=6), S.vec3,
               S.fl(0.05, 40), st.lists(st.integers(0, 23), min_size=6, max_size=6)),
     quick=1500, thorough=60000)
def fundamental(case):
    """Non-trivial: more than one orientation."""
    sym, tri, qs, direction, scale, ks = case
    eff = tri or defdap.defaults['ipf_triangle_convention']
    if sym == 'cubic' or tri is None:
        kw = {} if tri is None else dict(triangle=tri)
    else:
        kw = dict(triangle=tri)
    quats = [Quat(*q) for q in qs]
    d = np.array(direction)
    al, be = Quat.calc_fund_dirs(quats, d, sym, **kw)
    check(np.shape(al) == (len(qs),) and np.shape(be) == (len(qs),), 'shape')
    same(d, np.array(direction), 'direction changed')
    vs = [judge(a, b, q, direction, sym, eff) for a, b, q in zip(al, be, qs)]
    # length of the direction and form of the direction
    al2, be2 = Quat.calc_fund_dirs(quats, list(d * scale), sym, **kw)
    n = len(S.SYMQ[sym])
    eq = [Quat(S.qmul(S.SYMQ[sym][k % n], q)) for k, q in zip(ks, qs)]
    al3, be3 = Quat.calc_fund_dirs(eq, -d, sym, **kw)
    for i, q in enumerate(qs):
        close(to_vec(al2[i], be2[i]), vs[i], 2e-6, 'depends on the length of the direction')
        close(to_vec(al3[i], be3[i]), vs[i], 2e-6, 'depends on the symmetric equivalent')
        a1, b1 = Quat.calc_fund_dirs([quats[i]], d, sym, **kw)
        close(to_vec(a1[0], b1[0]), vs[i], 2e-6, 'depends on the other orientations')
    return len(set(qs)) > 1


@sub(st.tuples(st.lists(S.quat4, min_size=1, max_size=3), S.vec3,
               st.sampled_from(['up', 'down'])), quick=200, thorough=4000)
def default_convention(case):
    """The default triangle is the configured one. Non-trivial: always."""
    qs, d, conv = case
    old = defdap.defaults['ipf_triangle_convention']
    defdap.defaults['ipf_triangle_convention'] = conv
    try:
        al, be = Quat.calc_fund_dirs([Quat(*q) for q in qs], np.array(d), 'hexagonal')
    finally:
        defdap.defaults['ipf_triangle_convention'] = old
    for a, b, q in zip(al, be, qs):
        judge(a, b, q, d, 'hexagonal', conv)
    return True


@sub(S.vec3, quick=500, thorough=10000)
def polar(v):
    """Polar angles invert the Cartesian form. Non-trivial: not on the z axis."""
    u = S.uvec(v)
    a, b = Quat.polar_angles(u[0], u[1], u[2])
    close(to_vec(a, b), u, 1e-7, 'polar angles')
    check(0 <= a <= np.pi + 1e-12 and -np.pi <= b <= np.pi, 'range')
    a, b = Quat.polar_angles(*np.array([u * 3, -u]).T)
    close(to_vec(a[0], b[0]), u, 1e-7, 'polar angles of an array')
    close(to_vec(a[1], b[1]), -u, 1e-7, 'polar angles of an array')
    return abs(u[2]) < 1 - 1e-9


@sub(st.tuples(S.sym_name, st.sampled_from(['up', 'down']), st.integers(300, 2000),
               st.integers(0, 2 ** 31 - 1), S.vec3), quick=8, thorough=200)
def many(case):
    """Thousands of orientations at once. Non-trivial: always."""
    sym, tri, n, seed, d = case
    qs = np.random.RandomState(seed).randn(n, 4)
    qs /= np.sqrt((qs ** 2).sum(axis=1))[:, None]
    quats = [Quat(q) for q in qs]
    al, be = Quat.calc_fund_dirs(np.array(quats), np.array(d), sym, triangle=tri)
    check(np.shape(al) == (n,) == np.shape(be), 'shape')
    for a, b, q in zip(al, be, quats):
        judge(a, b, q.quat_coef, d, sym, tri)
    return True
