import numpy as np
from hypothesis import strategies as st, assume
import defdap
from defdap.crystal_utils import create_l_matrix, create_q_matrix, project_to_orth, convert_idc
from lib.framework import sub, check, close, raises
from lib import strats as S

CONV = st.sampled_from(['hkl', 'tsl', 'oi', 'HKL', 'TSL', None])
length = st.one_of(S.fl(0.3, 15), st.sampled_from([1., 3., 4.05]))
special = st.sampled_from([np.pi / 2, 2 * np.pi / 3, np.pi / 3, 1.])


@st.composite
def lattices(draw):
    kind = draw(st.sampled_from(['any', 'any', 'cubic', 'hexagonal', 'orthorhombic', 'monoclinic']))
    a, b, c = draw(length), draw(length), draw(length)
    if kind == 'cubic':
        return (a, a, a) + (np.pi / 2,) * 3
    if kind == 'hexagonal':
        return (a, a, c, np.pi / 2, np.pi / 2, 2 * np.pi / 3)
    if kind == 'orthorhombic':
        return (a, b, c) + (np.pi / 2,) * 3
    ang = st.one_of(S.fl(0.5, 2.5), special)
    if kind == 'monoclinic':
        return (a, b, c, np.pi / 2, draw(ang), np.pi / 2)
    al, be, ga = draw(ang), draw(ang), draw(ang)
    ca, cb, cg = np.cos([al, be, ga])
    assume(1 + 2 * ca * cb * cg - ca ** 2 - cb ** 2 - cg ** 2 > 0.02)
    return (a, b, c, al, be, ga)


def metric(p):
    a, b, c, al, be, ga = p
    return np.array([[a * a, a * b * np.cos(ga), a * c * np.cos(be)],
                     [a * b * np.cos(ga), b * b, b * c * np.cos(al)],
                     [a * c * np.cos(be), b * c * np.cos(al), c * c]])


idx = st.tuples(*[st.integers(-9, 9)] * 3).filter(any)


@sub(st.tuples(lattices(), CONV, idx, idx, st.sampled_from(['hkl', 'tsl'])),
     quick=1500, thorough=60000)
def lattice_matrices(case):
    """Non-trivial: not a cubic lattice."""
    p, conv, uvw, hkl, default = case
    old = defdap.defaults['crystal_ortho_conv']
    defdap.defaults['crystal_ortho_conv'] = default
    try:
        l = create_l_matrix(*p, **({} if conv is None else {'convention': conv}))
    finally:
        defdap.defaults['crystal_ortho_conv'] = old
    scale = max(p[:3]) ** 2
    close(l.T @ l, metric(p), 1e-8 * scale, 'lattice metric (lengths and angles)')
    vol = np.sqrt(np.linalg.det(metric(p)))
    close(np.linalg.det(l), vol, 1e-7 * scale ** 1.5, 'volume / handedness')
    eff = (conv or default).lower()
    if eff == 'tsl':
        close(l[1:, 0], [0, 0], 1e-9, 'TSL: x along a')
        check(l[0, 0] > 0 and l[1, 1] > 0, 'TSL: b in the upper xy plane')
        close(l[2, :2], [0, 0], 1e-9, 'TSL: c* along z')
    else:
        close(l[[0, 2], 1], [0, 0], 1e-9, 'HKL: y along b')
        check(l[1, 1] > 0 and l[0, 0] > 0, 'HKL: a on the positive x side')
        close(l[2, :2], [0, 0], 1e-9, 'HKL: c* along z')
    check(l[2, 2] > 0, 'c along positive z')
    q = create_q_matrix(l)
    close(q.T @ l, np.eye(3), 1e-7 * scale / vol ** (2 / 3) * 10, 'reciprocal lattice')
    n, d = q @ hkl, l @ uvw
    close(n @ d, np.dot(hkl, uvw), 1e-6 * scale / vol ** (2 / 3) * 100,
          'plane normal and direction: product of the indices')
    return len(set(p[:3])) > 1 or p[3:] != (np.pi / 2,) * 3


@sub(st.tuples(S.fl(0.5, 4), idx, idx, st.sampled_from(['hkl', 'tsl'])), quick=800, thorough=20000)
def hexagonal_projection(case):
    """project_to_orth. Non-trivial: always."""
    ca, uvw, hkl, default = case
    old = defdap.defaults['crystal_ortho_conv']
    defdap.defaults['crystal_ortho_conv'] = default
    try:
        d = project_to_orth(ca, dir=uvw, in_type='m')
        n = project_to_orth(ca, plane=hkl, in_type='m')
        u, v, w = uvw
        d4 = project_to_orth(ca, dir=(2 * u - v, 2 * v - u, -u - v, 3 * w))
        h, k, l = hkl
        n4 = project_to_orth(ca, plane=(h, k, -h - k, l))
    finally:
        defdap.defaults['crystal_ortho_conv'] = old
    s3 = np.sqrt(3) / 2
    if default == 'hkl':   # x // [10-10], y // a2 [-12-10]
        a1, a2 = np.array([s3, -.5, 0]), np.array([0, 1., 0])
    else:                  # x // a1 [2-1-10], y // [01-10]
        a1, a2 = np.array([1., 0, 0]), np.array([-.5, s3, 0])
    c = np.array([0, 0, ca])
    close(d, u * a1 + v * a2 + w * c, 1e-9, 'direction')
    vol = np.dot(a1, np.cross(a2, c))
    want = (h * np.cross(a2, c) + k * np.cross(c, a1) + l * np.cross(a1, a2)) / vol
    close(n, want, 1e-9, 'plane normal')
    # four indices [UVTW] = U a1 + V a2 + T a3 + W c is 3 times the direction [uvw]
    close(d4, 3 * np.asarray(d), 1e-8, 'direction from four indices')
    close(n4, n, 1e-9, 'plane from four indices')
    close(np.dot(d, n), np.dot(uvw, hkl), 1e-8, 'zone law')
    return True


@sub(st.sampled_from(['', 'abc', 'hk', 'bruker']), quick=4, thorough=4)
def unknown_convention(conv):
    """An unknown convention is refused. Non-trivial: always."""
    raises(ValueError, lambda: create_l_matrix(1, 1, 1, np.pi / 2, np.pi / 2, np.pi / 2,
                                               convention=conv), f'convention {conv!r} accepted')
    return True
