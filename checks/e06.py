import numpy as np
from hypothesis import strategies as st
from lib.framework import sub, check, close, same
from lib import strats as S, maps as M

OPS = ['orientation', 'phase_boundaries', 'grain_boundaries', 'grains', 'KAM', 'Nye_tensor', 'GND',
       'proxigram', 'network', 'misori', 'rotate', 'rotate']


def access(m, op, b):
    if op == 'KAM' and min(b.shape) < 2:
        return
    if op == 'proxigram':
        if not m.data.grain_boundaries.points:
            return
    if op == 'network':
        m.build_neighbour_network()
    elif op == 'misori':
        m.data.generate('grains', min_grain_size=1)
        m.calc_grain_mis_ori(calc_axis=True)
    elif op == 'rotate':
        m.rotate_data()
        nn = m.neighbour_network
        check(nn is None or all(any(g is h for h in m.grains) for g in nn),
              'neighbour network of the grains before the rotation')
    else:
        getattr(m.data, op)


def judge(m, b, extra, times):
    turn = times % 2 == 1
    sl = (Ellipsis, slice(None, None, -1), slice(None, None, -1)) if turn else (Ellipsis,)
    what = f'after {times} rotations'
    same(m.data.phase, b.phase[sl], f'phase {what}')
    same(m.data.band_contrast, b.bc[sl], f'band contrast {what}')
    same(m.data.euler_angle, b.euler[sl], f'Euler angle values {what}')
    for name, arr in extra.items():
        same(m.data[name], arr[sl], f'{name} {what}')
    check(m.shape == b.shape, 'shape')
    # orientation: passive rotation to the crystal of a sample turned about z
    rz = np.diag([-1., -1., 1.])
    q = b.quats[sl]
    got = m.data.orientation
    check(got.shape == b.shape, f'orientation shape {got.shape}')
    for idx in np.ndindex(b.shape):
        r = S.rot_quat(q[(slice(None),) + idx])
        if turn:
            r = r @ rz
        close(S.rot_quat(got[idx].quat_coef), r, 1e-7, f'orientation at {idx} {what}')
        check(got[idx].quat_coef[0] >= 0, 'orientation not in the northern hemisphere')


def turned(b):
    c = M.Built(b.spec)
    c.phase, c.bc = b.phase[::-1, ::-1].copy(), b.bc[::-1, ::-1].copy()
    c.quats = S.qmul(b.quats[:, ::-1, ::-1], [np.zeros(b.shape)] * 3 + [np.ones(b.shape)])
    return c


@sub(st.tuples(M.ebsd_specs(hmax=6, wmax=6, nmax=4),
               st.lists(st.sampled_from(OPS), max_size=6), st.integers(0, 3)),
     quick=350, thorough=10000)
def histories(case):
    """Rotations mixed with other use of the map. Non-trivial: data was generated before the
    last of one or more rotations."""
    spec, ops, order = case
    b = M.Built(spec)
    m = b.map()
    rng = np.random.RandomState(spec['seed'] % 997)
    extra = {'own0': rng.rand(*b.shape), 'own1': rng.rand(3, *b.shape),
             'own2': rng.rand(2, 3, *b.shape)}
    for name, arr in extra.items():
        m.data.add(name, arr.copy(), type='map', order=arr.ndim - 2)
    m.data.add('own_list', np.arange(5), type='list', order=0)
    times = 0
    for op in ops + ['rotate'] * (order < 2):
        access(m, op, b)
        times += op == 'rotate'
        if order == 1:
            judge(m, b, extra, times)
    judge(m, b, extra, times)
    same(m.data.own_list, np.arange(5), 'a list was changed')
    # quantities generated from the rotated data are those of the rotated map
    ref = turned(b) if times % 2 else b
    ex, ey, px, py, unsure = M.ref_edges(ref, 10.)
    if not unsure:
        same(m.data.grain_boundaries.image_x, ex, 'grain boundaries after rotation')
        same(m.data.grain_boundaries.image_y, ey, 'grain boundaries after rotation')
        same(m.data.phase_boundaries.image_x, px, 'phase boundaries after rotation')
        m.data.generate('grains', min_grain_size=2)
        want, n, _ = M.ref_grains(ref, 10., 2)
        check(len(m) == n, 'number of grains after rotation')
        got = np.asarray(m.data.grains)
        check(((got > 0) == (want > 0)).all() and ((got == -2) == (want == -2)).all(),
              'grains after rotation')
        for g in m:
            vals = want[tuple(np.array(g.data.point).T[::-1])]
            check(len(vals) and (vals == vals[0]).all(), 'grain points after rotation')
            same(g.data.phase, ref.phase[tuple(np.array(g.data.point).T[::-1])],
                 'grain phase after rotation')
    if min(b.shape) >= 2:
        fresh = M.ref_kam(ref.quats)
        close(np.cos(np.asarray(m.data.KAM) / 2), np.cos(fresh / 2), 1e-9, 'KAM after rotation')
    return times > 0 and any(o != 'rotate' for o in ops)


@sub(st.tuples(M.large_specs(40), st.lists(st.sampled_from(OPS), max_size=3), st.integers(0, 3)),
     quick=4, thorough=150)
def large(case):
    """Large maps. Non-trivial: data was generated before a rotation."""
    return histories(case)
