import numpy as np
from hypothesis import strategies as st
from defdap import ebsd
from lib.framework import sub, check, close, same
from lib import strats as S, maps as M


def kam_of(b, quats):
    d = b.dict()
    d['euler_angle'] = M.euler_from_quats(quats)
    m = ebsd.Map(d, data_type='pythondict')
    return np.asarray(m.data.KAM), m


def cos_close(got, want, msg):
    # angles of arccos near 0: compare the cosines tightly and the angles loosely
    close(np.cos(np.asarray(got) / 2), np.cos(want / 2), 1e-9, msg)
    close(got, want, 2e-6, msg)


@sub(st.tuples(M.ebsd_specs(hmin=2, hmax=8, wmin=2, wmax=8, spread=(0, 30)), S.euler_plain),
     quick=300, thorough=9000)
def kernel(case):
    """Non-trivial: the map is not uniform."""
    spec, e = case
    b = M.Built(spec)
    want = M.ref_kam(b.quats)
    got, m = kam_of(b, b.quats)
    cos_close(got, want, 'KAM')
    check(np.isfinite(got).all() and (got >= 0).all(), 'KAM values')
    same(m.data.phase, b.phase, 'phase changed')
    dots = np.array([abs(float(q.quat_coef @ b.quats[:, y, x]))
                     for (y, x), q in np.ndenumerate(m.data.orientation)])
    check((dots > 1 - 1e-9).all(), 'orientations changed')
    for name, sl in (('left-right', np.s_[:, ::-1]), ('up-down', np.s_[::-1])):
        mirrored, _ = kam_of(b, b.quats[(slice(None),) + (sl if isinstance(sl, tuple) else (sl,))])
        cos_close(mirrored[sl], want, f'KAM of the map mirrored {name}')
    # rotation of the sample / crystal frame of all points
    r = S.mat_to_quat(S.rot_euler(*e))
    for rotated in (S.qmul(r, b.quats), S.qmul(b.quats, [np.full(b.shape, c) for c in r])):
        got2, _ = kam_of(b, rotated)
        cos_close(got2, want, 'KAM of the rotated map')
    return bool(want.max() > 1e-6)


@sub(st.tuples(st.integers(2, 9), st.integers(2, 9), S.euler, S.fl(1e-3, 0.2), S.vec3,
               st.booleans()), quick=200, thorough=4000)
def gradient(case):
    """A bend of constant curvature has constant KAM. Non-trivial: always."""
    h, w, e, k, ax, along_x = case
    q0 = S.mat_to_quat(S.rot_euler(*e))
    n = np.arange(w if along_x else h)
    a = S.uvec(ax)
    r = np.array([np.cos(k * n / 2), *(a[:, None] * np.sin(k * n / 2))])
    line = S.qmul(q0, r)
    quats = np.repeat(line[:, None], h, axis=1) if along_x else np.repeat(line[:, :, None], w, axis=2)
    m = ebsd.Map({'step_size': 1., 'phases': [M.make_phase('FCC')],
                  'phase': np.ones((h, w), np.uint8), 'euler_angle': M.euler_from_quats(quats),
                  'band_contrast': np.zeros((h, w), np.uint8)}, data_type='pythondict')
    # two neighbours at angle k, two at no angle
    cos_close(m.data.KAM, np.full((h, w), 2 * np.arccos((1 + np.cos(k / 2)) / 2)), 'KAM of a bend')
    return True


@sub(st.tuples(M.large_specs(40).filter(lambda s: min(s['shape']) > 1), S.euler_plain), quick=12,
     thorough=150)
def large(case):
    """Large maps. Non-trivial: not uniform."""
    return kernel(case)
