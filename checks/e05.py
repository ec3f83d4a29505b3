import numpy as np
from hypothesis import strategies as st
from defdap import ebsd
from lib.framework import sub, check, close, same
from lib import strats as S, maps as M

B = 1.4e-10


def nye_ref(q, sym, step):
    """(alpha, unsure): reference Nye tensor, pixels whose closest equivalent is ambiguous."""
    _, h, w = q.shape
    beta = np.zeros((2, 3, 3, h, w))
    unsure = np.zeros((h, w), bool)
    for y in range(h - 1):
        for x in range(w - 1):
            r0 = S.rot_quat(q[:, y, x])
            for k, (b, a) in enumerate(((y, x + 1), (y + 1, x))):
                eq = np.array([S.qmul(s, q[:, b, a]) for s in S.SYMQ[sym]])
                d = np.abs(eq @ q[:, y, x])
                i = int(np.argmax(d))
                # ambiguous if another rotation is as close
                other = np.abs(eq @ eq[i]) < 1 - 1e-6
                if other.any() and d[other].max() > d[i] - 1e-9:
                    unsure[y, x] = True
                beta[k, :, :, y, x] = (S.rot_quat(eq[i]).T @ r0 - np.eye(3)) / (step * 1e-6)
    bx, by = beta
    alpha = np.empty((3, 3, h, w))
    alpha[:, 0] = -by[:, 2] / B
    alpha[:, 1] = bx[:, 2] / B
    alpha[:, 2] = (by[:, 0] - bx[:, 1]) / B
    return alpha, unsure


def make(q, step, phases=('FCC',), pid=None):
    h, w = q.shape[1:]
    return ebsd.Map({'step_size': step, 'phases': [M.make_phase(p) for p in phases],
                     'phase': np.ones((h, w), np.uint8) if pid is None else pid,
                     'euler_angle': M.euler_from_quats(q),
                     'band_contrast': np.zeros((h, w), np.uint8)}, data_type='pythondict')


def own_quats(m):
    return np.array([[o.quat_coef for o in row] for row in m.data.orientation]).transpose(2, 0, 1)


def judge(m, alpha, unsure, step, what, tol=1e-10):
    unit = 1 / (step * 1e-6 * B)
    sure = ~unsure
    got, gnd = np.asarray(m.data.Nye_tensor), np.asarray(m.data.GND)
    check(got.shape == alpha.shape and gnd.shape == alpha.shape[2:], f'{what}: shapes')
    close(got[:, :, sure], alpha[:, :, sure], tol * unit, f'{what}: Nye tensor')
    close(gnd[sure], 1.5 * np.abs(alpha).sum(axis=(0, 1))[sure], 10 * tol * unit, f'{what}: GND')
    check((got[:, :, -1] == 0).all() and (got[..., -1] == 0).all(), f'{what}: last row and column')


@sub(st.tuples(M.ebsd_specs(hmax=6, wmax=6, spread=(0, 8)), st.integers(0, 2)),
     quick=250, thorough=7000)
def reference(case):
    """Against forward differences with a brute force choice of equivalents. Non-trivial: a
    non-zero tensor in a sure pixel."""
    spec, k = case
    b = M.Built(spec)
    m = b.map()
    k %= len(spec['phases'])
    m.primary_phase_id = k
    alpha, unsure = nye_ref(own_quats(m), b.syms[k], b.step)
    judge(m, alpha, unsure, b.step, 'map')
    # both names, generated again, do not change anything
    m.data.generate('GND')
    judge(m, alpha, unsure, b.step, 'map again')
    return bool(np.abs(alpha[:, :, ~unsure]).max() > 0) if (~unsure).any() else False


@sub(st.tuples(st.integers(2, 7), st.integers(2, 7), S.euler, S.vec3, S.fl(1e-4, 0.05),
               st.booleans(), S.sym_name, st.integers(0, 2 ** 31 - 1),
               st.sampled_from([1., 0.1, 2.5])), quick=250, thorough=6000)
def bend(case):
    """Analytic bends about any sample axis, any mix of equivalents. Non-trivial: always."""
    h, w, e, ax, k, along_x, sym, seed, step = case
    q0 = S.mat_to_quat(S.rot_euler(*e))
    a = S.uvec(ax)
    n = np.arange(w if along_x else h)
    r = np.array([np.cos(k * n / 2), *(a[:, None] * np.sin(k * n / 2))])
    line = S.qmul(q0, r)
    q = np.repeat(line[:, None], h, axis=1) if along_x else np.repeat(line[:, :, None], w, axis=2)
    q = np.array(q)
    rng = np.random.RandomState(seed)
    for y in range(h):
        for x in range(w):
            q[:, y, x] = S.qmul(S.SYMQ[sym][rng.randint(len(S.SYMQ[sym]))], q[:, y, x])
    m = make(q, step, ('FCC',) if sym == 'cubic' else ('HEX',))
    rot = S.rot_quat([np.cos(k / 2), *(a * np.sin(k / 2))]).T - np.eye(3)
    beta = rot / (step * 1e-6)
    alpha = np.zeros((3, 3, h, w))
    one = np.zeros((3, 3))
    if along_x:
        one[:, 1], one[:, 2] = beta[:, 2], -beta[:, 1]
    else:
        one[:, 0], one[:, 2] = -beta[:, 2], beta[:, 0]
    alpha[:, :, :-1, :-1] = one[:, :, None, None] / B
    unit = 1 / (step * 1e-6 * B)
    close(m.data.Nye_tensor, alpha, 1e-6 * unit, 'Nye tensor of a bend')
    close(m.data.GND, 1.5 * np.abs(alpha).sum(axis=(0, 1)), 1e-5 * unit, 'GND of a bend')
    return True


@sub(st.tuples(st.integers(1, 6), st.integers(1, 6), S.euler, S.sym_name,
               st.integers(0, 2 ** 31 - 1)), quick=150, thorough=3000)
def uniform(case):
    """A uniform map (any mix of equivalents) has no dislocations. Non-trivial: 2 x 2 or more."""
    h, w, e, sym, seed = case
    q0 = S.mat_to_quat(S.rot_euler(*e))
    rng = np.random.RandomState(seed)
    q = np.empty((4, h, w))
    for y in range(h):
        for x in range(w):
            q[:, y, x] = S.qmul(S.SYMQ[sym][rng.randint(len(S.SYMQ[sym]))], q0)
    m = make(q, 0.2, ('FCC',) if sym == 'cubic' else ('HEX',))
    unit = 1 / (0.2e-6 * B)
    close(m.data.Nye_tensor, np.zeros((3, 3, h, w)), 1e-6 * unit, 'Nye tensor of a uniform map')
    close(m.data.GND, np.zeros((h, w)), 1e-5 * unit, 'GND of a uniform map')
    return h > 1 and w > 1


@sub(st.tuples(st.integers(2, 6), st.integers(2, 6), S.euler, st.integers(-9, -1),
               st.sampled_from(['x', 'y', 'both']), S.sym_name, st.integers(0, 2 ** 31 - 1),
               st.sampled_from([1e-3, 0.1, 1., 30.])), quick=150, thorough=4000)
def gentle(case):
    """Gradients of any magnitude down to rounding, relative to their own size. Non-trivial:
    always."""
    h, w, e, size, along, sym, seed, step = case
    rng = np.random.RandomState(seed)
    q0 = S.mat_to_quat(S.rot_euler(*e))
    v = np.zeros((3, h, w))
    if along != 'y':
        v += rng.randn(3)[:, None, None] * np.arange(w)
    if along != 'x':
        v += rng.randn(3)[:, None, None] * np.arange(h)[:, None]
    v *= 10. ** size / 10
    r = np.concatenate([np.sqrt(np.maximum(0, 1 - (v ** 2).sum(axis=0)))[None], v])
    q = np.empty((4, h, w))
    for y in range(h):
        for x in range(w):
            r[:, y, x] /= np.sqrt((r[:, y, x] ** 2).sum())
            q[:, y, x] = S.qmul(q0, r[:, y, x])
    m = make(q, step, ('FCC',) if sym == 'cubic' else ('HEX',))
    alpha, unsure = nye_ref(own_quats(m), sym, step)
    judge(m, alpha, unsure, step, 'gentle gradient', tol=3e-14)
    return 'size %d' % size


@sub(st.tuples(M.large_specs(24), st.integers(0, 1)), quick=8, thorough=300)
def large(case):
    """Large maps. Non-trivial: a non-zero tensor."""
    return reference(case)
