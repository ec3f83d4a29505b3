import numpy as np
from hypothesis import strategies as st
from defdap.quat import Quat
from lib.framework import sub, check, close, same
from lib import strats as S

TOL = 1e-9


def unit_north(q, what):
    c = np.asarray(q.quat_coef)
    check(c.shape == (4,), f'{what}: quaternion shape {c.shape}')
    close(np.sqrt((c ** 2).sum()), 1, 1e-9, f'{what}: unit norm')
    check(c[0] >= 0, f'{what}: not in northern hemisphere {c}')


def same_rot(q, r, tol, what):
    close(q.rot_matrix(), r, tol, what)


@sub(S.euler, quick=3000, thorough=100000)
def euler_forms(e):
    """Non-trivial: PHI not a multiple of pi."""
    e0 = tuple(e)
    q = Quat.from_euler_angles(*e)
    unit_north(q, 'from_euler_angles')
    r = S.rot_euler(*e)
    close(q.rot_matrix(), r, TOL, 'rotation matrix of Euler angles')
    close(S.rot_quat(q.quat_coef), r, TOL, 'quaternion of Euler angles')
    before = q.quat_coef.copy()
    out = q.euler_angles()
    same(q.quat_coef, before, 'euler_angles changed the quaternion')
    check(np.shape(out) == (3,) and np.all(np.isfinite(out)), f'Euler angles {out}')
    check(0 <= out[0] < 2 * np.pi + 1e-12 and 0 <= out[2] < 2 * np.pi + 1e-12
          and 0 <= out[1] <= np.pi + 1e-12, f'Euler angles out of range {out}')
    close(S.rot_euler(*out), r, 1e-7, 'Euler angles of the quaternion')
    back = Quat.from_euler_angles(*out)
    close(abs(np.dot(back.quat_coef, q.quat_coef)), 1, 1e-12, 'Euler round trip')
    if 1e-4 < e[1] < np.pi - 1e-4 and e[0] < 2 * np.pi - 1e-6 and e[2] < 2 * np.pi - 1e-6:
        d = np.abs(np.array(out) - np.array(e))
        d[[0, 2]] = np.minimum(d[[0, 2]], 2 * np.pi - d[[0, 2]])
        close(d, np.zeros(3), 1e-6, 'Euler angles not recovered')
        return 'general'
    return 'degenerate' if e0[1] in (0., np.pi) else False


@sub(S.quat4, quick=3000, thorough=100000)
def quat_forms(c):
    """Non-trivial: at least two non-zero components."""
    q = Quat(*c)
    close(q.quat_coef, np.array(c), 0, 'construction from components')
    close(Quat(np.array(c)).quat_coef, np.array(c), 0, 'construction from array')
    close(Quat(list(c)).quat_coef, np.array(c), 0, 'construction from list')
    neg = Quat(*[-x for x in c])
    if c[0] != 0:
        close(neg.quat_coef, np.array(c), 0, 'southern quaternion moved to north')
    south = Quat(*[-x for x in c], allow_southern=True)
    close(south.quat_coef, -np.array(c), 0, 'southern quaternion kept when allowed')
    r = S.rot_quat(c)
    close(q.rot_matrix(), r, 1e-9, 'rotation matrix')
    e = q.euler_angles()
    check(0 <= e[0] < 2 * np.pi + 1e-12 and 0 <= e[2] < 2 * np.pi + 1e-12
          and 0 <= e[1] <= np.pi + 1e-12, f'Euler angles out of range {e}')
    # one unit of rounding in the components is sqrt(eps) of angle near the poles
    close(S.rot_euler(*e), r, 1e-7, 'Euler angles of quaternion')
    close(abs(np.dot(Quat.from_euler_angles(*e).quat_coef, c)), 1, 1e-12, 'round trip')
    return sum(x != 0 for x in c) > 1


@sub(st.tuples(S.quat4, S.quat4, st.sampled_from(['normalise', 'add', 'set']),
               st.integers(0, 3), S.fl(.1, 5)), quick=600, thorough=10000)
def own_components(case):
    """A quaternion made from an array keeps components of its own, and so does one made from
    another's components. Non-trivial: always."""
    c, d, what, k, x = case
    src = np.array(c) * x
    south = src[0] < 0
    q = Quat(src)
    r = Quat(q.quat_coef)
    keep = src.copy()
    if what == 'normalise':
        q.normalise()
        want = keep / np.sqrt((keep ** 2).sum())
    elif what == 'add':
        q += Quat(np.array(d))
        want = keep + np.array(d)
    else:
        q[k] = x
        want = keep.copy()
        want[k] = x
    check(not south, 'generator')
    close(q.quat_coef, want, 1e-12, f'{what} in place')
    same(src, keep, f'{what} changed the array the quaternion was made from')
    same(r.quat_coef, keep, f'{what} changed a quaternion made from the components')
    src[k] = 7.
    close(q.quat_coef, want, 1e-12, 'quaternion follows the array it was made from')
    close([q[i] for i in range(4)], want, 1e-12, 'components by index')
    close(q.norm(), np.sqrt((want ** 2).sum()), 1e-9, 'norm')
    return True


@sub(st.tuples(S.vec3, S.angle(-2 * np.pi, 2 * np.pi),
               st.one_of(S.fl(0.1, 50), st.sampled_from([1e-7, 1e-4, 1e-2, 1e3, 1e7]))),
     quick=2000, thorough=50000)
def axis_angle(case):
    """Non-trivial: angle not zero."""
    axis, ang, scale = case
    q = Quat.from_axis_angle(np.array(axis), ang)
    unit_north(q, 'from_axis_angle')
    close(q.rot_matrix(), S.rot_axis_passive(axis, ang), TOL, 'axis-angle rotation')
    q2 = Quat.from_axis_angle(np.array(axis) * scale, ang)
    close(q2.rot_matrix(), q.rot_matrix(), TOL, 'axis length matters')
    ia = np.array([int(round(a * 3)) for a in axis])
    if np.any(ia):
        close(Quat.from_axis_angle(ia, ang).rot_matrix(), S.rot_axis_passive(ia, ang),
              TOL, 'integer axis')
    close(Quat.from_axis_angle(list(axis), ang).rot_matrix(), q.rot_matrix(), 1e-12, 'list axis')
    return abs(ang) > 1e-6


@sub(st.tuples(st.lists(S.euler, min_size=1, max_size=12), st.integers(0, 2)),
     quick=400, thorough=10000)
def bulk(case):
    """Non-trivial: more than one orientation."""
    eulers, ndim = case
    arr = np.array(eulers).T                      # (3, n)
    n = arr.shape[1]
    if ndim == 1:
        arr = arr.reshape(3, 1, n)
    elif ndim == 2 and n % 2 == 0:
        arr = arr.reshape(3, 2, n // 2)
    keep = arr.copy()
    quats = Quat.create_many_quats(arr)
    same(arr, keep, 'create_many_quats changed its input')
    check(np.shape(quats) == arr.shape[1:], f'shape {np.shape(quats)} for input {arr.shape}')
    for q, e in zip(np.ravel(quats), eulers):
        check(isinstance(q, Quat), 'not a Quat')
        unit_north(q, 'bulk')
        ref = Quat.from_euler_angles(*e)
        close(q.quat_coef, ref.quat_coef, 1e-12, 'bulk and scalar construction differ') \
            if ref.quat_coef[0] > 1e-9 else \
            close(abs(q.dot(ref)), 1, 1e-12, 'bulk and scalar construction differ')
    comps = Quat.extract_quat_comps(np.ravel(quats))
    for i, q in enumerate(np.ravel(quats)):
        close(np.asarray(comps)[:, i], q.quat_coef, 0, 'extract_quat_comps')
    # in the shape of the map they were made for
    comps = np.asarray(Quat.extract_quat_comps(quats))
    check(comps.shape == (4,) + np.shape(quats), f'shape {comps.shape} for {np.shape(quats)}')
    for i in np.ndindex(np.shape(quats)):
        close(comps[(slice(None),) + i], quats[i].quat_coef, 0, 'extract_quat_comps of a map')
    return n > 1
