"""Generators of orientations, lattices and maps (plain data, shrinkable)."""
import numpy as np
from hypothesis import strategies as st

PI = np.pi


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


# angles: mostly arbitrary, often special (multiples of 15 degrees, tiny offsets)
def angle(lo, hi):
    k = [i * PI / 12 for i in range(-48, 49) if lo - 1e-12 <= i * PI / 12 <= hi + 1e-12]
    k = [min(max(v, lo), hi) for v in k]
    return st.one_of(
        fl(lo, hi),
        fl(lo, hi),
        st.sampled_from(k),
        st.builds(lambda a, e: min(max(a + e, lo), hi), st.sampled_from(k),
                  st.sampled_from([1e-3, -1e-3, 1e-6, -1e-6, 1e-9, -1e-9, 1e-12, -1e-12])),
    )


euler = st.tuples(angle(0, 2 * PI), angle(0, PI), angle(0, 2 * PI))
euler_plain = st.tuples(fl(0, 2 * PI), fl(0, PI), fl(0, 2 * PI))


def _unit4(t):
    v = np.array(t, dtype=float)
    n = np.sqrt((v ** 2).sum())
    if n < 1e-3:
        return (1., 0., 0., 0.)
    v = v / n
    if v[0] < 0:
        v = -v
    return tuple(float(x) for x in v)


comp = st.one_of(fl(-1, 1), fl(-1, 1), st.sampled_from([0., 1., -1., 0.5, -0.5]))
# unit quaternions in the northern hemisphere, often with zero components
quat4 = st.tuples(comp, comp, comp, comp).map(_unit4)
quat4_plain = st.tuples(fl(-1, 1), fl(-1, 1), fl(-1, 1), fl(-1, 1)).map(_unit4)

vec_comp = st.one_of(fl(-1, 1), st.sampled_from([0., 1., -1., 0.5, 2.]))


def _nz3(t):
    v = np.array(t, dtype=float)
    return (1., 0., 0.) if np.abs(v).max() < 1e-2 else tuple(float(x) for x in v)


vec3 = st.tuples(vec_comp, vec_comp, vec_comp).map(_nz3)
sym_name = st.sampled_from(['cubic', 'hexagonal'])


def uvec(v):
    v = np.array(v, dtype=float)
    return v / np.sqrt((v ** 2).sum())


# ------------------------------------------------------- independent references
def rot_euler(ph1, phi, ph2):
    """Passive Bunge rotation matrix g: sample coordinates -> crystal coordinates."""
    c1, s1 = np.cos(ph1), np.sin(ph1)
    c, s = np.cos(phi), np.sin(phi)
    c2, s2 = np.cos(ph2), np.sin(ph2)
    z1 = np.array([[c1, s1, 0], [-s1, c1, 0], [0, 0, 1.]])
    x = np.array([[1., 0, 0], [0, c, s], [0, -s, c]])
    z2 = np.array([[c2, s2, 0], [-s2, c2, 0], [0, 0, 1.]])
    return z2 @ x @ z1


def rot_axis_passive(axis, angle):
    """Coordinates in a frame rotated by angle about axis."""
    n = uvec(axis)
    k = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    r = np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * k @ k
    return r.T


def rot_quat(q):
    """Rotation matrix v -> q v q* of a unit quaternion (Hamilton)."""
    w, x, y, z = [float(c) for c in q]
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def qmul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return np.array([
        aw * bw - ax * bx - ay * by - az * bz,
        aw * bx + bw * ax + ay * bz - az * by,
        aw * by + bw * ay + az * bx - ax * bz,
        aw * bz + bw * az + ax * by - ay * bx])


def rot_angle(r):
    """Angle of a rotation matrix, accurate near 0 and pi."""
    s = np.sqrt((r[2, 1] - r[1, 2]) ** 2 + (r[0, 2] - r[2, 0]) ** 2 + (r[1, 0] - r[0, 1]) ** 2)
    return float(np.arctan2(s, np.trace(r) - 1))


def _sym_mats():
    """Proper rotation groups, built from generators, not from the package."""
    def close(gens):
        grp = [np.eye(3)]
        i = 0
        while i < len(grp):
            for g in gens:
                m = grp[i] @ g
                if not any(np.allclose(m, h, atol=1e-9) for h in grp):
                    grp.append(m)
            i += 1
        return np.array(grp)
    z4 = rot_axis_passive((0, 0, 1), PI / 2)
    d3 = rot_axis_passive((1, 1, 1), 2 * PI / 3)
    z6 = rot_axis_passive((0, 0, 1), PI / 3)
    x2 = rot_axis_passive((1, 0, 0), PI)
    cub, hexa = close([z4, d3]), close([z6, x2])
    assert len(cub) == 24 and len(hexa) == 12
    return {'cubic': cub, 'hexagonal': hexa}


SYM = _sym_mats()
MAX_MISORI = {'cubic': np.deg2rad(62.7994296 + 1e-6), 'hexagonal': np.deg2rad(93.84 + 0.01)}


def mat_to_quat(r):
    """Unit quaternion (w >= 0) of a rotation matrix (v -> q v q*)."""
    k = np.array([
        [r[0, 0] + r[1, 1] + r[2, 2], r[2, 1] - r[1, 2], r[0, 2] - r[2, 0], r[1, 0] - r[0, 1]],
        [0, r[0, 0] - r[1, 1] - r[2, 2], r[0, 1] + r[1, 0], r[0, 2] + r[2, 0]],
        [0, 0, r[1, 1] - r[0, 0] - r[2, 2], r[1, 2] + r[2, 1]],
        [0, 0, 0, r[2, 2] - r[0, 0] - r[1, 1]]])
    k = (k + np.triu(k, 1).T) / 3
    w, v = np.linalg.eigh(k)
    q = v[:, -1]
    return q if q[0] >= 0 else -q


SYMQ = {k: np.array([mat_to_quat(m) for m in v]) for k, v in SYM.items()}


def disori_q(qa, qb, sym):
    """Smallest angle between orientations a and b over left symmetry (radians).

    Orientation = passive rotation sample->crystal, symmetric equivalents S*g. The
    relative rotation of (S g_b) to g_a is g_a^-1... its angle only depends on |<a, S b>|.
    """
    qa, qb = np.asarray(qa, float), np.asarray(qb, float)
    best = PI
    for s in SYMQ[sym]:
        c = qmul(s, qb)
        # relative rotation, robust near zero angle
        conj = np.array([c[0], -c[1], -c[2], -c[3]])
        rel = qmul(qa, conj)
        ang = 2 * np.arctan2(np.sqrt((rel[1:] ** 2).sum()), abs(rel[0]))
        best = min(best, ang)
    return float(best)


def disori_many(q, qref, sym):
    """disori_q for an array of quaternions (4, n) against one reference."""
    q = np.asarray(q, float)
    out = np.full(q.shape[1:], PI)
    for s in SYMQ[sym]:
        c = qmul(s, np.asarray(qref, float))
        conj = np.array([c[0], -c[1], -c[2], -c[3]])
        rel = qmul(q, [np.full(q.shape[1:], x) for x in conj])
        ang = 2 * np.arctan2(np.sqrt((rel[1:] ** 2).sum(axis=0)), np.abs(rel[0]))
        out = np.minimum(out, ang)
    return out
