import numpy as np
from hypothesis import strategies as st
from lib.framework import sub, check, close, same
from lib import strats as S
from lib import maps as M

size = st.integers(2, 8)
binning = st.integers(1, 24)
origins = st.tuples(st.integers(0, 500), st.integers(0, 500))


def grid(h, w, b, o):
    y, x = np.mgrid[:h, :w].astype(float)
    return x * b + o[0], y * b + o[1]


def expect_uniform(m, F, what, tol):
    h, w = m.shape
    ones = np.ones((h, w))
    close(m.data.f, F[..., None, None] * ones, tol, f'{what}: deformation gradient')
    E = 0.5 * (F.T @ F - np.eye(2))
    k = max(1., np.abs(F).max())
    close(m.data.e, E[..., None, None] * ones, 4 * k * tol, f'{what}: Green strain')
    lam = np.linalg.eigvalsh(E)
    close(m.data.max_shear, (lam[1] - lam[0]) / 2 * ones, 8 * k * tol, f'{what}: effective shear')


def special(k, s, t):
    """Displacement gradients with equal principal strains, one principal strain zero, pure shears."""
    R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    F = [s * R, R @ np.diag([s, 1.]), R @ np.diag([s, 1 / s]), R @ np.array([[1, s], [0, 1]]),
         R @ np.diag([s, s * (1 + 1e-9)])][k]
    return (F - np.eye(2)).ravel().tolist()


gradients = st.one_of(
    st.tuples(*[S.fl(-2, 2)] * 4),
    st.builds(special, st.integers(0, 4), S.fl(.2, 3), st.one_of(st.sampled_from([0., np.pi / 2]), S.fl(-3, 3))))


@sub(st.tuples(size, size, binning, origins, gradients, S.fl(-2, 2), S.fl(-2, 2)), 250, 10000)
def linear_fields(case):
    """Displacements linear in position with a non-symmetric gradient."""
    h, w, b, o, g, *t = case
    g = [*g, *t]
    H = np.array(g[:4]).reshape(2, 2)
    x, y = grid(h, w, b, o)
    u = np.array([H[0, 0] * x + H[0, 1] * y + g[4], H[1, 0] * x + H[1, 1] * y + g[5]])
    m = M.dic_map(u, b, o)
    scale = np.abs(u).max() + 1
    expect_uniform(m, np.eye(2) + H, 'linear field', 1e-12 * scale / b + 1e-12)
    return abs(H[0, 1] - H[1, 0]) > 1e-6


@sub(st.tuples(size, size, binning, origins, S.angle(-np.pi, np.pi), S.fl(-1e4, 1e4), S.fl(-1e4, 1e4)), 150, 6000)
def rigid_motion(case):
    """Rotation by more than a degree plus translation: no strain, gradient = rotation."""
    h, w, b, o, t, tx, ty = case
    x, y = grid(h, w, b, o)
    R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    u = np.array([R[0, 0] * x + R[0, 1] * y - x + tx, R[1, 0] * x + R[1, 1] * y - y + ty])
    m = M.dic_map(u, b, o)
    tol = 1e-12 * (np.abs(u).max() + 1) / b + 1e-12
    expect_uniform(m, R, 'rigid motion', tol)
    close(m.data.e, 0 * m.data.e, 8 * tol, 'strain of a rigid motion')
    return abs(np.sin(t)) > 0.02


def reference(u, b):
    """F, E, shear by explicit differences, component and pixel at a time."""
    _, h, w = u.shape
    F = np.zeros((2, 2, h, w))
    for i in range(2):
        for y in range(h):
            for x in range(w):
                for j, (p, n) in enumerate(((x, w), (y, h))):
                    lo, hi = max(p - 1, 0), min(p + 1, n - 1)
                    d = (u[i, y, hi] - u[i, y, lo]) if j == 0 else (u[i, hi, x] - u[i, lo, x])
                    F[i, j, y, x] = d / ((hi - lo) * b) + (i == j)
    E = np.zeros_like(F)
    for i in range(2):
        for j in range(2):
            E[i, j] = 0.5 * (F[0, i] * F[0, j] + F[1, i] * F[1, j] - (i == j))
    return F, E, np.sqrt(((E[0, 0] - E[1, 1]) / 2) ** 2 + E[0, 1] ** 2)


fields = st.tuples(size, size, binning, st.integers(0, 2 ** 31 - 1),
                   st.sampled_from([1e-7, 1e-4, 0.01, 0.5, 5., 100.]))


@sub(fields, 250, 10000)
def arbitrary_fields(case):
    """Random field with varying strain on a non-square grid."""
    h, w, b, seed, scale = case
    u = M.smooth_disp(seed, h, w, scale)
    m = M.dic_map(u, b)
    F, E, shear = reference(u, b)
    k = max(1., np.abs(F).max())
    close(m.data.f, F, 1e-12 * k, 'deformation gradient')
    close(m.data.e, E, 1e-12 * k * k, 'Green strain')
    close(m.data.max_shear, shear, 1e-11 * k * k, 'effective shear')
    same(np.asarray(m.data.e[0, 1]), np.asarray(m.data.e[1, 0]), 'symmetry of the strain')
    check((np.asarray(m.data.max_shear) >= 0).all(), 'effective shear is negative')
    return h != w


@sub(st.tuples(fields, S.fl(-1e3, 1e3), S.fl(-1e3, 1e3), S.angle(-np.pi, np.pi), st.booleans()), 150, 6000)
def objectivity(case):
    """A rigid translation or rotation after the deformation changes no strain; a field and its
    transpose have transposed strain."""
    (h, w, b, seed, scale), tx, ty, t, translate = case
    u = M.smooth_disp(seed, h, w, scale)
    x, y = grid(h, w, b, (0, 0))
    m = M.dic_map(u, b)
    if translate:
        v = u + np.array([tx, ty])[:, None, None]
    else:
        c, s = np.cos(t), np.sin(t)
        X, Y = x + u[0], y + u[1]
        v = np.array([c * X - s * Y - x, s * X + c * Y - y])
    n = M.dic_map(v, b)
    k = max(1., np.abs(m.data.f).max())
    tol = 1e-11 * (np.abs(v).max() + np.abs(u).max() + x.max() + y.max() + 1) / b * k + 1e-11 * k * k
    close(n.data.e, m.data.e, tol, 'strain after a rigid motion')
    close(n.data.max_shear, m.data.max_shear, 4 * tol, 'effective shear after a rigid motion')
    if translate:
        close(n.data.f, m.data.f, tol, 'gradient after a translation')
    # x <-> y
    p = M.dic_map(np.transpose(u[::-1], (0, 2, 1)), b)
    for i in range(2):
        for j in range(2):
            close(p.data.e[i, j], m.data.e[1 - i, 1 - j].T, 1e-11 * k * k, 'transposed field')
    close(p.data.max_shear, m.data.max_shear.T, 1e-11 * k * k, 'effective shear, transposed field')
    return True


@sub(st.tuples(fields, st.integers(2, 5)), 60, 2000)
def units(case):
    """Strain does not depend on the pixel size of a scaled image."""
    (h, w, b, seed, scale), k = case
    u = M.smooth_disp(seed, h, w, scale)
    m, n = M.dic_map(u, b), M.dic_map(u * k, b * k)
    f = max(1., np.abs(m.data.f).max())
    close(n.data.e, m.data.e, 1e-11 * f * f, 'strain of a scaled image')
    m.set_scale(0.25)
    close(m.scale, 0.25 * b, 1e-12, 'map scale')
    return True


@sub(st.tuples(st.sampled_from([1, 2, 3, 4, 15, 40]), st.integers(257, 700), binning, st.integers(0, 2 ** 31 - 1),
               st.sampled_from([.01, 5.]), st.booleans()), 8, 200)
def large(case):
    """More than 256 rows or columns. Non-trivial: always."""
    a, n, b, seed, scale, tall = case
    a += 1
    return arbitrary_fields(((n, a) if tall else (a, n)) + (b, seed, scale))
