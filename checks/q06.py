import numpy as np
from hypothesis import strategies as st
from defdap import ebsd, hrdic        # noqa: F401
from defdap.quat import Quat
from lib.framework import sub, check, close, same
from lib import strats as S, maps as M

CORNERS = {
    'cubic': np.array([[0, 0, 1.], [0, 2 ** -.5, 2 ** -.5], [-3 ** -.5, 3 ** -.5, 3 ** -.5]]),
    'hexagonal': np.array([[0, 0, 1.], [0, 1, 0], [-.5, 3 ** .5 / 2, 0]]),
}


def ang(a, b):
    return np.arctan2(np.sqrt((np.cross(a, b) ** 2).sum()), a @ b)


def fund(v, sym):
    """The equivalent (with inversion) of v closest to the middle of the sector: for a
    reflection group that is the one inside it."""
    orbit = np.concatenate([S.SYM[sym] @ v, -(S.SYM[sym] @ v)])
    mid = S.uvec(CORNERS[sym].sum(axis=0))
    return orbit[np.argmax(orbit @ mid)]


def colour(v, sym):
    """Reference colour of a crystal direction."""
    d = fund(S.uvec(v), sym)
    c = CORNERS[sym]
    rgb = np.empty(3)
    for i in range(3):
        a, b = c[(i + 1) % 3], c[(i + 2) % 3]
        p = np.cross(np.cross(c[i], d), np.cross(a, b))
        if np.abs(p).max() < 1e-12:
            rgb[i] = 1.
            continue
        p = S.uvec(p)
        if p @ (a + b) < 0:
            p = -p
        n = np.cross(a, b)
        dist = ang(d, p) if (d @ n) * (c[i] @ n) > 0 else 0.
        rgb[i] = dist / ang(c[i], p)
    return rgb / rgb.max()


def special():
    ints = st.tuples(*[st.integers(-3, 3)] * 3).filter(any).map(lambda t: tuple(map(float, t)))
    return st.one_of(S.vec3, ints)


def judge(got, v, sym, tol, msg):
    got = np.asarray(got, float)
    check(np.isfinite(got).all() and got.min() >= -1e-6 and got.max() <= 1 + 1e-6,
          f'{msg}: {got} not a colour')
    close(got.max(), 1, 1e-5, f'{msg}: largest component')
    close(got, colour(v, sym), tol, f'{msg}: colour of crystal direction {v}')


@sub(st.tuples(S.sym_name, st.lists(S.quat4, min_size=1, max_size=5), special(),
               st.sampled_from([None, 'float', 'float32']), S.fl(0.1, 20),
               st.lists(st.integers(0, 23), min_size=5, max_size=5)), quick=1200, thorough=40000)
def direction_colours(case):
    """Against the great circle construction; equivalents; scaling. Non-trivial: not all colours
    the same."""
    sym, qs, d, dt, scale, ks = case
    kw = {} if dt is None else {'dtype': {'float': float, 'float32': np.float32}[dt]}
    tol = 1e-5 if dt == 'float' else 4e-3
    d = np.array(d)
    quats = [Quat(*q) for q in qs]
    rgb = Quat.calc_ipf_colours(quats, d, sym, **kw)
    check(rgb.shape == (3, len(qs)), lambda: f'shape {rgb.shape}')
    n = len(S.SYMQ[sym])
    eq = [Quat(S.qmul(S.SYMQ[sym][k % n], q)) for k, q in zip(ks, qs)]
    rgb2 = Quat.calc_ipf_colours(eq, d * scale, sym, **kw)
    for i, q in enumerate(qs):
        judge(rgb[:, i], S.rot_quat(q) @ S.uvec(d), sym, tol, 'orientation')
        close(rgb2[:, i], rgb[:, i], 2 * tol, 'colour of an equivalent')
    return len(qs) > 1 and np.ptp(rgb, axis=1).max() > 1e-2


@sub(st.tuples(S.sym_name, st.integers(0, 2), S.quat4, st.integers(0, 23), st.booleans()),
     quick=400, thorough=6000)
def corners(case):
    """Orientations that put a corner of the sector along the direction. Non-trivial: always."""
    sym, i, q, k, neg = case
    c = S.SYM[sym][k % len(S.SYM[sym])] @ CORNERS[sym][i] * (-1 if neg else 1)
    d = S.rot_quat(q).T @ c
    got = Quat.calc_ipf_colours([Quat(*q)], d, sym)[:, 0]
    close(got, np.eye(3)[i], 4e-3, f'corner {CORNERS[sym][i]}')
    return True


@sub(st.tuples(S.sym_name, S.quat4, S.vec3, S.vec3, st.sampled_from([1e-3, 1e-4])),
     quick=600, thorough=20000)
def continuous(case):
    """Neighbouring directions have neighbouring colours. Non-trivial: always."""
    sym, q, d, ax, eps = case
    r = S.rot_axis_passive(ax, eps)
    d = S.uvec(d)
    a = Quat.calc_ipf_colours([Quat(*q)], d, sym, dtype=float)[:, 0]
    b = Quat.calc_ipf_colours([Quat(*q)], r @ d, sym, dtype=float)[:, 0]
    close(a, b, 40 * eps, 'colours of close directions')
    return True




bg = st.one_of(st.none(), st.tuples(S.fl(0, 1), S.fl(0, 1), S.fl(0, 1)),
               st.sampled_from([(1, 1, 1), (0, 0, 1), (1., 1., 1.)]))


def selection(spec, sel):
    n = len(spec['phases'])
    if sel is None:
        return None, list(range(n))
    sel = sorted({s % n for s in sel})
    return sel, sel


def expected(b, ids, back, rule):
    want = np.empty(b.shape + (3,))
    want[:] = (0, 0, 0) if back is None else back
    for y in range(b.shape[0]):
        for x in range(b.shape[1]):
            p = int(b.phase[y, x]) - 1
            if p in ids:
                want[y, x] = rule(y, x, p)
    return want


@sub(st.tuples(M.ebsd_specs(hmax=6, wmax=6), bg,
               st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=1, max_size=3)),
               S.vec3, st.booleans()), quick=150, thorough=3000)
def map_colours(case):
    """Each pixel by its own phase's rule, the rest the background. Non-trivial: several phases
    or unselected pixels."""
    spec, back, sel, d, as_array = case
    b = M.Built(spec)
    m = b.map()
    arg, ids = selection(spec, sel)
    back_arg = np.array(back) if as_array and back is not None else \
        (list(back) if back is not None else None)
    d = np.array(d)
    got = m.calc_ipf_colour(m.data.orientation, d, phases=arg, bg_colour=back_arg)
    want = expected(b, ids, back,
                    lambda y, x, p: colour(S.rot_quat(b.quats[:, y, x]) @ S.uvec(d), b.syms[p]))
    close(got, want, 4e-3, 'IPF map')
    norm = {'cubic': np.array([2 * np.pi, np.pi / 2, np.pi / 2]),
            'hexagonal': np.array([np.pi, np.pi, np.pi / 3])}
    got = m.calc_euler_colour(m.data.euler_angle, phases=arg, bg_colour=back_arg)
    want = expected(b, ids, back, lambda y, x, p: b.euler[:, y, x] / norm[b.syms[p]])
    close(got, want, 1e-6, 'Euler map')
    if back is not None:
        same(np.array(back_arg), np.array(back), 'background argument changed')
    return len(set(b.phase.ravel()) - {0}) > 1 or not np.isin(b.phase - 1., ids).all()


@sub(st.tuples(M.ebsd_specs(hmin=2, hmax=6, wmin=2, wmax=6, spread=(0, 3)), S.vec3),
     quick=60, thorough=1500)
def grain_colours(case):
    """Colours of a grain's orientations. Non-trivial: a grain."""
    spec, d = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=1)
    d = np.array(d)
    for i, g in enumerate(m.grains[:4]):
        pts = [tuple(int(c) for c in p) for p in g.data.point]
        p = int(b.phase[pts[0][1], pts[0][0]]) - 1
        got = np.asarray(g.calc_ipf_colour(g.data.orientation, d))
        check(got.shape == (len(pts), 3), 'shape')
        for (x, y), c in zip(pts, got):
            judge(c, S.rot_quat(b.quats[:, y, x]) @ S.uvec(d), b.syms[p], 4e-3, 'grain')
        e = np.array([b.euler[:, y, x] for x, y in pts])
        norm = [2 * np.pi, np.pi / 2, np.pi / 2] if b.syms[p] == 'cubic' \
            else [np.pi, np.pi, np.pi / 3]
        close(g.calc_euler_colour(g.data.euler_angle), e / norm, 1e-6, 'Euler colours of a grain')
    return len(m.grains) > 0


@sub(st.tuples(S.sym_name, st.integers(300, 1500), st.integers(0, 2 ** 31 - 1), special()),
     quick=6, thorough=200)
def many(case):
    """Thousands of orientations at once. Non-trivial: always."""
    sym, n, seed, d = case
    qs = np.random.RandomState(seed).randn(n, 4)
    qs /= np.sqrt((qs ** 2).sum(axis=1))[:, None]
    rgb = Quat.calc_ipf_colours(np.array([Quat(q) for q in qs]), np.array(d), sym)
    check(rgb.shape == (3, n), 'shape')
    for c, q in zip(rgb.T, qs):
        judge(c, S.rot_quat(q) @ S.uvec(d), sym, 4e-3, 'orientation')
    return True


@sub(st.tuples(M.large_specs(40), bg, st.sampled_from([None, [0]]), S.vec3, st.booleans()),
     quick=3, thorough=100)
def large_map(case):
    """Large maps. Non-trivial: several phases or unselected pixels."""
    return map_colours(case)
