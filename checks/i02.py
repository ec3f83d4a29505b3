import contextlib
import io
import re
import warnings
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage
from skimage.draw import line as pixels
from defdap import ebsd, hrdic
from defdap.inspector import GrainInspector
from defdap.quat import Quat
from lib.framework import sub, check, close, same, raises
from lib import strats as S
from lib import maps as M
from lib import dic as D
from lib import plot as P


# ------------------------------------------------------------- theoretical ratios
def one_grain(kind, q):
    e = M.euler_from_quats(np.array(q).reshape(4, 1, 1))
    m = ebsd.Map({'step_size': 1., 'phases': [M.make_phase(kind)], 'phase': np.ones((1, 1), np.uint8),
                  'euler_angle': e, 'band_contrast': np.zeros((1, 1))}, data_type='pythondict')
    m.data.generate('grains', min_grain_size=1)
    m.calc_grain_av_oris()
    return m, m.grains[0]


@sub(st.tuples(st.sampled_from(['FCC', 'BCC', 'HEX']), S.quat4), 200, 10000)
def theoretical(case):
    """Every slip system of a grain: u/v of its Burgers vector in the sample frame (v downwards).
    Non-trivial: neither component vanishes for any system."""
    kind, q = case
    m, g = one_grain(kind, q)
    g.calc_rdr()
    R = S.rot_quat(g.ref_ori.quat_coef)      # sample -> crystal
    check([len(x) for x in g.rdr] == [len(x) for x in g.phase.slip_systems], 'one ratio for each system')
    nt = True
    for got, group in zip(g.rdr, g.phase.slip_systems):
        for r, s in zip(got, group):
            b = R.T @ S.uvec(s.slip_dir)
            if abs(b[1]) > 1e-6:
                close(r, -b[0] / b[1], 1e-9 * (1 + 1 / b[1] ** 2), f'ratio of {s}')
            nt = nt and min(abs(b[:2])) > 1e-3
    return nt


@sub(st.tuples(M.ebsd_specs(hmin=2, hmax=7, wmin=2, wmax=7, spread=(0, 2)), st.booleans()),
     50, 1500)
def whole_map(case):
    """Every grain of a map from its own phase and average orientation. Non-trivial: more than one
    grain."""
    spec, averaged = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=1)
    if len(m.grains) == 0:
        return False
    if averaged:
        m.calc_grain_av_oris()
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(divide='ignore', invalid='ignore'):
        m.calc_rdr()
    lab = np.asarray(m.data.grains)
    for i, g in enumerate(m.grains):
        y, x = np.argwhere(lab == i + 1)[0]
        ss = m.phases[int(b.phase[y, x]) - 1].slip_systems
        R = S.rot_quat(g.ref_ori.quat_coef)
        check([len(r) for r in g.rdr] == [len(r) for r in ss], f'grain {i}: one ratio for each system')
        for r, s in zip([r for rs in g.rdr for r in rs], [s for group in ss for s in group]):
            v = R.T @ S.uvec(s.slip_dir)
            if abs(v[1]) > 1e-6:
                close(r, -v[0] / v[1], 1e-9 * (1 + 1 / v[1] ** 2), f'grain {i}: ratio of {s}')
    return len(m.grains) > 1


@sub(st.tuples(st.sampled_from(['FCC', 'BCC', 'HEX']), st.integers(0, 100), S.angle(0, np.pi), S.angle(0, 2 * np.pi)),
     150, 6000)
def steep_planes(case):
    """A slip plane perpendicular to the surface: displacements are along its trace, so the ratios of
    all its systems are the tangent of the trace angle (from vertical). Non-trivial: trace is oblique."""
    kind, k, az, spin = case
    groups = M.make_phase(kind).slip_systems
    k %= len(groups)
    n = S.uvec(groups[k][0].slip_plane)
    a = np.cross(n, [0.3, 0.5, 0.8])
    if np.linalg.norm(a) < 0.1:
        a = np.cross(n, [0.8, -0.5, 0.3])
    a /= np.linalg.norm(a)
    C = np.array([n, a, np.cross(n, a)]).T
    ms = np.array([np.cos(az), np.sin(az), 0])
    u, v = np.array([-np.sin(az), np.cos(az), 0]), np.array([0, 0, 1.])
    b = np.cos(spin) * u + np.sin(spin) * v
    G = C @ np.array([ms, b, np.cross(ms, b)])
    m, g = one_grain(kind, S.mat_to_quat(G))
    # one representative of the equivalents
    R = S.rot_quat(g.ref_ori.quat_coef)
    close(R.T @ R, np.eye(3), 1e-9, 'harness')
    g.calc_rdr()
    g.calc_slip_traces()
    nt = False
    for ratios, t, group in zip(g.rdr, g.slip_traces, g.phase.slip_systems):
        ns = R.T @ S.uvec(group[0].slip_plane)
        if abs(ns[2]) > 1e-6:
            continue
        for r, s in zip(ratios, group):
            bs = R.T @ S.uvec(s.slip_dir)
            if abs(bs[1]) < 1e-3 or np.hypot(bs[0], bs[1]) < 1e-2:
                continue
            # trace direction (sin t, cos t), displacement (r, 1)
            close((np.sin(t) - r * np.cos(t)) / np.hypot(r, 1), 0., 1e-3, f'trace and displacement ratio of {s}')
            nt = nt or abs(np.sin(2 * t)) > 0.1
    return nt


# ---------------------------------------------------------------- measured ratios
CACHE = {}


def fitted(key, case):
    """Map of the case (made once), with grains and an open inspector."""
    if key not in CACHE:
        L = D.Linked(case)
        m = L.ebsd
        m.data.generate('grain_boundaries', misori_tol=5)
        m.data.generate('grains', min_grain_size=1)
        m.calc_average_grain_schmid_factors(load_vector=np.array([1., 0, 0]))
        L.dic.data.generate('grains', algorithm='warp', min_grain_size=1)
        L.dic.set_scale(0.1)
        CACHE[key] = L, GrainInspector(L.dic, 0.5)
    return CACHE[key]


def case_of(k):
    """A handful of maps: one to three grains, cropped or not."""
    lay = ['single', 'cols', 'rows', 'voronoi'][k % 4]
    n = {'single': 1, 'cols': 2, 'rows': 3, 'voronoi': 3}[lay]
    return dict(spec=dict(shape=(12, 14), layout=lay, n=n, seed=3 + k, phases=[['HEX', 'FCC', 'BCC'][k % 3]],
                          oris=[(0.1, 0.2, 0.3), (1., 1., 1.), (2., .5, 1.)][:n], pid=[1] * n, spread=0., step=1.,
                          specks=0.),
                tf=dict(A=[[3, 0], [0, 3]], t=(0, 0)), shape=(36, 42), crop=(0, 0, 0, 0) if k < 4 else (3, 1, 2, 4),
                npts=5, seed=k, type='affine')


def offsets(angle, length):
    """Steps across a line at this angle (from vertical): along x, y or a diagonal."""
    dx, dy = [(1, 0), (1, -1), (0, 1), (1, 1), (1, 0)][int(np.floor(angle / 45 + .5))]
    k = (length - 1) // 2
    return [(i * dx, i * dy) for i in range(-k, k + 1)]


def slope_of(disp, origin, lines, angle, length, samples=None):
    """Least squares slope of u against v, both relative to the mean across the line."""
    U, V = [], []
    _, h, w = disp.shape
    for x0, y0, x1, y1 in lines:
        px, py = pixels(int(x0), int(y0), int(x1), int(y1))
        for x, y in zip(px, py):
            at = [(x + origin[0] + i, y + origin[1] + j) for i, j in offsets(angle, length)]
            if not all(0 <= i < w and 0 <= j < h for i, j in at):
                continue
            u = np.array([disp[0, j, i] for i, j in at])
            v = np.array([disp[1, j, i] for i, j in at])
            U.extend(u - u.mean())
            V.extend(v - v.mean())
            if samples is not None:
                samples += [(i - origin[0], j - origin[1], b, a)
                            for (i, j), a, b in zip(at, u - u.mean(), v - v.mean())]
    U, V = np.array(U), np.array(V)
    if len(V) < 2 or np.ptp(V) < 1e-9:
        return None
    V0, U0 = V - V.mean(), U - U.mean()
    return (U0 * V0).sum() / (V0 * V0).sum()


seg = st.tuples(S.fl(0, 1), S.fl(0, 1), st.one_of(S.fl(3, 14), st.sampled_from([30., 50.])))
measured_cases = st.tuples(
    st.integers(0, 7), st.integers(0, 9), S.fl(0, 179.9), st.lists(seg, min_size=1, max_size=4),
    S.fl(0, 179.9), st.lists(seg, max_size=3), st.sampled_from([3, 3, 5, 7]),
    st.tuples(S.fl(-3, 3), S.fl(-3, 3)), st.sampled_from(['jump', 'jump', 'random']),
    st.integers(0, 2 ** 31 - 1), st.booleans())


def segments(segs, ang, W, H, jitter):
    """End points in grain coordinates, whole pixels, inside the extent of the grain."""
    d = np.array([np.sin(np.deg2rad(ang)), np.cos(np.deg2rad(ang))])
    out = []
    for fx, fy, l in segs:
        c = np.array([fx * (W - 1), fy * (H - 1)])
        p = np.clip(np.round(c - d * l / 2), 0, (W - 1, H - 1))
        q = np.clip(np.round(c + d * l / 2), 0, (W - 1, H - 1))
        out.append([float(v) + jitter for v in (*p, *q)])
    return out


def rdr_figure(gi, grain, got, samples):
    """The figure of a measured ratio is about the grain it was measured in."""
    p = gi.rdr_plot
    e = grain.ebsd_grain
    shown = [np.asarray(l.get_ydata(), float) for l in p.number_line_axis.lines]
    th = sorted({r for x in e.rdr for r in x})
    check(any(len(s) == len(th) and np.allclose(np.sort(s), np.sort(th), equal_nan=True) for s in shown), 'theoretical ratios drawn')
    check(any(len(s) == 1 and abs(s[0] - got) < 1e-9 * (1 + abs(got)) for s in shown), 'measured ratio drawn')
    x0, y0, x1, y1 = grain.extreme_coords
    want = np.full((y1 - y0 + 1, x1 - x0 + 1), np.nan)
    for (x, y), v in zip(grain.data.point, grain.data.max_shear):
        want[y - y0, x - x0] = v
    check(p.grain_axis.images, 'grain drawn')
    close(np.ma.filled(np.ma.asarray(p.grain_axis.images[0].get_array(), float), np.nan), want, 1e-9,
          'effective shear strain of the grain')
    text = ' '.join(t.get_text() for t in p.text_axis.texts)
    nums = [float(v) for v in re.findall(r'-?\d+\.\d+', text)]
    check(nums, 'text beside the grain')
    near = lambda v, tol, msg: check(not np.isfinite(v) or min(abs(n - v) for n in nums) <= tol,
                                     lambda: f'{msg} {v} not in {text!r}')
    near(grain.groups_list[0][1], 0.00501, 'angle of the group')
    for v in np.rad2deg(e.ref_ori.euler_angles()):
        near(v, 0.0501, 'Euler angle')
    for plane, t, sf, r in zip(e.phase.slip_systems, e.slip_traces, e.average_schmid_factors, e.rdr):
        check(plane[0].slip_plane_label in text, lambda: f'{plane[0].slip_plane_label} not in {text!r}')
        near(np.rad2deg(t), 0.0501, 'angle of the trace')
        for s, a, b in zip(plane, sf, r):
            check(s.slip_dir_label in text, lambda: f'{s.slip_dir_label} not in {text!r}')
            near(a, 0.000501, 'Schmid factor')
            near(b, 0.000501, 'theoretical ratio')
            # named beside its ratio on the number line
            name = f'{s.slip_plane_label} {s.slip_dir_label}'
            at = [t.get_position()[1] for t in p.number_line_axis.texts if name in t.get_text()]
            if abs(b - got) < 1.5 - 1e-6:
                check(len(at) == 1 and abs(at[0] - b) < 0.05, lambda: f'{name} ({b}) named at {at}')
            elif abs(b - got) > 1.5 + 1e-6:
                check(not at, lambda: f'{name} ({b}) named at {at}')
    lo, hi = p.number_line_axis.get_ylim()
    close([lo, hi], [got - 1.5, got + 1.5], 1e-9 * (1 + abs(got)), 'limits of the number line')
    # where the displacement was sampled, the values and the line fitted to them
    points = [l.get_xydata() for l in p.grain_axis.lines]
    check(points, 'points in the grain')
    seen = {tuple(x) for l in points for x in np.round(l).astype(int).tolist()}
    check(seen == {(int(x), int(y)) for x, y, _, _ in samples}, 'points drawn in the grain')
    off = np.concatenate([np.asarray(c.get_offsets(), float) for c in p.plot_axis.collections])
    order = lambda a: a[np.lexsort(np.round(a, 6).T)]
    close(order(off), order(samples[:, 2:]), 1e-5, 'displacements drawn')
    fit = p.plot_axis.lines[0].get_xydata()
    mean = samples[:, 2:].mean(axis=0)
    close(fit[:, 1], mean[1] + got * (fit[:, 0] - mean[0]), 1e-6 * (1 + abs(got)), 'line drawn through the points')
    close([fit[:, 0].min(), fit[:, 0].max()], [samples[:, 2].min(), samples[:, 2].max()], 1e-6, 'extent of the line')


@sub(measured_cases, 120, 5000)
def measured(case):
    """Ratio from lines drawn on a grain: equal to u/v of the jump across them, or the least squares
    slope of a general field; at least one line crossing the jump."""
    k, gi_, ang, segs, ang2, segs2, length, jump, kind, seed, show = case
    with P.headless(), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        L, gi = fitted(k, case_of(k))
        dic = L.dic
        grain = dic[gi_ % len(dic)]
        # display another grain or this one
        gi.goto_grain(seed % len(dic), gi.plot)
        gi.rdr_line_length = length
        rng = np.random.RandomState(seed)
        x0, y0, x1, y1 = grain.extreme_coords
        for g in dic:
            g.points_list, g.groups_list = [], []
        main = segments(segs, ang, x1 - x0 + 1, y1 - y0 + 1, 0.25 * (seed % 2))
        other = segments(segs2, ang2, x1 - x0 + 1, y1 - y0 + 1, 0.)
        if abs((ang / 45) % 1 - 0.5) < 0.02:
            return False
        h, w = dic.shape
        full = dic.data.displacement
        old = np.array(full)
        new = np.zeros((2, h, w))
        yy, xx = np.mgrid[:h, :w]
        hit = False
        if kind == 'jump':
            # all lines of the group are parallel: field constant between them
            t = np.deg2rad(ang)
            dist = np.zeros((h, w))
            for i, (a, b, c, d) in enumerate(main):
                c0 = np.array([(a + c) / 2 + x0, (b + d) / 2 + y0])
                s = (xx - c0[0]) * np.cos(t) - (yy - c0[1]) * np.sin(t) > 0
                dist = dist + s * (1 + i)
            new += np.array(jump)[:, None, None] * dist + np.array([7., -3.])[:, None, None]
        else:
            new += rng.randn(2, h, w) * np.array([1., 2.])[:, None, None]
        # lines of the groups in any order
        rows = [[p, ang, 0] for p in main] + [[p, ang2, 1] for p in other]
        order = rng.permutation(len(rows))
        grain.points_list = [rows[i] for i in order]
        grain.groups_list = [[0, ang, [], [], 0], [1, ang2, [], [], 0]][:1 + bool(other)]
        samples = []
        want = slope_of(new, (x0, y0), main, ang, length, samples)
        le, _, t_, _ = case_of(k)['crop']
        put(dic, new, le, t_)
        try:
            same(np.asarray(dic.data.displacement), new, 'harness: displacement in place')
            if want is None:
                return False
            gi.calc_rdr(grain, 0, show_plot=show)
            got = grain.groups_list[0][4]
            if kind == 'jump' and abs(jump[1]) > 1e-3:
                close(got, jump[0] / jump[1], 1e-6 * (1 + abs(jump[0] / jump[1])), 'ratio of the jump')
            if kind == 'random' or abs(jump[1]) > 1e-3:
                close(got, want, 1e-6 * (1 + abs(want)), 'least squares slope')
            check(all(g[4] == 0 for g in grain.groups_list[1:]), 'ratio of another group set')
            check(all(not g.groups_list for g in dic if g is not grain), 'ratio of another grain set')
            if show:
                rdr_figure(gi, grain, got, np.array(samples))
            return kind if kind == 'random' or abs(jump[1]) > 1e-3 else False
        finally:
            put(dic, old, le, t_)


def put(dic, disp, le, t):
    """Set the displayed part of the displacement."""
    arr = dic.data['displacement']
    arr[...] = disp


# -------------------------------------------------------------------- slip bands
def banded(h, w, theta, period, phase):
    y, x = np.mgrid[:h, :w]
    t = np.deg2rad(theta)
    return ((x * np.cos(t) - y * np.sin(t)) / period + phase) % 1 < 0.25


bands = st.tuples(st.integers(32, 60), st.integers(32, 60), S.fl(0, 179.99), S.fl(6.5, 12), S.fl(0, 1),
                  st.one_of(st.none(), S.fl(42, 138)), st.sampled_from(['full', 'ellipse']), st.sampled_from([1, -1]))


def apart(a, b):
    return min(abs(a - b) % 180, 180 - abs(a - b) % 180)


@sub(bands, 60, 2500)
def slip_bands(case):
    """One or two families of bands at any angle: detected at their angle (from vertical). Non-trivial:
    two families, or within 10 degrees of the vertical."""
    h, w, th, per, ph, second, outline, sign = case
    img = 0.01 + 0.1 * banded(h, w, th, per, ph)
    want = [th]
    if second is not None:
        want.append((th + second) % 180)
        img += 0.1 * banded(h, w, want[1], per, ph)
    if outline == 'ellipse':
        y, x = np.mgrid[:h, :w]
        img[((x - w / 2) / (w / 2)) ** 2 + ((y - h / 2) / (h / 2)) ** 2 > 1] = np.nan
    keep = img.copy()
    gi_dic = fitted(0, case_of(0))[0].dic if 0 in CACHE else D.quiet(lambda: fitted_quiet())
    got = np.rad2deg(D.quiet(gi_dic[0].calc_slip_bands, sign * img))
    same(img, keep, 'data given')
    for a in got:
        check(0 <= a < 180 and min(apart(a, b) for b in want) < 4, lambda: f'band at {a}, expected {want}')
    for b in want:
        check(any(apart(a, b) < 4 for a in got), lambda: f'no band at {b}: {got}')
    check(len(got) == len(want), lambda: f'bands {got} for {want}')
    return second is not None or apart(th, 0) < 10


def fitted_quiet():
    with P.headless():
        return fitted(0, case_of(0))[0].dic
