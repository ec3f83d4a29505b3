import contextlib
import io
import re
import numpy as np
from hypothesis import strategies as st
from matplotlib.colors import to_rgba
import defdap
from defdap import ebsd
from defdap.quat import Quat
from defdap.plotting import PolePlot
from lib.framework import sub, check, close, same, raises
from lib import strats as S
from lib import maps as M
from lib import plot as P

PROJ = {'stereographic': 0, 'stereo': 0, 'equal angle': 0, 'Stereographic': 0, 'Equal Angle': 0, 'STEREO': 0,
        'lambert': 1, 'equal area': 1, 'Lambert': 1, 'EqualArea': 1}


def radius(kind, alpha):
    return 2 * np.sin(alpha / 2) if kind else np.tan(alpha / 2)


def unproject(kind, x, y):
    """Direction shown at a point of the plot (azimuth zero points down)."""
    r = np.hypot(x, y)
    alpha = 2 * np.arcsin(np.clip(r / 2, 0, 1)) if kind else 2 * np.arctan(r)
    beta = np.arctan2(y, x) + np.pi / 2
    return np.array([np.sin(alpha) * np.cos(beta), np.sin(alpha) * np.sin(beta), np.cos(alpha)])


FUNC = [PolePlot.stereo_project, PolePlot.lambert_project]


@sub(st.tuples(st.integers(0, 1), st.lists(st.tuples(S.angle(0, 3.1), S.angle(-np.pi, np.pi)), min_size=1, max_size=8),
               S.fl(0.01, 100)), 600, 30000)
def projections(case):
    """Polar angles and vectors, one at a time and as arrays. Non-trivial: more than one direction off the pole."""
    kind, angs, scale = case
    a, b = np.array(angs).T
    f = FUNC[kind]
    x, y = f(a.copy(), b.copy())
    # the equal area radius comes from the cosine, so it is only good to 2e-8 near the pole
    close(np.hypot(x, y), radius(kind, a), 5e-8 * (1 + 1 / np.cos(a / 2) ** 2).max(), 'radius')
    dirs = np.array([np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a)])
    close(unproject(kind, x, y), dirs, 1e-7, 'direction recovered from the projection')
    up = a <= np.pi / 2
    check(np.all(np.hypot(x, y)[up] <= (np.sqrt(2) if kind else 1) + 1e-9), 'upper hemisphere inside the rim')
    xv, yv = f(*(dirs * scale))
    tol = 1e-6 * (1 + 1 / np.cos(a / 2) ** 2).max()
    close([xv, yv], [x, y], tol, 'vectors and angles agree')
    for i in range(len(angs)):
        close(f(a[i], b[i]), (x[i], y[i]), 1e-12 * (1 + abs(x[i]) + abs(y[i])), 'one at a time')
        close(f(*(dirs[:, i] * scale)), (x[i], y[i]), tol, 'one vector at a time')
    for bad in ((a,), (a, b, a, b)):
        raises(Exception, lambda: f(*bad), 'number of arguments')
    return (a > 1e-3).sum() > 1


@sub(st.tuples(st.lists(st.tuples(S.angle(0, 1.57), S.angle(-np.pi, np.pi), S.fl(0.02, 0.2), S.angle(0, 2 * np.pi)),
                        min_size=1, max_size=4)), 300, 10000)
def geometry(case):
    """Small triangles: the equal area projection keeps the area, the equal angle projection the shape.
    Non-trivial: a triangle away from the pole."""
    nt = False
    for a, b, s, spin in case[0]:
        s = s * 1e-3
        c = np.array([np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a)])
        u = np.array([np.cos(a) * np.cos(b), np.cos(a) * np.sin(b), -np.sin(a)])
        v = np.cross(c, u)
        e1, e2 = np.cos(spin) * u + np.sin(spin) * v, -np.sin(spin) * u + np.cos(spin) * v
        if a < 1e-2:
            continue

        def at(k, d):
            w = c + d
            return np.array(FUNC[k](*w))
        for k in (0, 1):
            j1 = (at(k, s * e1) - at(k, -s * e1)) / (2 * s)
            j2 = (at(k, s * e2) - at(k, -s * e2)) / (2 * s)
            area = j1[0] * j2[1] - j1[1] * j2[0]
            if k:
                close(area, 1, 1e-3, 'equal area')
            else:
                close(np.hypot(*j1), np.hypot(*j2), 1e-3, 'equal scale in all directions')
                close(j1 @ j2, 0, 1e-3, 'right angles')
                check(area > 0, 'not mirrored')
        nt = nt or a > 0.2
    return nt


@contextlib.contextmanager
def defaults(**kw):
    old = {k: defdap.defaults[k] for k in kw}
    for k, v in kw.items():
        defdap.defaults[k] = v
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        for k, v in old.items():
            defdap.defaults[k] = v


def corners(sym, tri):
    if sym == 'cubic':
        return np.array([[0, 0, 1], [0, 1, 1] / np.sqrt(2), [-1, 1, 1] / np.sqrt(3)])
    a = np.deg2rad([90, 120 if tri == 'up' else 60])
    return np.array([[0, 0, 1]] + [[np.cos(t), np.sin(t), 0] for t in a])


def outline(plot, kind, sym, tri, n0=0):
    """The three edges of the sector, each an arc of a great circle between two corners."""
    c = corners(sym, tri)
    lines = plot.ax.lines[n0:n0 + 3]
    check(len(lines) == 3, 'three edges')
    ends = []
    for ln in lines:
        d = unproject(kind, *np.array(ln.get_data(), float)).T
        i, j = [int(np.argmax(c @ e)) for e in (d[0], d[-1])]
        close(d[0], c[i], 1e-6, 'edge starts at a corner')
        close(d[-1], c[j], 1e-6, 'edge ends at a corner')
        n = S.uvec(np.cross(c[i], c[j]))
        check(np.abs(d @ n).max() < 1e-6, 'edge along a great circle')
        lo = c[i] @ c[j]
        check(np.all(d @ c[i] >= lo - 1e-6) and np.all(d @ c[j] >= lo - 1e-6), 'edge stays between its corners')
        check(np.all(np.arccos(np.clip((d[1:] * d[:-1]).sum(1), -1, 1)) < 0.05), 'edge is drawn smoothly')
        ends.append(frozenset((i, j)))
    check(set(ends) == {frozenset(x) for x in [(0, 1), (0, 2), (1, 2)]}, 'closed outline')
    return c


def inside(c, d, tol):
    """Direction within the spherical triangle."""
    o = np.sign(np.linalg.det(c))
    return all(o * np.dot(np.cross(c[i], c[(i + 1) % 3]), d) >= -tol for i in range(3))


def offsets(layer):
    return np.asarray(layer.get_offsets())


def shown(layer, kind, sym, c, quats, direction, what):
    """Points of the layer, in order, at the sector equivalents of the direction in each crystal."""
    off = offsets(layer)
    check(off.shape == (len(quats), 2), f'{what}: a point for every orientation')
    d = unproject(kind, off[:, 0], off[:, 1]).T
    for v, q in zip(d, quats):
        true = S.rot_quat(q) @ S.uvec(direction)
        orbit = S.SYM[sym] @ true
        orbit = np.concatenate([orbit, -orbit])
        check(np.abs(orbit - v).max(axis=1).min() < 5e-6, f'{what}: {v} is not equivalent to {true}')
        check(inside(c, v, 1e-5), f'{what}: {v} outside the outline')


IPF = st.fixed_dictionaries(dict(
    sym=S.sym_name, tri=st.sampled_from(['up', 'down']), name=st.sampled_from([*PROJ, None, 'func', 'no such name', 3]),
    default=st.sampled_from(['stereographic', 'lambert']), qs=st.lists(S.quat4, min_size=1, max_size=6),
    qs2=st.lists(S.quat4, min_size=1, max_size=3), direction=S.vec3, dir2=S.vec3,
    colour=st.sampled_from([None, None, 'r', ['b'], ['r', 'b'], ('g', 'k')]), size=st.sampled_from([None, 5, 30.]),
    values=st.booleans(), form=st.sampled_from(['list', 'array', 'single'])))


def choose(name, default):
    """How to ask for a projection and which one is expected."""
    d = PROJ[default]
    if name == 'func':
        return FUNC[1 - d], 1 - d
    return name, PROJ.get(name, d)


@sub(IPF, 400, 6000)
def ipf(case):
    """Orientations on an inverse pole figure and a second set added to it. Non-trivial: several orientations."""
    sym, tri = case['sym'], case['tri']
    with defaults(pole_projection=case['default'], ipf_triangle_convention=tri), P.headless():
        name, kind = choose(case['name'], case['default'])
        qs = case['qs'][:1] if case['form'] == 'single' else case['qs']
        quats = [Quat(*q) for q in qs]
        direction = np.array(case['direction'])
        kw = {}
        vals = np.linspace(3, 7, len(qs))
        if case['colour'] is not None:
            kw['marker_colour'] = case['colour']
            if case['size']:
                kw['marker_size'] = case['size']
        elif case['values']:
            kw['c'] = vals.copy()
        if case['form'] == 'single':
            plot = quats[0].plot_ipf(direction, sym, projection=name, **kw)
        else:
            arg = quats
            if case['form'] == 'array':
                arg = np.empty(len(quats), dtype=object)
                arg[:] = quats
            plot = Quat.plot_ipf(arg, direction, sym, projection=name, **kw)
        same(direction, np.array(case['direction']), 'direction changed')
        for q, raw in zip(quats, qs):
            close(abs(np.dot(q.quat_coef, raw)), 1, 1e-12, 'orientation changed')
        c = outline(plot, kind, sym, tri)
        two = case['colour'] is not None and len(case['colour']) == 2
        check(len(plot.img_layers) == (2 if two else 1), 'number of layers')
        for i, layer in enumerate(plot.img_layers):
            shown(layer, kind, sym, c, qs, case['direction'], 'points')
            if case['colour'] is not None:
                close(layer.get_facecolor()[0], to_rgba(case['colour'][i]), 1e-9, 'marker colour')
            elif case['values']:
                same(np.asarray(layer.get_array()), vals, 'values of the points')
        if two:
            a, b = [l.get_paths()[0].vertices[1:] for l in plot.img_layers]
            a, b = [np.array([p for p in v if np.hypot(*p) > 1e-6]) for v in (a, b)]
            check(np.all(a[:, 1] >= -1e-9) and np.all(b[:, 1] <= 1e-9) or
                  np.all(a[:, 1] <= 1e-9) and np.all(b[:, 1] >= -1e-9), 'two halves of the marker')
        texts = len(plot.ax.texts)
        check(texts == 3, 'a label for each corner')
        n = len(plot.img_layers)
        before = [offsets(l).copy() for l in plot.img_layers]
        back = Quat.plot_ipf([Quat(*q) for q in case['qs2']], np.array(case['dir2']), sym, plot=plot)
        check(back is plot, 'added to the plot given')
        check(len(plot.img_layers) == n + 1, 'a layer for the new points')
        for l, o in zip(plot.img_layers, before):
            same(offsets(l), o, 'earlier points')
        check(len(plot.ax.lines) == 3 and len(plot.ax.texts) == 3, 'outline drawn once')
        shown(plot.img_layers[-1], kind, sym, c, case['qs2'], case['dir2'], 'points added')
        keys(case, sym)
    return len(set(case['qs'] + case['qs2'])) > 2


def keys(case, sym):
    """Colour bar and legend tell the values and sizes of the points."""
    n = len(case['qs'])
    quats = [Quat(*q) for q in case['qs']]
    vals = np.linspace(-1., 2.5, n) if n > 1 else np.array([3.])
    vals = vals[::-1]
    sizes = 7. + 13. * np.arange(n)
    plot = Quat.plot_ipf(quats, np.array(case['direction']), sym, c=vals, s=sizes, marker='o',
                         plot_colour_bar=True, clabel='some value')
    bar = plot.colour_bar
    check(bar.mappable is plot.img_layers[0] and bar.ax.get_ylabel() == 'some value', 'colour bar')
    close([bar.vmin, bar.vmax], [vals.min(), vals.max()] if n > 1 else bar.mappable.get_clim(), 1e-9, 'range of the bar')
    same(plot.img_layers[0].get_sizes(), sizes, 'sizes of the points')
    Quat.plot_ipf(quats, np.array(case['dir2']), sym, plot=plot, s=3 * sizes, marker='o')
    for layer in (0, 1):
        plot.add_legend('area', number=4, layer=layer, scaling=2.5)
        check(plot.legend.get_title().get_text() == 'area', 'title of the legend')
        handles = plot.legend.legend_handles if hasattr(plot.legend, 'legend_handles') else plot.legend.legendHandles
        limits = (1 + 2 * layer) * sizes
        for h, t in zip(handles, plot.legend.get_texts()):
            shown_size = float(h.get_markersize()) ** 2
            said = float(re.search(r'[\d.]+', t.get_text().replace('\N{MINUS SIGN}', '-')).group())
            check(abs(said * 2.5 - shown_size) < 0.01 * shown_size + 0.05, lambda: f'legend says {said}, size {shown_size}')
            check(n == 1 or limits.min() - 0.1 <= shown_size <= limits.max() + 0.1, lambda: f'size {shown_size} of {limits}')


def parse(txt):
    """Indices from a label."""
    return [-int(a) if a else int(b) for a, b in re.findall(r'\$\\bar\{(\d)\}\$|(\d)', txt)]


def cart(sym, idc):
    if sym == 'cubic':
        return S.uvec(np.array(idc, float))
    u = np.array(idc, float)
    a = 2 * np.pi / 3 * np.arange(3)
    # x is perpendicular to a2, i.e. a1 lies 30 degrees below x in the convention of the package
    ang = a + PHI0
    return S.uvec([u[:3] @ np.cos(ang), u[:3] @ np.sin(ang), u[3] * 0.8165])


PHI0 = -np.pi / 6


@sub(st.tuples(S.sym_name, st.sampled_from(['up', 'down']), st.sampled_from(['stereo', 'lambert']),
               st.tuples(*[st.integers(-2, 2)] * 3).filter(any), st.tuples(*[st.integers(-2, 2)] * 3).filter(any),
               st.booleans()), 200, 4000)
def annotations(case):
    """Labels and lines added by indices, with and without the symmetric copies. Non-trivial: with them."""
    sym, tri, name, p, p2, syms = case
    if sym == 'cubic':
        ids = [tuple(x if x[2] >= 0 else tuple(-i for i in x)) for x in (p, p2)]
    else:
        ids = [(x[0], x[1], -x[0] - x[1], abs(x[2])) for x in (p, p2)]
    ids = [tuple(map(int, i)) for i in ids]
    if any(not any(i) for i in ids) or any(abs(k) > 9 for i in ids for k in i):
        return None
    kind = PROJ[name]
    with defaults(ipf_triangle_convention=tri), P.headless():
        plot = PolePlot('IPF', sym, projection=name)
        n_text, n_line = len(plot.ax.texts), len(plot.ax.lines)
        plot.label_point(ids[0], plot_syms=syms)
        got = plot.ax.texts[n_text:]
        want = cart(sym, ids[0])
        orbit = np.concatenate([S.SYM[sym] @ want, -(S.SYM[sym] @ want)])
        check(len(got) == (len(S.SYM[sym]) if syms else 1), 'number of labels')
        seen = []
        for i, t in enumerate(got):
            x, y = t.get_position()
            v = unproject(kind, x, y)
            idc = parse(t.get_text())
            check(len(idc) == len(ids[0]), f'label {t.get_text()}')
            c = cart(sym, idc)
            check(min(np.abs(c - v).max(), np.abs(c + v).max()) < 1e-4, f'label {idc} at {v}')
            check(v[2] > -1e-6, 'upper hemisphere')
            check(np.abs(orbit - v).max(axis=1).min() < 1e-4, f'{v} is not equivalent to {ids[0]}')
            if i == 0:
                close(v, want, 1e-4, 'first label at the point itself')
                check(syms or idc == list(ids[0]), f'label {idc} for {ids[0]}')
            seen.append(v)
        if syms:
            for o in orbit:
                check(any(min(np.abs(o - v).max(), np.abs(o + v).max()) < 1e-4 for v in seen), f'{o} not labelled')
        n_text = len(plot.ax.texts)
        plot.label_point(ids[1], label='here', plot_syms=syms, pad_x=0.25, pad_y=-0.5)
        got = plot.ax.texts[n_text:]
        check({t.get_text() for t in got} == {'here'}, 'label given')
        check(len(got) == (len(S.SYM[sym]) if syms else 1), 'number of labels given')
        dirs = [unproject(kind, t.get_position()[0] - 0.25, t.get_position()[1] + 0.5) for t in got]
        close(dirs[0], cart(sym, ids[1]), 1e-4, 'padding of the label')
        if syms:
            for o in S.SYM[sym] @ cart(sym, ids[1]):
                check(any(min(np.abs(o - v).max(), np.abs(o + v).max()) < 1e-4 for v in dirs), f'{o} not labelled')
        a, b = (cart(sym, i) for i in ids)
        if np.linalg.norm(np.cross(a, b)) < 1e-3:
            return syms
        plot.add_line(*ids, plot_syms=syms, res=31, c='r')
        lines = plot.ax.lines[n_line:]
        check(len(lines) == (len(S.SYM[sym]) if syms else 1), 'number of lines')
        for i, ln in enumerate(lines):
            d = np.array(ln.get_data(), float)
            check(d.shape == (2, 31) and ln.get_color() == 'r', 'line points and style')
            d = unproject(kind, *d).T
            if i == 0:
                close(d[0], a, 1e-4, 'line starts at first point')
                close(d[-1], b, 1e-4, 'line ends at second point')
                check(np.abs(d @ S.uvec(np.cross(a, b))).max() < 1e-4, 'line along a great circle')
            else:
                both = [np.abs(np.concatenate([o, -o]) - e).max(axis=1).min()
                        for o, e in ((S.SYM[sym] @ a, d[0]), (S.SYM[sym] @ b, d[-1]))]
                check(max(both) < 1e-4, 'copies between equivalent points')
                check(min(d[0][2], d[-1][2]) > -1e-6, 'copies of lines begin and end in the upper hemisphere')
    return syms


@sub(st.tuples(M.ebsd_specs(), S.vec3, st.sampled_from(['stereo', 'lambert']), st.sampled_from(['up', 'down']),
               st.integers(0, 2**31), st.booleans()), 80, 1500)
def from_maps(case):
    """Reference orientations, spreads and grain values of a map. Non-trivial: more than one grain plotted."""
    spec, direction, name, tri, seed, use_map = case
    kind = PROJ[name]
    m = M.Built(spec).map()
    m.data.generate('grains', min_grain_size=1)
    m.calc_grain_av_oris()
    if not len(m):
        return None
    rng = np.random.default_rng(seed)
    d = np.array(direction)
    with defaults(ipf_triangle_convention=tri), P.headless():
        for i in rng.choice(len(m), min(3, len(m)), replace=False):
            g = m[int(i)]
            sym = g.crystal_sym
            if not hasattr(g, 'ref_ori') or g.ref_ori is None:
                continue
            plot = g.plot_ref_ori(direction=d, projection=name)
            shown(plot.img_layers[0], kind, sym, outline(plot, kind, sym, tri), [g.ref_ori.quat_coef], direction, 'reference')
            plot = g.plot_ori_spread(direction=d, projection=name)
            qs = [m.data.orientation[p[1], p[0]].quat_coef for p in g.data.point]
            shown(plot.img_layers[0], kind, sym, outline(plot, kind, sym, tri), qs, direction, 'spread')
        sym = m.crystal_sym
        ids = [i for i in range(len(m)) if m[i].crystal_sym == sym]
        rng.shuffle(ids)
        if not ids:
            return False
        if len(ids) == len(m) and seed % 2:
            ids = list(range(len(m)))
            arg = {}
        else:
            arg = dict(grain_ids=[int(i) for i in ids])
        if arg and len(ids) > 1 and seed % 3 == 0:
            # one grain by its number
            ids = ids[:1]
            arg = dict(grain_ids=int(ids[0]))
        if use_map:
            data = rng.uniform(0, 10, m.shape)
            want = [data[m[i].data.point[:, 1], m[i].data.point[:, 0]].mean() if isinstance(m[i].data.point, np.ndarray)
                    else np.mean([data[p[1], p[0]] for p in m[i].data.point]) for i in ids]
            keep = data.copy()
            plot = m.plot_grain_data_ipf(d, map_data=data, projection=name, **arg)
            same(data, keep, 'map data changed')
        else:
            want = list(rng.uniform(0, 10, len(ids)))
            plot = m.plot_grain_data_ipf(d, grain_data=list(want), projection=name, **arg)
        shown(plot.img_layers[0], kind, sym, outline(plot, kind, sym, tri), [m[i].ref_ori.quat_coef for i in ids],
              direction, 'grain data')
        close(np.asarray(plot.img_layers[0].get_array(), float), want, 1e-9, 'values of the grains')
        raises(ValueError, lambda: m.plot_grain_data_ipf(d), 'no data')
        raises(Exception, lambda: m.plot_grain_data_ipf(d, grain_data=[1.] * (len(ids) + 1), **arg), 'one value per grain')
    return len(ids) > 1
