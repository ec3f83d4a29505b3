"""Read-only operations: result of each is that on a fresh map, whatever was done before."""
import pathlib
import numpy as np
from hypothesis import strategies as st
import defdap
from defdap.quat import Quat
from lib.framework import sub, check
from lib import maps as M
from lib import dic as D
from lib import plot as P

u16 = st.integers(0, 2 ** 16 - 1)
NAMES = ['orientation', 'grain_boundaries', 'phase_boundaries', 'grains', 'KAM', 'GND', 'Nye_tensor', 'proxigram',
         'GROD', 'GROD_axis']
LOADED = ['euler_angle', 'phase', 'band_contrast']


# ------------------------------------------------------------------ comparable results
def norm(v):
    if v is None or isinstance(v, (str, bool, int)):
        return v
    if isinstance(v, Quat):
        return np.array(v.quat_coef)
    if hasattr(v, 'points') and hasattr(v, 'lines'):
        return [sorted((int(a), int(b)) for a, b in v.points), sorted(map(flat, v.lines))]
    if isinstance(v, np.ma.MaskedArray):
        return [np.array(v.filled(0)), np.array(np.ma.getmaskarray(v))]
    if isinstance(v, np.ndarray) and v.dtype == object:
        return np.array([q.quat_coef for q in v.ravel()])
    if isinstance(v, (float, np.generic)):
        return np.asarray(v)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (set, frozenset)):
        return sorted(norm(x) for x in v)
    if isinstance(v, dict):
        return [[norm(k), norm(v[k])] for k in sorted(v)]
    return [norm(x) for x in v]


def flat(line):
    return tuple(float(c) for p in line for c in p)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == 'f':
            return np.allclose(a, b, 1e-9, 1e-12, equal_nan=True)
        return bool((a == b).all())
    return a == b


def outcome(world, o):
    """Result of an operation; refusals are results as well."""
    try:
        return norm(OPS[o[0]](world, *o[1:]))
    except Refused:
        return 'nothing to read'
    finally:
        P.plt.close('all')


class Refused(Exception):
    pass


def pick(m, k):
    if len(m) == 0:
        raise Refused
    return m[k % len(m)]


def layers(plot):
    images = [im for im in plot.img_layers if hasattr(im, 'get_extent')]
    out = [len(plot.img_layers)] + [np.ma.getdata(im.get_array()) for im in images]
    out += [np.array(im.get_clim(), float) for im in images if im.get_array().ndim == 2]
    for c in plot.ax.collections:
        if hasattr(c, 'get_segments'):
            out += [sorted(flat(s) for s in c.get_segments()), c.get_colors().copy()]
        else:
            out += [np.array(c.get_offsets(), float), np.array(c.get_facecolor(), float)]
    out.append(sorted([a.get_xlabel(), a.get_ylabel(), a.get_title()] for a in plot.fig.axes))
    out.append([float(a.dx) for a in plot.ax.artists if hasattr(a, 'dx')])
    return out + [sorted((t.get_text(), *map(float, t.get_position())) for t in plot.ax.texts)]


DIRS = [np.array(v, float) for v in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 2, 3], [-1, 1, 0.5])]


# ------------------------------------------------------------------ operations of an EBSD map
def op_data(w, k):
    m, name = w.ebsd, NAMES[k % len(NAMES)]
    if name.startswith('GROD') and len(m) == 0:
        raise Refused
    return m.data[name] if k & 64 else getattr(m.data, name)


def op_loaded(w, k):
    return w.ebsd.data[LOADED[k % 3]]


def op_names(w, _):
    m = w.ebsd
    m.grains
    return [sorted(m.data), len(m), m.shape, m.x_dim, m.y_dim, m.scale, m.crystal_sym, m.num_phases,
            m.primary_phase.name]


def op_refs(w, _):
    w.ebsd.calc_grain_av_oris()
    return [g.ref_ori for g in w.ebsd]


def op_misori(w, axis):
    w.ebsd.calc_grain_mis_ori(calc_axis=bool(axis))
    return [[g.ref_ori, g.average_mis_ori, np.array(g.mis_ori_list),
             np.array(g.mis_ori_axis_list) if axis else None] for g in w.ebsd]


def op_schmid(w, k):
    w.load = k % 2
    w.ebsd.calc_average_grain_schmid_factors(DIRS[3 * w.load])
    return [g.average_schmid_factors for g in w.ebsd]


def op_schmid_map(w, k):
    m = w.ebsd
    pick(m, 0)
    if getattr(w, 'load', None) != k % 2:       # factors already there are only read
        op_schmid(w, k)
    kw = [{}, {'planes': [0]}, {'planes': [1, 0], 'directions': [0]}, {'directions': [0]}, {'planes': [1, 0]},
          {'planes': [0, 1]}][k // 2 % 6]
    return [layers(m.plot_average_grain_schmid_factors_map(**kw)), [g.average_schmid_factors for g in m]]


def op_rdr(w, _):
    w.ebsd.calc_rdr()
    return [g.rdr for g in w.ebsd]


def op_traces(w, k):
    g = pick(w.ebsd, k)
    if k & 256:
        return g.slip_traces
    g.calc_slip_traces()
    return [g.slip_trace_angles, g.slip_trace_inclinations]


def op_geometry(w, k):
    g = pick(w.ebsd, k)
    return grain_geometry(g)


def grain_geometry(g):
    return [np.array(g.data.point), np.array(g.extreme_coords), np.array(g.centre_coords('box')),
            np.array(g.centre_coords('com', grain_coords=False)), g.grain_outline(), len(g), g.grain_id]


def op_grain_data(w, k):
    g = pick(w.ebsd, k)
    name = ['euler_angle', 'orientation', 'KAM', 'GROD', 'GROD_axis', 'phase', 'band_contrast'][k % 7]
    return g.data[name]


def op_grain_map(w, k):
    g = pick(w.ebsd, k)
    name = ['KAM', 'band_contrast'][k % 2]
    data = w.ebsd.data[name]
    if k & 16:
        return g.grain_map_data_coarse(map_data=data, kernel_size=1 + k // 32 % 2, bg=0.)
    return [g.grain_data(data), g.grain_map_data(map_data=data, bg=-1.)]


def op_grain_plot(w, k):
    g = pick(w.ebsd, k)
    if k & 16:
        g.calc_average_ori()
        w.ebsd.calc_grain_mis_ori(calc_axis=True)
        return layers(g.plot_mis_ori(component=k // 32 % 4))
    return layers(g.plot_map(['GROD', 'KAM', 'band_contrast', 'GROD_axis', 'Nye_tensor'][k % 5], plot_colour_bar=True))


def op_network(w, _):
    m = w.ebsd
    m.build_neighbour_network()
    return [sorted(tuple(sorted((a.grain_id, b.grain_id))) for a, b in m.neighbour_network.edges()),
            sorted(g.grain_id for g in m.neighbour_network.nodes())]


def op_segments(w, _):
    m = w.ebsd
    m.calc_grain_av_oris()
    m.build_neighbour_network()
    out = []
    for a, b, d in m.neighbour_network.edges(data=True):
        s = d['boundary']
        out.append(((*sorted((a.grain_id, b.grain_id)), s.grain1.grain_id), sorted(s.boundary_points_x),
                    sorted(s.boundary_points_y), s.boundary_point_pairs_x, s.boundary_point_pairs_y,
                    sorted(map(flat, s.boundary_lines))))
    return sorted(out)


def op_average(w, k):
    m = w.ebsd
    pick(m, 0)
    data = m.data[['KAM', 'band_contrast', 'GND'][k % 3]]
    av = m.calc_grain_average(data)
    return [av, m.grain_data_to_map_data(np.asarray(av, float), bg=-2.)]


def op_colours(w, k):
    m = w.ebsd
    if k % 3 == 0:
        return m.calc_euler_colour(m.data.euler_angle)
    return m.calc_ipf_colour(m.data.orientation, DIRS[k % len(DIRS)])


def op_plot(w, k):
    m = w.ebsd
    kw = [{}, dict(plot_gbs=True), dict(plot_gbs='line'), dict(plot_colour_bar=True)][k // 64 % 4]
    kind = k % 10
    if kind == 0:
        return layers(m.plot_euler_map(**kw))
    if kind == 1:
        return layers(m.plot_ipf_map(DIRS[k // 16 % len(DIRS)], **kw))
    if kind == 2:
        return layers(m.plot_phase_map())
    if kind == 3:
        return layers(m.plot_boundary_map())
    if kind == 4:
        return layers(m.plot_phase_boundary_map())
    if kind == 5:
        return layers(m.plot_grain_map(**kw))
    if kind == 6:
        pick(m, 0)
        if k & 16:
            m.calc_grain_mis_ori(calc_axis=True)
        return layers(m.plot_mis_ori_map(component=k // 16 % 4, **kw))
    if kind == 7:
        pick(m, 0)
        return layers(m.plot_grain_data_map(map_data=m.data.KAM, **kw))
    if kind == 8:
        pick(m, 0)
        return layers(m.plot_grain_numbers())
    return layers(m.plot_map(['KAM', 'GND', 'band_contrast', 'Nye_tensor', 'orientation'][k // 16 % 5], **kw))


def op_mis_ori_map(w, k):
    pick(w.ebsd, 0)
    w.ebsd.calc_grain_mis_ori(calc_axis=True)
    return layers(w.ebsd.plot_mis_ori_map(component=k % 4))


def op_labelled(w, k):
    return layers(w.ebsd.plot_map(['KAM', 'GND', 'Nye_tensor'][k % 3],
                                  component=[None, (1, 2), 'norm'][k // 4 % 3] if k % 3 == 2 else None))


def op_save(w, k):
    p = pathlib.Path(M.scratch('.ctf'))
    try:
        w.ebsd.save(p.stem, file_dir=str(p.parent))
        return p.read_text()
    finally:
        p.unlink(missing_ok=True)


def op_click(w, k):
    m = w.ebsd
    pick(m, 0)
    plot = m.locate_grain()
    h, wd = m.shape
    P.mouse(plot, plot.ax, k % wd, k // 16 % h)
    return [m.currGrainId if hasattr(m, 'currGrainId') else None, len(plot.img_layers)] + layers(plot)[:1]


# ------------------------------------------------------------------ operations of a DIC map
def op_dic_data(w, k):
    m = w.dic
    return m.data[['f', 'e', 'max_shear', 'displacement', 'coordinate', 'grains', 'grain_boundaries',
                   'phase_boundaries', 'mask', 'proxigram'][k % 10]]


def op_dic_grains(w, k):
    g = pick(w.dic, k)
    return [grain_geometry(g), None if g.ebsd_grain is None else g.ebsd_grain.grain_id,
            g.data[['max_shear', 'e', 'f'][k % 3]]]


def op_dic_all(w, k):
    m = w.dic
    return [[None if g.ebsd_grain is None else g.ebsd_grain.grain_id for g in m], sorted(m.data), m.shape, m.scale,
            m.x_dim, m.y_dim, m.crop_dists]


def op_dic_warp(w, k):
    d = w.ebsd.data[['KAM', 'band_contrast', 'grains'][k % 3]].astype(float)
    return w.dic.warp_to_dic_frame(d, order=0, preserve_range=True)


def op_dic_average(w, k):
    m = w.dic
    pick(m, 0)
    av = m.calc_grain_average(m.data.max_shear)
    return [av, m.grain_data_to_map_data(np.asarray(av, float), bg=-2.)]


def op_dic_bands(w, k):
    g = pick(w.dic, k)
    return g.calc_slip_bands(g.grain_map_data(w.dic.data.max_shear, bg=0.))


def op_dic_traces(w, k):
    g = pick(w.dic, k)
    if g.ebsd_grain is None:
        raise Refused
    g.ebsd_grain.calc_average_ori()
    if k & 256:
        g.calc_slip_traces()
    return [g.slip_traces, g.ref_ori, g.phase.name]


def op_dic_plot(w, k):
    m = w.dic
    kw = [{}, dict(plot_gbs=True), dict(plot_gbs='line'), dict(plot_colour_bar=True)][k // 64 % 4]
    kind = k % 6
    if kind == 0:
        return layers(m.plot_map('max_shear', **kw))
    if kind == 1:
        return layers(m.plot_map(['e', 'f'][k // 16 % 2], (k // 32 % 2, k // 256 % 2), **kw))
    if kind == 2:
        pick(m, 0)
        return layers(m.plot_grain_av_max_shear(**kw))
    if kind == 3:
        pick(m, 0)
        return layers(m.plot_grain_numbers())
    if kind == 4:
        return layers(pick(m, k // 16).plot_map(['max_shear', 'e'][k // 8 % 2], plot_colour_bar=True))
    return layers(m.plot_map(['displacement', 'grains'][k // 16 % 2], **({'component': 'norm'} if k // 16 % 2 == 0 else {})))


def op_dic_stats(w, k):
    import contextlib
    import io
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        w.dic.print_stats_table([0, 50, 100], ['max_shear', 'e', 'f'])
    return out.getvalue().split('\n')[2:]


OPS = {k[3:]: v for k, v in globals().items() if k.startswith('op_')}
E_OPS = [k for k in OPS if not k.startswith('dic')] + ['data'] * 3
D_OPS = [k for k in OPS if k.startswith('dic')]


# ------------------------------------------------------------------ worlds
class World:
    def __init__(self, case):
        if 'spec' in case and 'tf' in case:
            pair = D.Linked(case)
            self.ebsd, self.dic = pair.ebsd, pair.dic
            if case.get('mask') is not None:
                h, w = self.dic.shape
                D.quiet(self.dic.calc_mask, np.random.RandomState(case['mask']).rand(h, w) < 0.2)
            self.dic.set_scale(0.5)
        else:
            self.ebsd, self.dic = M.Built(case['spec']).map(), None
        if case['small']:
            D.quiet(self.ebsd.data.generate, 'grains', min_grain_size=case['small'])

    def given(self):
        """All that was given to the maps."""
        e = self.ebsd
        out = [e.data[n].copy() for n in LOADED] + [e.shape, e.step_size, list(e.frame.homog_points)]
        out += [[p.name, p.laue_group, list(p.lattice_params), p.crystal_structure.name] for p in e.phases]
        if self.dic is not None:
            d = self.dic
            out += [np.array(d.data[n]) for n in ('displacement', 'coordinate')] + [d.shape, d.crop_dists.copy(),
                    list(d.frame.homog_points), d.binning]
        out.append(sorted((k, repr(v)) for k, v in defdap.defaults.items()))
        return norm(out)


def play(case):
    with P.headless():
        return D.quiet(run, case)


def run(case):
    ops = case['ops']
    want = {o: outcome(World(case), o) for o in dict.fromkeys(ops)}
    world = World(case)
    given = world.given()
    held = []
    for i, o in enumerate(ops):
        got = outcome(world, o)
        check(equal(got, want[o]), lambda: f'operation {i} {o} after {ops[:i]}: {got} instead of {want[o]}')
        check(equal(world.given(), given), lambda: f'loaded data changed by {o}')
        if o[0] == 'data':
            if not isinstance(got, str):
                held.append((o, OPS['data'](world, *o[1:]), got))
    for h in held:
        check(equal(norm(h[1]), h[2]), lambda: f'data obtained by {h[0]} was changed later by one of {ops}')
    return len(want) > 1


def cases(base, names):
    op = st.tuples(st.sampled_from(names), u16)
    # few operations many times, in any order
    seq = st.tuples(st.lists(op, min_size=2, max_size=5, unique=True), st.lists(st.integers(0, 4), max_size=8)).map(
        lambda t: t[0] + [t[0][i % len(t[0])] for i in t[1]])
    # one operation with different parameters, and another
    own = st.tuples(st.sampled_from(names), st.lists(u16, min_size=2, max_size=6, unique=True), op).map(
        lambda t: [(t[0], k) for k in t[1]] + [t[2], (t[0], t[1][0])])
    return st.tuples(base, st.one_of(seq, own, st.lists(op, min_size=2, max_size=12)), st.sampled_from([None, 1, 1, 3]),
                     st.one_of(st.none(), st.integers(0, 99))).map(
        lambda t: dict(t[0] if 'tf' in t[0] else {'spec': t[0]}, ops=t[1], small=t[2], mask=t[3]))


@sub(cases(M.ebsd_specs(hmin=3, hmax=10, wmin=3, wmax=10), E_OPS), 120, 4000)
def ebsd(case):
    """Operations on an EBSD map, at least two different ones."""
    return play(case)


@sub(cases(D.pairs(dmin=6, dmax=20), D_OPS + D_OPS + E_OPS), 150, 4000)
def linked(case):
    """Operations on a DIC map and the EBSD map linked to it, at least two different ones."""
    return play(case)


THEMES = [('schmid', 'schmid_map', 'traces'), ('misori', 'mis_ori_map', 'mis_ori_map', 'grain_plot', 'refs'),
          ('plot', 'labelled'), ('grain_data', 'grain_map', 'geometry', 'grain_plot'), ('data', 'loaded', 'colours'),
          ('network', 'segments', 'refs', 'rdr')]


@sub(st.tuples(M.ebsd_specs(hmin=3, hmax=7, wmin=3, wmax=7), st.sampled_from(THEMES).flatmap(
        lambda names: st.lists(st.tuples(st.sampled_from(names), u16), min_size=4, max_size=10)),
        st.sampled_from([1, 2, 2, 3])).map(lambda t: dict(spec=t[0], ops=t[1], small=t[2], mask=None)), 350, 8000)
def themes(case):
    """Several operations on the same kind of result, at least two different ones."""
    return play(case)
