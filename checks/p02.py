import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from matplotlib.colors import to_rgb, to_rgba
from matplotlib.quiver import Quiver
from matplotlib_scalebar.scalebar import ScaleBar
from scipy import ndimage
from defdap.quat import Quat
from defdap.plotting import MapPlot, GrainPlot, HistPlot
from lib.framework import sub, check, close, same, raises
from lib import strats as S
from lib import maps as M
from lib import dic as D
from lib import plot as P


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def image(plot, layer=0):
    return np.asarray(plot.img_layers[layer].get_array().data)


def placed(img, shape, what):
    """Pixels centred on integer positions, first row at the top."""
    h, w = shape
    close(img.get_extent(), (-0.5, w - 0.5, h - 0.5, -0.5), 1e-9, f'{what}: position of the image')
    check(img.get_array().shape[:2] == (h, w), f'{what}: size of the image')


def rgba(img):
    return np.asarray(img.to_rgba(img.get_array()), float)


def snapshot(m, names):
    return {n: np.array(m.data[n], copy=True) for n in names}


def unchanged(m, before):
    for n, v in before.items():
        now = np.asarray(m.data[n])
        check(now.shape == v.shape and now.dtype == v.dtype and (
            np.array_equal(now, v, equal_nan=True) if v.dtype.kind == 'f' else (now == v).all()), f'{n} was changed')


def colour_of_phase(m, b, kind, direction=None, phases=None, bg=(0., 0., 0.)):
    """RGB of every pixel; pixels of phases not shown are the background."""
    out = np.tile(np.asarray(bg, float), b.shape + (1,))
    for i, ph in enumerate(m.phases):
        if phases is not None and i not in phases:
            continue
        sel = b.phase == i + 1
        if not sel.any():
            continue
        sym = ph.crystal_structure.name
        if kind == 'euler':
            norm = [2 * np.pi, np.pi / 2, np.pi / 2] if sym == 'cubic' else [np.pi, np.pi, np.pi / 3]
            out[sel] = b.euler[:, sel].T / norm
        else:
            out[sel] = Quat.calc_ipf_colours(m.data.orientation[sel], np.asarray(direction), sym).T
    return out.clip(0, 1)


BG = st.sampled_from([None, (1., 1., 1.), (0.2, 0.4, 0.6)])
AXES = {'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1]}


@sub(st.tuples(M.ebsd_specs(hmin=2, wmin=2, hmax=9, wmax=9), st.integers(0, 2**31), S.vec3, BG), 50, 2000)
def ebsd_maps(case):
    """Every kind of plot of an EBSD map shows the data as stored. Non-trivial: more than one grain and not square."""
    spec, seed, direction, bg = case
    b = M.Built(spec)
    m = b.map()
    rng = np.random.default_rng(seed)
    m.data.generate('grains', min_grain_size=1)
    if len(m):
        m.calc_grain_av_oris()
    names = ['phase', 'euler_angle', 'band_contrast', 'grains', 'KAM']
    with P.headless():
        before = snapshot(m, names)
        jobs = [('band_contrast', None, b.bc), ('phase', None, b.phase), ('grains', None, before['grains']),
                ('KAM', None, before['KAM']),
                ('euler_angle', 'all_euler', colour_of_phase(m, b, 'euler')),
                ('euler_angle', None, colour_of_phase(m, b, 'euler')),
                ('euler_angle', 'norm', np.sqrt((b.euler ** 2).sum(axis=0)))]
        jobs += [('euler_angle', c, b.euler[i]) for i in range(3) for c in (i, (i,))]
        jobs += [('orientation', c, colour_of_phase(m, b, 'ipf', AXES[a])) for a in 'xyz' for c in (f'IPF_{a}',)]
        jobs += [('orientation', None, colour_of_phase(m, b, 'ipf', AXES['x']))]
        nye = np.array(quiet(lambda: m.data.Nye_tensor))
        i, j = rng.integers(0, 3, 2)
        jobs += [('Nye_tensor', (int(i), int(j)), nye[i, j]), ('Nye_tensor', None, nye[0, 0]),
                 ('Nye_tensor', 'norm', np.sqrt((nye ** 2).sum(axis=(0, 1))))]
        for k in rng.choice(len(jobs), 5, replace=False):
            name, comp, want = jobs[k]
            plot = quiet(m.plot_map, name, comp)
            check(isinstance(plot, MapPlot) and len(plot.img_layers) == 1, 'one layer')
            close(image(plot), want, 1e-6, f'{name} {comp}')
            placed(plot.img_layers[0], b.shape, name)
            if name in ('Nye_tensor', 'KAM'):
                label = plot.colour_bar.ax.get_ylabel()
                text = {'KAM': 'KAM (rad)', (0, 0): 'Nye tensor (11)', None: 'Nye tensor (11)', 'norm': 'Nye tensor (norm)'}
                want = text['KAM'] if name == 'KAM' else text.get(comp) or f'Nye tensor ({i + 1}{j + 1})'
                check(label.startswith(want), f'label {label!r}, expected {want!r}')
        for bad in (('no such map', None), ('point', None), ('euler_angle', (0, 0)), ('euler_angle', 'no such'),
                    ('Nye_tensor', 0), ('Nye_tensor', (1,))):
            raises(ValueError, lambda: quiet(m.plot_map, *bad), f'{bad}')
        shown = [int(i) for i in rng.permutation(len(m.phases))[:rng.integers(1, len(m.phases) + 1)]]
        kw = {} if seed % 2 else dict(phases=list(shown))
        if bg is not None:
            kw['bg_colour'] = np.array(bg)
        okw = dict(phases=kw.get('phases'), bg=bg or (0, 0, 0))
        plot = m.plot_euler_map(**kw)
        close(image(plot), colour_of_phase(m, b, 'euler', **okw), 1e-6, 'Euler colouring')
        d = np.array(direction)
        plot = m.plot_ipf_map(d, **kw)
        close(image(plot), colour_of_phase(m, b, 'ipf', direction, **okw), 1e-6, 'IPF colouring')
        same(d, np.array(direction), 'direction changed')
        check(kw.get('phases') in (None, shown), 'list of phases changed')
        plot = m.plot_phase_map()
        same(image(plot), b.phase, 'phase map')
        leg = plot.ax.get_legend()
        texts = [t.get_text() for t in leg.get_texts()]
        check(texts == ['Non-indexed'] + [p.name for p in m.phases], f'legend {texts}')
        pix = rgba(plot.img_layers[0])
        for v, patch in enumerate(leg.get_patches()):
            sel = b.phase == v
            if sel.any():
                close(pix[sel], np.tile(patch.get_facecolor(), (sel.sum(), 1)), 1e-6, 'legend colour')
        check(len({tuple(np.round(p.get_facecolor(), 6)) for p in leg.get_patches()}) == len(texts), 'distinct colours')
        same(image(m.plot_grain_map()), before['grains'], 'grain map')
        check(m.plot_default == m.plot_euler_map, 'default plot')
        pb = m.data.phase_boundaries.image
        for dil in (False, True):
            want = ndimage.binary_dilation(pb) if dil else pb
            same(image(m.plot_phase_boundary_map(dilate=dil)).astype(bool), want, f'phase boundaries, dilated {dil}')
        gb = m.data.grain_boundaries.image
        plot = m.plot_boundary_map()
        overlay(plot.img_layers[-1], gb, 'black', 1.)
        bar = quiet(m.plot_map, 'phase', plot_scale_bar=True)
        bars = [c for c in bar.ax.get_children() if isinstance(c, ScaleBar)]
        check(len(bars) == 1, 'scale bar')
        close(bars[0].dx, spec['step'] * 1e-6, 1e-15, 'length of a pixel')
        unchanged(m, before)
    return len(m) > 1 and b.shape[0] != b.shape[1]


def overlay(img, mask, colour, alpha):
    """Pixels of the mask in the given colour, nothing elsewhere."""
    placed(img, mask.shape, 'overlay')
    pix = rgba(img)
    check((pix[~mask, 3] == 0).all(), 'transparent away from the overlay')
    if mask.any():
        close(pix[mask, :3], np.tile(to_rgb(colour), (mask.sum(), 1)), 0.01, 'colour of the overlay')
        close(pix[mask, 3], np.full(mask.sum(), alpha), 0.02, 'opacity of the overlay')


COLOURS = st.lists(st.sampled_from(['red', 'g', 'yellow', '#123456']), min_size=1, max_size=4)
HI = st.tuples(st.lists(st.integers(0, 30), min_size=1, max_size=6), st.one_of(st.none(), COLOURS),
               st.sampled_from([None, 0.3, 1.]), st.booleans())


@sub(st.tuples(M.ebsd_specs(hmin=2, wmin=2, hmax=10, wmax=10, nmin=2), st.integers(1, 3), st.lists(HI, min_size=1, max_size=4),
               st.sampled_from(['white', 'red', None, (0., 0., 1., 1.)]), st.booleans(),
               st.sampled_from([None, 0.5])), 200, 4000)
def overlays(case):
    """Boundaries, highlighted grains and grain numbers on top of a map. Non-trivial: several grains highlighted."""
    spec, size, his, bcol, dilate, alpha0 = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=size)
    lab = np.array(m.data.grains)
    gb = m.data.grain_boundaries.image.copy()
    many = False
    with P.headless():
        kw = dict(plot_gbs=True, dilate_boundaries=dilate)
        if bcol is not None:
            kw['boundary_colour'] = bcol
        plot = quiet(m.plot_map, 'band_contrast', **kw)
        check(len(plot.img_layers) == 2, 'map and boundaries')
        same(image(plot), b.bc, 'map under the boundaries')
        want = ndimage.binary_dilation(gb) if dilate else gb
        overlay(plot.img_layers[1], want, bcol or 'white', 1.)
        # lines on the edges between pixels of different boundary sides
        bs = m.data.grain_boundaries
        edges = {((x + .5, y - .5), (x + .5, y + .5)) for x, y in bs.points_x} | \
            {((x - .5, y + .5), (x + .5, y + .5)) for x, y in bs.points_y}
        n = len(edges)
        p2 = quiet(m.plot_map, 'band_contrast', plot_gbs='line', **({} if bcol is None else dict(boundary_colour=bcol)))
        lc = p2.img_layers[1]
        segs = lc.get_segments()
        check(len(segs) == n and {frozenset(map(tuple, s)) for s in segs} == {frozenset(e) for e in edges}, 'boundary lines')
        if n:
            lc.update_scalarmappable()
            if isinstance(bcol, tuple) and n == 4:
                pass                    # could be a value for every line
            else:
                close(lc.get_colors(), np.tile(to_rgba(bcol or 'white'), (len(lc.get_colors()), 1)), 1e-9, 'colour of the lines')
            vals = np.arange(n) * 1.5
            lc = p2.add_grain_boundaries(kind='line', colour=list(vals))
            same(np.asarray(lc.get_array()), vals, 'values of the lines')
            seg = [s for s in lc.get_segments()]
            same(np.array(seg), np.array(segs), 'order of the lines')
        if n != 6:
            raises(ValueError, lambda: p2.add_grain_boundaries(kind='line', colour=[1.] * 5 if n != 5 else [1.] * 6),
                   'a colour for every line')
        first = None
        if len(m):
            base = len(plot.img_layers)
            for ids, cols, alpha, new in his:
                ids = list(dict.fromkeys(i % len(m) for i in ids))
                give, gcols = list(ids), None if cols is None else list(cols)
                img = plot.add_grain_highlights(give, grain_colours=gcols, alpha=alpha, new_layer=new)
                check(give == ids and gcols == cols, 'arguments changed')
                if first is None:
                    first, base = base, base + 1
                elif new:
                    base += 1
                check(len(plot.img_layers) == base, 'number of layers')
                check(img is plot.img_layers[base - 1 if new else first], 'layer of the highlights')
                placed(img, b.shape, 'highlights')
                pix = rgba(img)
                cs = cols or ['white']
                a = 1. if alpha is None else alpha
                sel = np.zeros(b.shape, bool)
                for k, i in enumerate(ids):
                    g = lab == i + 1
                    sel |= g
                    close(pix[g], np.tile((*to_rgb(cs[min(k, len(cs) - 1)]), a), (g.sum(), 1)), 1e-6, f'highlight of grain {i}')
                check((pix[~sel, 3] == 0).all(), 'only the grains chosen are highlighted')
                many = many or len(ids) > 1
            # asked for when plotting
            ids, cols, alpha, _ = his[0]
            ids = list(dict.fromkeys(i % len(m) for i in ids))
            p3 = quiet(m.plot_map, 'phase', highlight_grains=ids, highlight_colours=cols, highlight_alpha=alpha)
            pix = rgba(p3.img_layers[1])
            sel = np.isin(lab, np.array(ids) + 1)
            check((pix[~sel, 3] == 0).all() and np.allclose(pix[sel, 3], 1. if alpha is None else alpha), 'highlights asked for')
            p4 = m.plot_grain_numbers(dilate_boundaries=dilate)
            overlay(p4.img_layers[0], want, 'black', 1.)
            check(len(p4.ax.texts) == len(m), 'a number for every grain')
            for i, t in enumerate(p4.ax.texts):
                check(t.get_text() == str(i), 'number of the grain')
                ys, xs = np.nonzero(lab == i + 1)
                x, y = t.get_position()
                check(abs(x - xs.mean()) <= 0.5 + 1e-9 and abs(y - ys.mean()) <= 0.5 + 1e-9, f'number {i} at {(x, y)}')
        same(np.asarray(m.data.grains), lab, 'grains changed')
        same(m.data.grain_boundaries.image, gb, 'boundaries changed')
    return many


PT = st.tuples(S.fl(-1, 12), S.fl(-1, 12))


@sub(st.tuples(st.integers(2, 8), st.integers(2, 8), st.integers(0, 2**31),
               st.lists(st.tuples(st.one_of(st.none(), st.integers(0, 3)), st.lists(PT, min_size=1, max_size=4)), max_size=6),
               st.sampled_from([(None, None), (0., 1.), (-2., None), (None, 0.5)]),
               st.sampled_from(['viridis', 'gray', 'magma'])), 150, 4000)
def layers(case):
    """Points added in layers and updated, on a map with a colour scale. Non-trivial: a layer was updated."""
    h, w, seed, ops, (lo, hi), cmap = case
    m = M.dic_map(M.smooth_disp(seed, h, w, 1.), 2)
    rng = np.random.default_rng(seed)
    data = rng.normal(size=(h, w))
    if seed % 3 == 0 and h * w > 1:
        data[rng.random((h, w)) < 0.2] = np.nan
    keep = data.copy()
    upd = False
    with P.headless():
        plot = MapPlot.create(m, data, vmin=lo, vmax=hi, cmap=cmap, plot_colour_bar=True, clabel='amount',
                              plot_scale_bar=True, scale=0.25)
        img = plot.img_layers[0]
        same(image(plot), keep, 'data shown')
        placed(img, (h, w), 'map')
        fin = keep[np.isfinite(keep)]
        if len(fin):
            a, b = img.get_clim()
            close([a, b], [fin.min() if lo is None else lo, fin.max() if hi is None else hi], 1e-12, 'colour scale')
        check(img.get_cmap().name == cmap, 'colour map')
        check(plot.colour_bar.ax.get_ylabel() == 'amount' and plot.colour_bar.mappable is img, 'colour bar')
        bar = [c for c in plot.ax.get_children() if isinstance(c, ScaleBar)]
        check(len(bar) == 1, 'scale bar')
        close(bar[0].dx, 0.25e-6, 1e-15, 'length of a pixel')
        model = []
        for layer, pts in ops:
            x, y = [float(p[0]) for p in pts], [float(p[1]) for p in pts]
            gx, gy = list(x), list(y)
            if layer is None or not model:
                plot.add_points(gx, gy, c='r')
                model.append(pts)
            else:
                k = layer % len(model)
                plot.add_points(gx, gy, update_layer=k)
                model[k] = pts
                upd = True
            check(gx == x and gy == y, 'coordinates changed')
            check(len(plot.points_layer_ids) == len(model) and len(plot.img_layers) == 1 + len(model), 'number of layers')
            for k, want in enumerate(model):
                close(np.asarray(plot.img_layers[plot.points_layer_ids[k]].get_offsets(), float), want, 1e-12, f'points of layer {k}')
        same(data, keep, 'data changed')
        second = rng.normal(size=(h, w))
        back = MapPlot.create(m, second, plot=plot)
        check(back is plot, 'added to the plot given')
        same(image(plot, -1), second, 'second map')
        same(image(plot, 0), keep, 'first map')
    return upd

POINT4 = st.tuples(*[st.integers(0, 30).map(lambda k: k / 4)] * 4)


def arrows_of(ax):
    return [t for t in ax.texts if getattr(t, 'arrow_patch', None) is not None]


@sub(st.tuples(st.integers(2, 8), st.integers(2, 8), st.integers(0, 2**31),
               st.lists(st.tuples(POINT4, st.sampled_from(['new', 'keep', 'persistent', 'none']), st.booleans()), min_size=1, max_size=6),
               st.lists(st.integers(0, 5), min_size=1, max_size=4), st.booleans(), st.booleans()), 150, 4000)
def annotated(case):
    """Arrows, colour bars and legends of chosen layers, boundaries given, points without a map, a plot
    cleared and used again. Non-trivial: several arrows."""
    h, w, seed, ops, values, cleared, with_map = case
    m = M.dic_map(M.smooth_disp(seed, h, w, 1.), 2)
    rng = np.random.default_rng(seed)
    first, second = rng.normal(size=(2, h, w))
    with P.headless():
        plot = MapPlot.create(m, first, make_interactive=True, plot_colour_bar=cleared, clabel='first')
        for _ in range(2 if cleared else 0):
            plot.clear()
            check(len(plot.img_layers) == len(plot.ax.images) == 0 and plot.highlights_layer_id is None
                  and plot.points_layer_ids == [], 'nothing left after clearing')
            check(len(plot.fig.axes) == 1 and plot.colour_bar is None, 'colour bar left after clearing')
        if cleared:
            if with_map:
                plot.add_map(first)
            # points are the first layer if there is no map
            pts = rng.uniform(0, 2, (2, 3))
            plot.add_points(*pts)
            pts = rng.uniform(0, 2, (2, 4))
            got = plot.add_points(list(pts[0]), list(pts[1]), update_layer=0)
            check(got is plot.img_layers[-1], 'layer of the points')
            close(np.asarray(got.get_offsets(), float), pts.T, 1e-12, 'points')
        k = len(plot.img_layers)
        plot.add_map(second, vmin=0, vmax=2, cmap='magma')
        same(image(plot, k), second, 'map of the layer')
        close(plot.img_layers[k].get_clim(), (0, 2), 0, 'colour scale from zero')
        plot.add_colour_bar('second', layer=k)
        check(plot.colour_bar.mappable is plot.img_layers[k] and plot.colour_bar.ax.get_ylabel() == 'second', 'layer of the colour bar')
        plot.add_legend(list(values), [f'v{v}' for v in values], layer=k)
        leg = plot.ax.get_legend()
        check([t.get_text() for t in leg.get_texts()] == [f'v{v}' for v in values], 'labels of the legend')
        for v, patch in zip(values, leg.get_patches()):
            close(patch.get_facecolor(), plot.img_layers[k].to_rgba(np.array([v]))[0], 1e-9, f'colour of {v}')
        # arrows: all persistent ones and the transient ones not yet replaced
        fixed, loose, labels, last = [], [], [], None
        for pt, how, named in ops:
            arg = pt if how != 'none' else (None,) * 4
            if how == 'none' and named:
                continue
            plot.add_arrow(arg, persistent=how == 'persistent', clear_previous=how != 'keep', label='here' if named else None)
            if how == 'persistent':
                fixed.append(pt)
            else:
                if how != 'keep' and last is not None:
                    loose.remove(last)
                if how == 'none':
                    last = None
                    plot.arrow = None
                else:
                    last = pt
                    loose.append(pt)
            if named:
                labels.append(pt[2:])
            got = sorted((*a.xy, *a.xyann) for a in arrows_of(plot.ax))
            want = sorted(fixed + loose)
            check(len(got) == len(want), lambda: f'{len(got)} arrows, expected {len(want)}')
            close(got, want, 1e-12, 'arrows')
            got = [t.xy for t in plot.ax.texts if t.get_text() == 'here']
            check(got == labels, lambda: f'labels at {got}, expected {labels}')
        # boundaries given are shown, not those of the map
        from defdap.hrdic import BoundarySet
        on = [(int(x), int(y)) for x, y in zip(rng.integers(w, size=4), rng.integers(h, size=4))]
        lines = [((x - .5, y + .5), (x + .5, y + .5)) for x, y in on]
        bs = BoundarySet(m, on, lines)
        lc = plot.add_grain_boundaries(kind='line', boundaries=bs, colour='red')
        same(np.array(lc.get_segments()), np.array(lines), 'lines given')
        mask = np.zeros((h, w), bool)
        mask[[p[1] for p in on], [p[0] for p in on]] = True
        overlay(plot.add_grain_boundaries(boundaries=bs, colour='blue'), mask, 'blue', 1.)
        same(image(plot, k), second, 'map of the layer')
    return len(ops) > 1


def link(m, seed):
    """Link an EBSD map of the same shape, pixel on pixel."""
    h, w = m.shape
    rng = np.random.default_rng(seed)
    e = M.Built(dict(shape=(h, w), layout='voronoi', n=3, seed=seed % 2**31, phases=['FCC'], pid=[1] * 3, spread=0., step=1., specks=0.,
                     oris=[tuple(rng.uniform(0, 1.5, 3)) for i in range(3)])).map()
    pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
    e.frame.set_homog_points(list(pts))
    m.frame.set_homog_points(list(pts))
    m.link_ebsd_map(e, transform_type='affine')
    return m


# ----------------------------------------------------------------- line profiles
LINE = st.tuples(*[st.integers(0, 999)] * 4)


def position(shape, f):
    h, w = shape
    return (-0.5 + w * (f[0] + 0.5) / 1000, -0.5 + h * (f[1] + 0.5) / 1000)


@sub(st.tuples(st.sampled_from(['dic', 'ebsd']), st.integers(2, 12), st.integers(2, 12), st.integers(0, 2**31),
               st.lists(LINE, min_size=1, max_size=3), st.booleans()), 200, 5000)
def profiles(case):
    """Lines drawn on a displayed map. Non-trivial: a line that is not along a row or column."""
    kind, h, w, seed, lines, outside = case
    if kind == 'dic':
        m = M.dic_map(M.smooth_disp(seed, h, w, 1.), 2)
        want = np.array(link(m, seed).data.max_shear)
    else:
        spec = dict(shape=(h, w), layout='voronoi', n=4, seed=seed, phases=['FCC'], pid=[1] * 4, spread=2., step=1., specks=0.,
                    oris=[tuple(np.random.default_rng(seed + i).uniform(0, 1.5, 3)) for i in range(4)])
        b = M.Built(spec)
        m = b.map()
        want = colour_of_phase(m, b, 'euler')
    nt = False
    with P.headless():
        plot = m.draw_line_profile(fig_params=dict(figsize=(2, 2), dpi=50))
        close(image(plot), want, 1e-6, 'map shown')
        if outside:
            other = plot.add_axes([0, 0, .1, .1])
            P.mouse(plot, plot.ax, 0.5, 1.2, coords='axes')
            check(m.profile_plot is None, 'click outside the map')
        prev = None
        for ln in lines:
            if outside and sum(ln) % 3:
                # no line unless it both begins and ends on the map
                before = None if m.profile_plot is None else [np.array(c.get_data()) for c in m.profile_plot.ax.lines]
                n0 = len(arrows_of(plot.ax))
                on, off = (plot.ax, *position((h, w), ln[:2]), 'data'), (other, .5, .5, 'axes')
                for (ax, x, y, co), name in zip([on, off] if sum(ln) % 3 == 1 else [off, on], ('press', 'release')):
                    P.mouse(plot, ax, x, y, coords=co, name=f'button_{name}_event')
                check(len(arrows_of(plot.ax)) == n0, 'an arrow for a line that is not on the map')
                now = None if m.profile_plot is None else [np.array(c.get_data()) for c in m.profile_plot.ax.lines]
                check((before is None) == (now is None) and all(map(np.array_equal, before or [], now or [])),
                      'a profile of a line that is not on the map')
            r = P.drag(plot, plot.ax, position((h, w), ln[:2]), position((h, w), ln[2:]))
            if r is None:
                continue
            (x0, y0), (x1, y1) = r
            L = np.hypot(x1 - x0, y1 - y0)
            ax = m.profile_plot.ax
            if prev is not None:
                check(m.profile_plot is prev, 'profile plot is used again')
            prev = m.profile_plot
            nl = 1 if kind == 'dic' else 3
            check(len(ax.lines) == nl, 'only the last profile shown')
            arrows = [t for t in plot.ax.texts if getattr(t, 'arrow_patch', None) is not None]
            check(len(arrows) == 1, 'only the last arrow shown')
            close([*arrows[0].xy, *arrows[0].xyann], [x0, y0, x1, y1], 1e-9, 'arrow along the line')
            for c, got in enumerate(ax.lines):
                d, v = map(np.asarray, got.get_data())
                check(len(d) >= L and len(d) >= 1, 'a sample for every pixel')
                if len(d) < 2:
                    continue
                close(d, np.linspace(0, L, len(d)), 1e-9, 'distances')
                t = np.linspace(0, 1, len(d))
                src = want if kind == 'dic' else want[..., c]
                ref = ndimage.map_coordinates(src, [y0 + t * (y1 - y0), x0 + t * (x1 - x0)], order=1, mode='nearest')
                close(v, ref, 1e-6, 'values along the line')
            nt = nt or (abs(x1 - x0) > 1 and abs(y1 - y0) > 1)
        if prev is not None:
            check(prev.ax.get_xlabel() == 'Distance (pixels)', 'label of the distance')
    return nt


# -------------------------------------------------------------------- histograms
@sub(st.fixed_dictionaries(dict(
    vals=st.lists(st.one_of(S.fl(-5, 20), st.integers(-3, 8).map(float), st.sampled_from([np.nan, np.inf, -np.inf]),
                            st.tuples(st.integers(1, 9), st.integers(-12, 9)).map(lambda t: t[0] * 10. ** t[1])),
                  min_size=1, max_size=40),
    mag=st.sampled_from([0, 0, 0, -8, -3, 5]),
    shape=st.sampled_from(['flat', 'map', 'masked']), bins=st.integers(1, 12),
    range=st.sampled_from([None, None, (0.5, 6.), (-1., 3.)]), axes=st.sampled_from(['linear', 'logx', 'logy', 'loglog', 'LogX']),
    kind=st.sampled_from(['scatter', 'bar', 'step']), density=st.booleans(), seed=st.integers(0, 999), twice=st.booleans())),
     600, 15000)
def histograms(case):
    """Counts over equal bins (equal ratios on a logarithmic axis). Non-trivial: several bins hold values."""
    mag = 10. ** case['mag']
    v = np.array(case['vals']) * mag
    bins, rg = case['bins'], case['range']
    rg = rg and tuple(r * mag for r in rg)
    log = case['axes'].lower() in ('logx', 'loglog')
    if case['shape'] != 'flat' and len(v) % 2 == 0:
        v = v.reshape(2, -1)
    use = np.ones(v.shape, bool)
    if case['shape'] == 'masked':
        use = np.random.default_rng(case['seed']).random(v.shape) < 0.8
    data = np.ma.array(v.copy(), mask=~use) if case['shape'] == 'masked' else v.copy()
    ok = v[use]
    ok = ok[np.isfinite(ok)]
    cand = ok[ok > 0] if log else ok
    if log and rg is not None and rg[0] <= 0:
        rg = (0.5 * mag, 6. * mag)
    if not len(cand):
        return None
    lo, hi = (cand.min(), cand.max()) if rg is None else rg
    if hi - lo <= 1e-6 * max(abs(lo), abs(hi)) or log and lo < 1e-200:
        return None
    edges = lo * (hi / lo) ** (np.arange(bins + 1) / bins) if log else lo + (hi - lo) * np.arange(bins + 1) / bins
    # rounding of the edges
    eps = 1e-9 * edges if log else np.full(bins + 1, 1e-9 * max(abs(lo), abs(hi)))
    inn = ok[(ok >= lo) & (ok <= hi)]
    if not len(inn):
        return None
    total = len(inn)
    with P.headless():
        plot = HistPlot.create(data, plot_type=case['kind'], axes_type=case['axes'], density=case['density'], bins=bins,
                               range=rg, label='a')
        n_art = [len(plot.ax.lines), len(plot.ax.patches)]

        def read(k):
            if case['kind'] == 'scatter':
                x, y = map(np.asarray, plot.ax.lines[k].get_data())
                check(len(x) == bins, 'number of bins')
                check((np.abs(x - (edges[1:] + edges[:-1]) / 2) <= eps[1:]).all(), 'centres of the bins')
                return y
            if case['kind'] == 'bar':
                ps = plot.ax.patches[k * bins:(k + 1) * bins]
                check(len(ps) == bins, 'number of bins')
                check((np.abs([p.get_x() for p in ps] - edges[:-1]) <= eps[1:]).all(), 'lower edges')
                check((np.abs([p.get_x() + p.get_width() for p in ps] - edges[1:]) <= eps[1:]).all(), 'upper edges')
                return np.array([p.get_height() for p in ps])
            xy = plot.ax.patches[k].get_xy()
            check(len(xy) == 2 * bins + 2, 'number of bins')
            check((np.abs(xy[1:-1:2, 0] - edges[:-1]) <= eps[1:]).all(), 'lower edges')
            check((np.abs(xy[2::2, 0][:bins] - edges[1:]) <= eps[1:]).all(), 'upper edges')
            return xy[1:-1:2, 1]

        y = read(0)
        width = np.diff(edges)
        counts = y * width * total if case['density'] else y
        close(counts, np.round(counts), 1e-6, 'whole counts')
        close(counts.sum(), total, 1e-6, 'every value counted once')
        for i in range(bins):
            a, b = edges[i], edges[i + 1]
            least = ((inn > a + eps[i]) & (inn < b - eps[i + 1])).sum()
            most = ((inn >= a - eps[i]) & (inn <= b + eps[i + 1])).sum()
            check(least - 1e-6 <= counts[i] <= most + 1e-6, lambda: f'bin {i}: {counts[i]}, expected {least} to {most}')
        if case['density']:
            close((y * width).sum(), 1, 1e-9, 'area')
        check(plot.ax.get_xscale() == ('log' if log else 'linear'), 'x axis')
        check(plot.ax.get_yscale() == ('log' if case['axes'].lower() in ('logy', 'loglog') else 'linear'), 'y axis')
        check(plot.ax.get_ylabel() == ('Normalised frequency' if case['density'] else 'Frequency'), 'y label')
        if case['twice']:
            back = HistPlot.create(np.ma.compressed(data)[::-1], plot=plot, bins=bins, range=rg)
            check(back is plot, 'added to the plot given')
            close(read(1), y, 1e-9, 'second histogram')
            close(read(0), y, 0, 'first histogram')
        for bad in (dict(plot_type='line'), dict(axes_type='log')):
            raises(ValueError, lambda: HistPlot.create(data, **bad), f'{bad}')
    if case['shape'] == 'masked':
        same(data.mask, ~use, 'mask changed')
        same(data.data, v, 'data changed')
    else:
        same(data, v, 'data changed')
    return (counts > 0).sum() > 1


# ------------------------------------------------------------------------ grains
@sub(st.tuples(M.ebsd_specs(hmin=2, wmin=2, hmax=9, wmax=9, nmin=2), st.integers(0, 2**31)), 50, 2000)
def grain_maps(case):
    """Plots of one grain. Non-trivial: the grain does not fill its box."""
    spec, seed = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=1)
    if not len(m):
        return None
    m.calc_grain_av_oris()
    m.calc_grain_mis_ori(calc_axis=True)
    rng = np.random.default_rng(seed)
    lab = np.array(m.data.grains)
    before = snapshot(m, ['phase', 'euler_angle', 'band_contrast', 'grains'])
    g = m[int(rng.integers(len(m)))]
    sel = lab == g.grain_id + 1
    ys, xs = np.nonzero(sel)
    box = slice(ys.min(), ys.max() + 1), slice(xs.min(), xs.max() + 1)
    inside = sel[box]

    def expect(full):
        out = np.array(full[box], float)
        out[~inside] = np.nan
        return out

    pts = [tuple(p) for p in g.data.point]
    with P.headless():
        def shown(plot, full, what, tol=1e-6):
            check(isinstance(plot, GrainPlot), 'kind of plot')
            img = plot.img_layers[0]
            placed(img, inside.shape, what)
            arr = img.get_array()
            got = np.array(np.ma.getdata(arr), float)
            got[np.broadcast_to(np.ma.getmaskarray(arr), got.shape)] = np.nan
            if got.ndim == 3:
                close(got[inside], expect(full)[inside], tol, what)
            else:
                close(got, expect(full), tol, what)

        jobs = [('band_contrast', None, b.bc), ('phase', None, b.phase), ('grains', None, lab),
                ('KAM', None, np.array(quiet(lambda: m.data.KAM))),
                ('euler_angle', 'all_euler', colour_of_phase(m, b, 'euler')),
                ('euler_angle', 'norm', np.sqrt((b.euler ** 2).sum(axis=0))),
                ('euler_angle', 1, b.euler[1]), ('euler_angle', (2,), b.euler[2]),
                ('orientation', 'IPF_y', colour_of_phase(m, b, 'ipf', AXES['y']))]
        for k in rng.choice(len(jobs), 4, replace=False):
            name, comp, full = jobs[k]
            shown(quiet(g.plot_map, name, comp), full, f'{name} {comp}')
        data = rng.normal(size=b.shape)
        keep = data.copy()
        shown(g.plot_grain_data(map_data=data), data, 'map data')
        lst = np.array([data[y, x] for x, y in pts])
        shown(g.plot_grain_data(grain_data=lst), data, 'list data')
        same(data, keep, 'map data changed')
        shown(g.plot_outline(), np.zeros(b.shape), 'outline')
        plot = g.plot_outline(plot_scale_bar=True)
        check([round(float(a.dx), 12) for a in plot.ax.artists if hasattr(a, 'dx')] == [round(m.scale * 1e-6, 12)], 'scale bar')
        for comp in range(4):
            full = np.zeros(b.shape)
            vals = 2 * np.arccos(np.clip(g.mis_ori_list, -1, 1)) if comp == 0 else np.array(g.mis_ori_axis_list)[:, comp - 1]
            for (x, y), v in zip(pts, vals):
                full[y, x] = np.rad2deg(v)
            plot = g.plot_mis_ori(component=comp)
            shown(plot, full, f'misorientation {comp}')
            check(('deviation', 'around X', 'around Y', 'around Z')[comp] in plot.colour_bar.ax.get_ylabel(), 'label')
        for bad in (-1, 4):
            raises(ValueError, lambda: g.plot_mis_ori(component=bad), 'component')
        raises(ValueError, lambda: g.plot_map('no such'), 'unknown data')
        raises(ValueError, lambda: g.plot_grain_data(), 'no data')
        unchanged(m, before)
    return not inside.all()


@sub(st.tuples(st.sampled_from(['FCC', 'BCC', 'HEX']), S.quat4, st.integers(1, 5), st.integers(1, 5), st.booleans(),
               st.lists(st.sampled_from(['r', 'g', '#0000ff']), min_size=1, max_size=3),
               st.lists(S.angle(0, np.pi), min_size=1, max_size=5)), 80, 3000)
def traces(case):
    """Slip traces drawn over a grain lie along the intersection of plane and surface. Non-trivial: oblique trace."""
    kind, q, h, w, own, cols, angles = case
    spec = dict(shape=(h, w), layout='single', n=1, seed=0, phases=[kind], pid=[1], spread=0., step=1., specks=0., oris=[(0, 0, 0)])
    from defdap import ebsd
    e = M.euler_from_quats(np.tile(np.array(q).reshape(4, 1, 1), (1, h, w)))
    m = ebsd.Map({'step_size': 1., 'phases': [M.make_phase(kind)], 'phase': np.ones((h, w), np.uint8),
                  'euler_angle': e, 'band_contrast': np.zeros((h, w))}, data_type='pythondict')
    m.data.generate('grains', min_grain_size=1)
    m.calc_grain_av_oris()
    g = m[0]
    R = S.rot_quat(q)
    nt = False
    with P.headless():
        plot = g.plot_grain_data(map_data=np.zeros((h, w)), plot_slip_traces=not own)
        given = list(cols)
        if own:
            plot.add_slip_traces(colours=given)
        check(given == cols, 'list of colours changed')
        arrows = [c for c in plot.ax.collections if isinstance(c, Quiver)]
        check(len(arrows) == len(g.phase.slip_systems), 'a trace for every plane')
        colours = cols if own else g.phase.slip_trace_colours
        for i, (a, group) in enumerate(zip(arrows, g.phase.slip_systems)):
            n = R.T @ S.uvec(group[0].slip_plane)
            t = np.array([-n[1], n[0]])         # in the surface, y up as on the screen
            judge_arrow(a, ((w - 1) / 2, (h - 1) / 2), 'middle', colours[min(i, len(colours) - 1)])
            d = np.array([a.U[0], a.V[0]])
            if np.linalg.norm(t) > 1e-3:
                close(np.hypot(*d), 1, 1e-9, 'length of the trace')
                close(d[0] * t[1] - d[1] * t[0], 0, 1e-6 / np.linalg.norm(t), 'direction of the trace')
                nt = nt or min(abs(S.uvec(t))) > 0.1
        for top in (False, True):
            n0 = len(plot.ax.collections)
            arr = np.array(angles)
            plot.add_traces(arr, given, top_only=top, pos=(1.25, 2.5))
            same(arr, np.array(angles), 'angles changed')
            new = plot.ax.collections[n0:]
            check(len(new) == len(angles), 'a trace for every angle')
            for i, (a, th) in enumerate(zip(new, angles)):
                judge_arrow(a, (1.25, 2.5), 'tail' if top else 'middle', cols[min(i, len(cols) - 1)])
                d = np.array([a.U[0], a.V[0]])
                close(d[0] * np.cos(th) + d[1] * np.sin(th), 0, 1e-9, 'direction of the trace')
                close(np.hypot(*d), 1, 1e-9, 'length of the trace')
                if top:
                    check(d[1] >= -1e-9, 'top half')
    return nt


def judge_arrow(a, pos, pivot, colour):
    check(a.pivot == pivot, f'pivot {a.pivot}')
    got = np.asarray(a.get_offsets())[0]
    check(np.all(np.abs(got - pos) <= 0.5 + 1e-9) if pivot == 'middle' and pos != (1.25, 2.5) else np.allclose(got, pos),
          lambda: f'trace at {got}, expected {pos}')
    close(a.get_facecolor()[0], to_rgba(colour), 1e-9, 'colour of the trace')
    check(a.angles == 'uv', 'drawn along screen directions')


# ------------------------------------------------------------------- DIC and picking
@sub(st.tuples(st.integers(2, 10), st.integers(2, 10), st.integers(0, 2**31), st.tuples(*[st.integers(0, 2)] * 4), st.booleans(),
               st.sampled_from([None, 0.5, 2.])), 50, 2000)
def dic_maps(case):
    """Plots of DIC data after cropping and masking. Non-trivial: cropped or masked."""
    h, w, seed, crop, masked, scale = case
    le, r, t, bo = crop
    if h - t - bo < 2 or w - le - r < 2:
        crop = (0, 0, 0, 0)
        le = r = t = bo = 0
    disp = M.smooth_disp(seed, h, w, 1.)
    m = M.dic_map(disp, 4)
    rng = np.random.default_rng(seed)
    quiet(m.set_crop, left=le, right=r, top=t, bottom=bo)
    if masked:
        mask = rng.random(m.shape) < 0.3
        mask[-1, -1] = False
        quiet(m.data.generate, 'mask', mask=mask.copy())
    if scale:
        m.set_scale(scale)
    shape = (h - t - bo, w - le - r)
    with P.headless():
        e, f = np.ma.getdata(m.data.e).copy(), np.ma.getdata(m.data.f).copy()
        ms = np.ma.getdata(m.data.max_shear).copy()
        u = disp[:, t:h - bo, le:w - r]
        jobs = [('e', (i, j), e[i, j], f'Green strain ({i + 1}{j + 1})') for i in range(2) for j in range(2)]
        jobs += [('f', (i, j), f[i, j], f'Deformation gradient ({i + 1}{j + 1})') for i in range(2) for j in range(2)]
        jobs += [('e', None, e[0, 0], 'Green strain (11)'), ('f', 'norm', np.sqrt((f ** 2).sum(axis=(0, 1))), 'Deformation gradient (norm)'),
                 ('max_shear', None, ms, 'Effective shear strain'), ('displacement', 0, u[0], None), ('displacement', 1, u[1], None),
                 ('displacement', 'norm', np.hypot(*u), None)]
        before = {k: np.array(np.ma.getdata(m.data[k])) for k in ('e', 'f', 'max_shear', 'displacement')}
        for k in rng.choice(len(jobs), 5, replace=False):
            name, comp, want, label = jobs[k]
            plot = quiet(m.plot_map, name, comp, plot_scale_bar=bool(scale))
            arr = plot.img_layers[0].get_array()
            placed(plot.img_layers[0], shape, name)
            got, hide = np.ma.getdata(arr), np.ma.getmaskarray(arr)
            if masked:
                check((hide == mask).all(), f'{name}: masked points hidden')
            vis = ~hide
            close(np.asarray(got)[vis], want[vis], 1e-9, f'{name} {comp}')
            if not masked:
                check(vis.all(), f'{name}: all points shown')
            if label is not None:
                check(plot.colour_bar.ax.get_ylabel() == label, f'label {plot.colour_bar.ax.get_ylabel()!r}, expected {label!r}')
            if scale:
                bar = [c for c in plot.ax.get_children() if isinstance(c, ScaleBar)]
                check(len(bar) == 1, 'scale bar')
                close(bar[0].dx, scale * 4 * 1e-6, 1e-12, 'length of a pixel')
        # an image of several pixels for each point
        k = 2 + seed % 3
        fine = rng.random((h * k, w * k))
        m.data.add('fine', fine, type='map', order=0, binning=k, apply_mask=False,
                   plot_params={'clabel': 'Fine', 'plot_scale_bar': bool(scale)}, unit='au')
        for _ in range(2):
            plot = quiet(m.plot_map, 'fine')
            arr = np.asarray(plot.img_layers[0].get_array())
            check(arr.shape == (shape[0] * k, shape[1] * k), lambda: f'binned image cropped to {arr.shape} from {fine.shape}')
            close(arr, fine[t * k:(h - bo) * k, le * k:(w - r) * k], 0, 'binned image')
            if scale:
                bar = [c for c in plot.ax.get_children() if isinstance(c, ScaleBar)]
                check(len(bar) == 1, 'scale bar')
                close(bar[0].dx, scale * 4 / k * 1e-6, 1e-12, 'length of a pixel of a binned image')
        for kk, v in before.items():
            close(np.ma.getdata(m.data[kk]), v, 0, f'{kk} changed')
        plot = quiet(link(m, seed).plot_default)
        vis = ~np.ma.getmaskarray(plot.img_layers[0].get_array())
        close(image(plot)[vis], ms[vis], 1e-9, 'default plot')
    return masked or any(crop)


@sub(st.tuples(st.integers(12, 30), st.integers(12, 30), st.integers(0, 2**31), S.fl(0, 179), st.sampled_from([None, 'red']),
               st.one_of(st.none(), st.tuples(S.fl(0.05, 0.9), st.integers(1, 60))),
               st.sampled_from([(None, None), (0., 1.), (-1., 0.), (-0.25, None)]), st.sampled_from([None, 0.5]), st.integers(1, 5)), 30, 800)
def dic_grains(case):
    """Plots of a grain of a DIC map with slip bands and scale bar. Non-trivial: bands are drawn."""
    h, w, seed, theta, colour, opts, (lo, hi), scale, binning = case
    m = link(M.dic_map(M.smooth_disp(seed, h, w, 1.), binning), seed)
    quiet(m.data.generate, 'grains', algorithm='warp')
    lab = np.array(m.data.grains)
    g = max(m.grains, key=len)
    y, x = np.mgrid[:h, :w]
    t = np.deg2rad(theta)
    data = 0.05 + 0.1 * (((x * np.cos(t) - y * np.sin(t)) / 6) % 1 < 0.3)
    keep = data.copy()
    m.set_scale(0.2)
    sel = lab == g.grain_id + 1
    ys, xs = np.nonzero(sel)
    box = slice(ys.min(), ys.max() + 1), slice(xs.min(), xs.max() + 1)
    want = np.where(sel, data, np.nan)[box]
    with P.headless():
        plot = quiet(g.plot_grain_data, map_data=data, vmin=lo, vmax=hi, plot_scale_bar=True, scale=scale, plot_slip_bands=opts is None,
                     plot_colour_bar=True, clabel='x')
        img = plot.img_layers[0]
        close(np.ma.filled(img.get_array(), np.nan), want, 1e-12, 'grain')
        a, b = img.get_clim()
        close([a, b], [np.nanmin(want) if lo is None else lo, np.nanmax(want) if hi is None else hi], 1e-12, 'colour scale')
        check(plot.colour_bar.mappable is img and plot.colour_bar.ax.get_ylabel() == 'x', 'colour bar')
        bar = [c for c in plot.ax.get_children() if isinstance(c, ScaleBar)]
        check(len(bar) == 1, 'scale bar')
        close(bar[0].dx, (scale or 0.2 * binning) * 1e-6, 1e-15, 'length of a pixel')
        if opts is None:
            angles = quiet(g.calc_slip_bands, want)
            colour = 'black'
        else:
            angles = quiet(g.calc_slip_bands, want, thres=opts[0], min_dist=opts[1])
            quiet(plot.add_slip_bands, want.copy(), colour=colour, thres=opts[0], min_dist=opts[1])
        arrows = [c for c in plot.ax.collections if isinstance(c, Quiver)]
        check(len(arrows) == len(angles), lambda: f'{len(arrows)} bands drawn of {len(angles)}')
        for arrow, th in zip(arrows, angles):
            d = np.array([arrow.U[0], arrow.V[0]])
            close(d, [-np.sin(th), np.cos(th)], 1e-9, 'direction of the band')
            close(arrow.get_facecolor()[0], to_rgba(colour or 'black'), 1e-9, 'colour of the band')
    same(data, keep, 'data changed')
    return len(angles) > 0


@sub(st.tuples(M.ebsd_specs(hmin=3, wmin=3, hmax=10, wmax=10, nmin=2, spread=(0., 1.)), st.integers(1, 3),
               st.lists(st.tuples(st.integers(0, 999), st.integers(0, 999), st.sampled_from(['in', 'in', 'in', 'out'])), min_size=1, max_size=6),
               st.sampled_from(['plain', 'grain', 'neighbours', 'handler'])), 200, 4000)
def picking(case):
    """Grains clicked on a displayed map. Non-trivial: two different grains picked."""
    spec, size, acts, mode = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=size)
    if not len(m):
        return None
    m.calc_grain_av_oris()
    lab = np.array(m.data.grains)
    picked = set()
    calls = []
    with P.headless():
        kw = dict(fig_params=dict(figsize=(2, 2), dpi=50))
        if mode == 'neighbours':
            quiet(m.build_neighbour_network)
            plot = m.display_neighbours(**kw)
        elif mode == 'handler':
            plot = m.locate_grain(click_event=lambda e, p: calls.append((e.xdata, e.ydata, p)), **kw)
        else:
            plot = m.locate_grain(display_grain=mode == 'grain', **kw)
        sel = None
        for fx, fy, where in acts:
            x, y = position(b.shape, (fx, fy))
            if where == 'out':
                quiet(P.mouse, plot, plot.ax, 0.5, 1.1, coords='axes')
            else:
                ev = quiet(P.mouse, plot, plot.ax, x, y)
                if ev.inaxes is not plot.ax:
                    continue
                x, y = ev.xdata, ev.ydata
                if mode == 'handler':
                    close(calls[-1][:2], (x, y), 1e-12, 'handler called')
                    check(calls[-1][2] is plot, 'handler is given the plot')
                    continue
                i = lab[int(np.floor(y + 0.5)), int(np.floor(x + 0.5))] - 1
                if i >= 0:
                    sel = int(i)
            if mode == 'handler':
                continue
            check((m.sel_grain is None) if sel is None else (m.sel_grain is m[sel]), lambda: f'selected {m.sel_grain}, expected {sel}')
            if sel is None:
                check(plot.highlights_layer_id is None, 'nothing highlighted')
                continue
            picked.add(sel)
            pix = rgba(plot.img_layers[plot.highlights_layer_id])
            if mode == 'neighbours':
                nn = m.neighbour_network
                one = {g.grain_id for g in nn.neighbors(m[sel])}
                two = {g.grain_id for i in one for g in nn.neighbors(m[i])} - one - {sel}
                want = {sel: 'white', **{i: 'yellow' for i in one}, **{i: 'green' for i in two}}
            else:
                want = {sel: 'white'}
            on = np.zeros(b.shape, bool)
            for i, c in want.items():
                s = lab == i + 1
                on |= s
                close(pix[s], np.tile((*to_rgb(c), 1.), (s.sum(), 1)), 1e-6, f'highlight of grain {i}')
            check((pix[~on, 3] == 0).all(), 'only these grains are highlighted')
            check(len(plot.img_layers) == 2, 'highlights are replaced')
    return len(picked) > 1
