import numpy as np
from hypothesis import strategies as st
import matplotlib.pyplot as plt
from matplotlib.backend_bases import MouseEvent, KeyEvent
from skimage.io import imsave
import defdap
import defdap.experiment as dx
from defdap import ebsd, hrdic
from lib.framework import sub, check, close, same, raises
from lib import strats as S
from lib import maps as M

# ------------------------------------------------------------------ bookkeeping
NAMES = ['a', 'b', 'ebsd', 'hrdic', None]
ref = st.integers(0, 20)
op = st.one_of(
    st.tuples(st.just('inc'), ref, st.dictionaries(st.sampled_from(['angle', 'strain', 'name']), S.fl(0, 9), max_size=2)),
    st.tuples(st.just('map'), ref, st.sampled_from(['ebsd', 'dic']), st.sampled_from(NAMES),
              st.sampled_from(['inc', 'inc', 'inc', 'exp', 'both', 'none', 'wrong']), ref,
              st.sampled_from(['own', 'own', 'share', 'new', 'again'])),
    st.tuples(st.just('map'), ref, st.sampled_from(['ebsd', 'dic']), st.sampled_from(NAMES),
              st.sampled_from(['inc', 'inc', 'inc', 'exp']), ref, st.sampled_from(['own', 'share'])),
    st.tuples(st.just('map'), ref, st.just('ebsd'), st.sampled_from(NAMES), st.just('inc'), ref, st.just('again')),
)


@sub(st.tuples(st.integers(1, 3), st.lists(op, min_size=3, max_size=14)), 120, 5000)
def bookkeeping(case):
    """Several experiments with two or more increments and a map in at least one."""
    n, ops = case
    exps = [dx.Experiment() for _ in range(n)]
    model = [[] for _ in range(n)]          # per experiment: [Increment, metadata, {name: map}]
    anon, anon_n = defdap.anonymous_experiment, len(defdap.anonymous_experiment.increments)
    anon_maps = []
    maps, frames = [], []
    for o in ops:
        if o[0] == 'inc':
            e = o[1] % n
            inc = exps[e].add_increment(**o[2])
            check(inc.experiment is exps[e], 'experiment of the increment')
            same(inc.metadata, o[2], 'metadata of the increment')
            model[e].append([inc, o[2], {}])
            continue
        _, r, kind, name, how, r2, fr = o
        e = r % n
        kw = {}
        if name is not None:
            kw['map_name'] = name
        frame = None
        if fr == 'share' and frames:
            frame = kw['frame'] = frames[r2 % len(frames)]
        elif fr == 'new':
            frame = kw['frame'] = dx.Frame()
        row = None
        if how in ('inc', 'both', 'wrong') and model[e]:
            row = model[e][r2 % len(model[e])]
            kw['increment'] = row[0]
            if how == 'both':
                kw['experiment'] = exps[e]
            if how == 'wrong' and n > 1:
                kw['experiment'] = exps[(e + 1) % n]
                raises(AssertionError, lambda: make(kind, kw), 'increment of another experiment')
                check_model(exps, model)
                continue
        elif how != 'none':
            kw['experiment'] = exps[e]
        if fr == 'again' and maps and row is not None:
            # a map that is in an experiment already
            m = maps[r // 2 % len(maps)][0]
            names = [k for x in model for w in x for k, v in w[2].items() if v is m] + ['ebsd']
            name = name if r % 2 and name else names[0]
            row[0].add_map(name, m)
            row[2][name] = m
            check_model(exps, model)
            continue
        m = make(kind, kw)
        name = name or {'ebsd': 'ebsd', 'dic': 'hrdic'}[kind]
        if row is not None:
            row[2][name] = m
            want = row[0], exps[e]
        elif how != 'none':
            check(len(exps[e].increments) == len(model[e]) + 1, 'map adds one increment')
            model[e].append([exps[e].increments[-1], {}, {name: m}])
            want = exps[e].increments[-1], exps[e]
        else:
            check(len(anon.increments) == anon_n + len(anon_maps) + 1, 'increment of the anonymous experiment')
            anon_maps.append((name, m))
            want = anon.increments[-1], anon
        check(m.increment is want[0] and m.experiment is want[1], 'map refers to its increment and experiment')
        if frame is not None:
            check(m.frame is frame, 'given frame used')
        else:
            check(not any(m.frame is f for f in frames), 'own frame')
            check(len(m.frame.homog_points) == 0, 'new frame has no points')
        m.frame.homog_points.append((len(maps), 0))
        frames.append(m.frame)
        maps.append((m, want, m.frame))
        check_model(exps, model)
    for m, want, f in maps:
        check(m.increment is want[0] and m.experiment is want[1] and m.frame is f, 'map back references')
    for (name, m), inc in zip(anon_maps, anon.increments[anon_n:]):
        check(dict(inc.maps) == {name: m}, 'increment of the anonymous experiment holds its map')
    del anon.increments[anon_n:]
    check_model(exps, model)
    return sum(len(x) >= 2 and any(r[2] for r in x) for x in model) >= 1


def make(kind, kw):
    if kind == 'dic':
        return M.dic_map(np.zeros((2, 2, 2)), 2, **kw)
    return ebsd.Map(grid_dict(2, 2), data_type='PythonDict', **kw)


def check_model(exps, model):
    for e, rows in zip(exps, model):
        check(len(e.increments) == len(rows) and all(i is r[0] for i, r in zip(e.increments, rows)), 'order of increments')
        for i, r in enumerate(rows):
            check(e[i] is r[0], 'increment by index')
            same(r[0].metadata, r[1], 'metadata')
            check(set(r[0].maps) == set(r[2]) and all(r[0].maps[k] is v for k, v in r[2].items()), 'maps of the increment')
        for name in NAMES[:-1] + ['absent']:
            got = list(e.iter_over_maps(name))
            want = [(i, r[2][name]) for i, r in enumerate(rows) if name in r[2]]
            check(len(got) == len(want) and all(g[0] == w[0] and g[1] is w[1] for g, w in zip(got, want)),
                  lambda: f'iteration over {name}: {[g[0] for g in got]} for {[w[0] for w in want]}')


# ------------------------------------------------------------ homologous points
coord = st.one_of(st.integers(-50, 500), S.fl(-50, 500))
pt = st.tuples(coord, coord)
fop = st.one_of(
    st.tuples(st.just('set'), st.lists(pt, max_size=6)),
    st.tuples(st.just('array'), st.lists(pt, min_size=1, max_size=6), st.booleans()),
    st.tuples(st.just('new'), st.integers(0, 8), pt),
    st.tuples(st.just('move'), st.integers(0, 8), pt),
    st.tuples(st.just('all'), pt),
    st.tuples(st.just('allnew'), pt),
    st.tuples(st.just('bad'), st.sampled_from(['1', 1.0, None, (0,)])),
)


@sub(st.tuples(st.lists(pt, min_size=1, max_size=6), st.lists(fop, min_size=1, max_size=10)), 200, 8000)
def typed(case):
    """Sequence of typed point operations, at least one moving a point."""
    start, ops = case
    f, other = dx.Frame(), dx.Frame()
    f.set_homog_points(list(start))
    other.set_homog_points(list(start))
    model, moved = list(start), 0
    for o in ops:
        if o[0] == 'set':
            f.set_homog_points(list(o[1]))
            model = list(o[1])
        elif o[0] == 'array':
            arr = np.array(o[1], float)
            if o[2]:
                arr = arr.round().astype(int)
            f.set_homog_points(arr)
            model = [tuple(r) for r in arr.tolist()]
        elif o[0] == 'bad':
            raises(Exception, lambda: f.update_homog_points(o[1], delta=(1, 1)), 'index that is not an integer')
        elif o[0] == 'all':
            f.update_homog_points(-1, delta=o[1])
            model = [(x + o[1][0], y + o[1][1]) for x, y in model]
            moved += bool(model)
        elif o[0] == 'allnew':
            f.update_homog_points(-1, new_point=o[1])
            model = [o[1]] * len(model)
        elif o[1] >= len(model):
            raises(Exception, lambda: f.update_homog_points(o[1], new_point=o[2]), 'index out of range')
        elif o[0] == 'new':
            # a pair of any kind
            f.update_homog_points(o[1], new_point=o[2] if o[1] % 2 == 0 else list(o[2]))
            model[o[1]] = o[2]
            moved += 1
        else:
            f.update_homog_points(o[1], delta=o[2] if o[1] % 2 == 0 else np.array(o[2]))
            x, y = model[o[1]]
            model[o[1]] = (x + o[2][0], y + o[2][1])
            moved += 1
        check(len(f.homog_points) == len(model), 'number of points')
        close(np.array([tuple(p) for p in f.homog_points], float).reshape(-1, 2),
              np.array(model, float).reshape(-1, 2), 1e-9, f'points after {o}')
    same(other.homog_points, start, 'points of another frame')
    return bool(moved)


# ---------------------------------------------------------------------- clicked
unit = st.integers(0, 999)
iop = st.one_of(
    st.tuples(st.just('pick'), unit, unit, st.sampled_from(['right', 'right', 'shift'])),
    st.tuples(st.just('pick'), unit, unit, st.sampled_from(['right', 'right', 'shift'])),
    st.tuples(st.just('click'), unit, unit, st.sampled_from(['right', 'right', 'shift'])),
    st.tuples(st.just('click'), unit, unit, st.sampled_from(['right', 'left', 'outside', 'middle'])),
    st.tuples(st.just('key'), st.sampled_from(['left', 'right', 'up', 'down', 'shift+left', 'shift+right',
                                               'shift+up', 'shift+down']), st.integers(1, 3)),
    st.tuples(st.just('key'), st.sampled_from(['left', 'right', 'up', 'down', 'x', 'shift', 'shift+x']), st.just(1)),
    st.tuples(st.just('save')), st.tuples(st.just('save')),
)
ARROWS = {'left': (-1, 0), 'right': (1, 0), 'up': (0, -1), 'down': (0, 1)}


def press_button(plot):
    """Click in the middle of the plot's button."""
    c = plot.fig.canvas
    ax = plot.btn_store[0].ax
    x, y = ax.transAxes.transform((0.5, 0.5))
    for name in ('button_press_event', 'button_release_event'):
        c.callbacks.process(name, MouseEvent(name, c, x, y, button=1))


@sub(st.tuples(st.sampled_from(['pattern', 'dic', 'ebsd', 'pattern', 'pattern', 'named']),
               st.integers(3, 20), st.integers(3, 20), st.sampled_from([3, 2, 4, 5, 7, 1]), st.lists(st.tuples(st.integers(0, 19), st.integers(0, 19)), max_size=3),
               st.lists(iop, min_size=2, max_size=12)), 60, 1500)
def clicked(case):
    """Points picked on a displayed map with mouse, keys and button; at least one saved."""
    kind, h, w, k, start, ops = case
    name, binning = None, 1
    pattern = None
    if kind in ('ebsd', 'named'):
        m = ebsd.Map(grid_dict(h, w), data_type='PythonDict')
        if kind == 'named':
            m.data.add('own', np.random.RandomState(0).rand(h, w), type='map', order=0)
            name = 'own'
    else:
        m = M.dic_map(M.smooth_disp(k, h, w, 1.), 2)
        if kind == 'pattern':
            pattern = M.scratch('.bmp')
            imsave(pattern, np.random.RandomState(k).randint(0, 255, (h * k, w * k)).astype(np.uint8),
                   check_contrast=False)
            m.set_pattern(pattern, k)
            name, binning = 'pattern', k
    model = [tuple(p) for p in start]
    if model:
        m.frame.set_homog_points(np.array(model) if len(ops) % 2 else list(model))
    try:
        plot = m.frame.set_homog_point(m, name, fig_params=dict(figsize=(2, 2), dpi=50))
        img = np.asarray(plot.img_layers[0].get_array())
        check(img.shape == (h * binning, w * binning), 'displayed image')
        sel = None
        saved = 0
        ops = [p for o in ops for p in ([('click', *o[1:]), ('save',)] if o[0] == 'pick' else [o])]
        for o in ops:
            if o[0] == 'click':
                x, y = o[1] / 1000 * w * binning - 0.5, o[2] / 1000 * h * binning - 0.5
                ax = plot.ax
                if o[3] == 'outside':
                    px, py = ax.transAxes.transform((0.5, 1.05))
                else:
                    px, py = ax.transData.transform((x, y))
                ev = MouseEvent('button_press_event', plot.fig.canvas, px, py,
                                button={'right': 3, 'middle': 2, 'outside': 3}.get(o[3], 1),
                                key='shift' if o[3] == 'shift' else None)
                plot.fig.canvas.callbacks.process('button_press_event', ev)
                if o[3] in ('right', 'shift') and ev.inaxes is ax:
                    got = selected(plot)
                    check(got is not None and got == (round(got[0]), round(got[1])),
                          f'selected point {got} is a pixel')
                    check(abs(got[0] - x) <= 0.5 + 1e-6 and abs(got[1] - y) <= 0.5 + 1e-6,
                          lambda: f'selected {got} for a click at {(x, y)}')
                    sel = got
            elif o[0] == 'key':
                for _ in range(o[2]):
                    for name in ('key_press_event', 'key_release_event'):
                        plot.fig.canvas.callbacks.process(name, KeyEvent(name, plot.fig.canvas, o[1]))
                parts = o[1].split('+')
                if sel is not None and parts[-1] in ARROWS:
                    step = 10 if len(parts) == 2 else 1
                    d = ARROWS[parts[-1]]
                    sel = (sel[0] + d[0] * step * o[2], sel[1] + d[1] * step * o[2])
            else:
                press_button(plot)
                if sel is not None:
                    check(len(m.frame.homog_points) == len(model) + 1, 'one point saved')
                    got = tuple(m.frame.homog_points[-1])
                    check(all(abs(g - s / binning) <= 0.5 + 1e-9 and g == round(g) for g, s in zip(got, sel)),
                          lambda: f'saved {got} from {sel}, binning {binning}')
                    model.append(got)
                    sel = None
                    saved += 1
            same(selected(plot), sel, f'selected point after {o}')
            same([tuple(p) for p in m.frame.homog_points], model, f'points after {o}')
            shown = np.ma.filled(np.ma.asarray(
                plot.img_layers[plot.points_layer_ids[0]].get_offsets(), dtype=float), np.nan)
            if model:
                close(shown, np.array(model, float) * binning, 1e-9, 'displayed points')
            else:
                check(np.isnan(shown).all(), 'no point displayed')
        return kind if saved else False
    finally:
        plt.close('all')
        if pattern is not None:
            pattern.unlink(missing_ok=True)


def selected(plot):
    o = np.ma.filled(np.ma.asarray(plot.img_layers[plot.points_layer_ids[1]].get_offsets(), dtype=float), np.nan)
    check(o.shape == (1, 2), 'one selected point')
    return None if np.isnan(o).any() else tuple(o[0].tolist())


def grid_dict(h, w):
    ph = M.make_phase('FCC')
    return {'step_size': 1., 'phases': [ph], 'phase': np.ones((h, w), int),
            'euler_angle': np.zeros((3, h, w)),
            'band_contrast': np.random.RandomState(h * w).randint(0, 255, (h, w))}
