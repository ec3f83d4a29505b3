import numpy as np
from hypothesis import strategies as st
from defdap import ebsd, hrdic        # noqa: F401
from lib.framework import sub, check, close, same, raises
from lib import strats as S, maps as M

specs = st.one_of(
    M.ebsd_specs(hmin=1, hmax=9, wmin=1, wmax=9, spread=(0, 2)),
    *[M.ebsd_specs(hmin=4, hmax=9, wmin=4, wmax=9, spread=(0, 2), nmax=8,
                   kinds=st.sampled_from(['voronoi', 'voronoi', 'blocks', 'random']))] * 2)
nonsq = st.tuples(specs, st.sampled_from([1, 1, 1, 2, 4]), st.integers(0, 2 ** 31 - 1))


def built(spec, min_size):
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=min_size)
    return b, m, np.array(m.data.grains)


def pixels(lab, i):
    """(x, y) of the pixels of grain i."""
    return {(int(x), int(y)) for y, x in np.argwhere(lab == i + 1)}


def values(kind, order, shape, seed):
    rng = np.random.RandomState(seed)
    full = {0: (), 1: (3,), 2: (2, 3)}[order] + shape
    if kind == 'int':
        return rng.randint(-50, 50, full)
    if kind == 'bool':
        return rng.rand(*full) < 0.5
    if kind == 'uint8':
        return rng.randint(0, 255, full).astype(np.uint8)
    if kind == 'float32':
        return rng.randn(*full).astype(np.float32)
    return rng.randn(*full)


kinds = st.sampled_from(['float', 'int', 'bool', 'uint8', 'float32'])


@sub(st.tuples(nonsq, kinds, st.integers(0, 2), st.sampled_from([None, 0, -1, 2.5])),
     quick=250, thorough=6000)
def extraction(case):
    """Lists and images of a grain cut from a map. Non-trivial: a grain that does not fill its
    box."""
    (spec, size, seed), kind, order, bg = case
    b, m, lab = built(spec, size)
    if kind == 'uint8' and bg == -1:
        bg = 7          # the background has to be a value of the type of the data
    data = values(kind, order, b.shape, seed)
    keep = data.copy()
    partial = False
    for i, g in enumerate(m.grains):
        pts = [tuple(int(c) for c in p) for p in g.data.point]
        check(set(pts) == pixels(lab, i) and len(pts) == len(set(pts)) == len(g), 'points')
        got = np.asarray(g.grain_data(data))
        check(got.shape == data.shape[:-2] + (len(pts),), lambda: f'list shape {got.shape}')
        for k, (x, y) in enumerate(pts):
            same(got[..., k], data[..., y, x], f'value of pixel {(x, y)}')
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
        check(tuple(int(v) for v in g.extreme_coords) == (x0, y0, x1, y1), 'bounding box')
        kw = {} if bg is None else {'bg': bg}
        fill = np.nan if bg is None else bg
        want = np.full((y1 - y0 + 1, x1 - x0 + 1) + data.shape[:-2], fill, dtype=float)
        for x, y in pts:
            want[y - y0, x - x0] = data[..., y, x]
        img = np.asarray(g.grain_map_data(map_data=data, **kw))
        check(img.shape == want.shape, lambda: f'image shape {img.shape}')
        close(img.astype(float), want, 1e-9, 'image from map data')
        img = np.asarray(g.grain_map_data(grain_data=np.moveaxis(got, -1, 0), **kw))
        close(img.astype(float), want, 1e-9, 'image from grain data')
        partial = partial or len(pts) < (y1 - y0 + 1) * (x1 - x0 + 1)
    same(data, keep, 'map data changed')
    if len(m.grains):
        raises(ValueError, lambda: m.grains[0].grain_map_data(), 'image of nothing')
    return partial


@sub(nonsq, quick=200, thorough=5000)
def geometry(case):
    """Boxes, centres and outlines. Non-trivial: a grain away from the origin."""
    spec, size, seed = case
    b, m, lab = built(spec, size)
    far = False
    for i, g in enumerate(m.grains):
        pts = pixels(lab, i)
        xs, ys = np.array(sorted(pts)).T
        x0, y0, x1, y1 = xs.min(), ys.min(), xs.max(), ys.max()
        for gc in (True, False):
            off = (x0, y0) if gc else (0, 0)
            c = g.centre_coords(centre_type='box', grain_coords=gc)
            close(np.array(c) + off, [(x0 + x1) / 2, (y0 + y1) / 2], .5 + 1e-9, 'centre of box')
            c = g.centre_coords(centre_type='com', grain_coords=gc)
            close(np.array(c) + off, [xs.mean(), ys.mean()], .5 + 1e-9, 'centre of mass')
        c = g.centre_coords()
        check(c == g.centre_coords('box', True) and all(isinstance(v, int) for v in c), 'default')
        raises(ValueError, lambda: g.centre_coords('middle'), 'unknown centre')
        want = np.full((y1 - y0 + 1, x1 - x0 + 1), np.nan)
        for x, y in pts:
            want[y - y0, x - x0] = 0
        close(g.grain_outline(), want, 1e-9, 'outline')
        close(g.grain_outline(bg=3, fg=1.5), np.where(np.isnan(want), 3, 1.5), 1e-9, 'outline')
        close(g.grain_outline(bg=0, fg=1), np.where(np.isnan(want), 0, 1), 1e-9, 'outline')
        far = far or bool(x0 and y0)
    return far


@sub(st.tuples(nonsq, st.integers(0, 3), st.sampled_from([None, 0., -2.])), quick=100,
     thorough=2500)
def coarsened(case):
    """Mean over the window within the grain. Non-trivial: grain of more than one pixel."""
    (spec, size, seed), k, bg = case
    b, m, lab = built(spec, size)
    data = values('float', 0, b.shape, seed)
    big = False
    for i, g in enumerate(m.grains):
        pts = pixels(lab, i)
        x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
        x1, y1 = max(p[0] for p in pts), max(p[1] for p in pts)
        kw = {} if bg is None else {'bg': bg}
        got = g.grain_map_data_coarse(map_data=data, kernel_size=k, **kw)
        want = np.full((y1 - y0 + 1, x1 - x0 + 1), np.nan if bg is None else bg)
        for x, y in pts:
            near = [data[v, u] for u, v in pts if abs(u - x) <= k and abs(v - y) <= k]
            want[y - y0, x - x0] = sum(near) / len(near)
        close(got, want, 1e-9, f'grain coarsened by {k}')
        got = g.grain_map_data_coarse(grain_data=g.grain_data(data), kernel_size=k, **kw)
        close(got, want, 1e-9, f'grain data coarsened by {k}')
        big = big or len(pts) > 1
    return big


def chosen(n, pick):
    """Grain ids: all, one, or some in any order."""
    if pick is None or n == 0:
        return -1, list(range(n))
    if isinstance(pick, int):
        return pick % n, [pick % n]
    ids = list(dict.fromkeys(p % n for p in pick))
    return ids, ids


@sub(st.tuples(nonsq, st.one_of(st.none(), st.integers(0, 30),
                                st.lists(st.integers(0, 30), min_size=1, max_size=5)),
               st.sampled_from(['int', 'float', 'rgb', 'list']), st.sampled_from([0, -1, 0.25])),
     quick=200, thorough=5000)
def assembly(case):
    """Maps filled from one value per grain, and grain averages. Non-trivial: several grains."""
    (spec, size, seed), pick, kind, bg = case
    b, m, lab = built(spec, size)
    n = len(m.grains)
    if n == 0:
        return False
    arg, ids = chosen(n, pick)
    rng = np.random.RandomState(seed)
    vals = rng.randint(-9, 9, len(ids)) if kind == 'int' else rng.rand(len(ids), 3) \
        if kind == 'rgb' else rng.randn(len(ids))
    give = list(vals) if kind == 'list' else vals
    kw = {} if bg == 0 else {'bg': bg}
    got = m.grain_data_to_map_data(give, grain_ids=arg, **kw)
    want = np.full(b.shape + np.shape(vals)[1:], bg, float)
    for i, v in zip(ids, vals):
        want[lab == i + 1] = v
    check(got.shape == want.shape, 'shape')
    close(np.asarray(got, float), want, 1e-12, 'map of grain values')
    raises(ValueError, lambda: m.grain_data_to_map_data(list(vals) + [vals[0]], grain_ids=arg),
           'wrong number of values')
    data = values(('int', 'float', 'uint8')[seed % 3], 0, b.shape, seed)
    av = m.calc_grain_average(data, grain_ids=arg)
    close(av, [data[lab == i + 1].mean() for i in ids], 1e-9, 'averages')
    import matplotlib.pyplot as plt
    plot = m.plot_grain_data_map(grain_data=give, grain_ids=arg, **kw)
    shown = np.asarray(plot.img_layers[0].get_array(), float)
    plt.close(plot.fig)
    # matplotlib clips colours
    close(shown, want.clip(0, 1) if want.ndim == 3 else want, 1e-12,
          'plotted map of grain values')
    plot = m.plot_grain_data_map(map_data=data, grain_ids=arg, **kw)
    shown = np.asarray(plot.img_layers[0].get_array(), float)
    plt.close(plot.fig)
    want = np.full(b.shape, bg, float)
    for i in ids:
        want[lab == i + 1] = data[lab == i + 1].mean()
    close(shown, want, 1e-9, 'plotted map of averages')
    return n > 1


@sub(st.tuples(nonsq, kinds, st.integers(0, 2), st.integers(0, 2), st.integers(0, 3)), quick=200,
     thorough=5000)
def derived(case):
    """Lists of a map's data in its grains and maps of the grains' lists. Non-trivial: several
    grains."""
    (spec, size, seed), kind, order, order2, again = case
    b, m, lab = built(spec, size)
    if len(m.grains) == 0:
        return False
    data = values(kind, order, b.shape, seed)
    m.data.add('bar', data.copy(), type='map', order=order, unit='px')
    if again & 1:
        m.data.generate('grains', min_grain_size=size)
    lists = values('float', order2, b.shape, seed ^ 77)
    want = np.zeros(lists.shape)
    for i, g in enumerate(m.grains):
        check('bar' in g.data and g.data.get_metadata('bar', 'type') == 'list', 'derived name')
        check(g.data.get_metadata('bar', 'order') == order
              and g.data.get_metadata('bar', 'unit') == 'px', 'metadata')
        pts = [tuple(int(c) for c in p) for p in g.data.point]
        for k, (x, y) in enumerate(pts):
            same(np.asarray(g.data.bar)[..., k], data[..., y, x], 'list derived from a map')
        for name in ('phase', 'euler_angle', 'band_contrast'):
            src = np.asarray(m.data[name])
            for k, (x, y) in enumerate(pts):
                same(np.asarray(g.data[name])[..., k], src[..., y, x], f'derived {name}')
        mine = np.stack([lists[..., y, x] for x, y in pts], axis=-1)
        g.data.add('foo', mine, type='list', order=order2, unit='um')
        for x, y in pts:
            want[..., y, x] = lists[..., y, x]
    check('foo' in m.data and m.data.get_metadata('foo', 'type') == 'map'
          and m.data.get_metadata('foo', 'unit') == 'um', 'derived map missing')
    close(m.data.foo, want, 1e-12, 'map derived from lists')
    close(m.grain_data_to_map('foo'), want, 1e-12, 'map of lists')
    for i, g in enumerate(m.grains):
        pts = [tuple(int(c) for c in p) for p in g.data.point]
        close(g.grain_data(m.data.foo), g.data.foo, 1e-12, 'back to the list')
    n = len(m.grains)
    if again & 2:
        # grains found anew have none of the lists of the former ones
        m.data.generate('grains', min_grain_size=size + 1)
        check('foo' not in m.data, 'map of lists of former grains')
        want = np.zeros(b.shape)
        for g in m.grains:
            pts = np.array(g.data.point)
            vals = lists.reshape((-1,) + b.shape)[0][pts[:, 1], pts[:, 0]]
            g.data.add('foo2', vals, type='list', order=0, unit='px')
            want[pts[:, 1], pts[:, 0]] = vals
        check(('foo2' in m.data) == (len(m.grains) > 0), 'map of lists of new grains')
        if len(m.grains):
            close(m.data.foo2, want, 1e-12, 'map of lists of new grains')
            check(m.data.get_metadata('foo2', 'unit') == 'px', 'unit')
    return n > 1


big_specs = st.tuples(M.large_specs(30, spread=(0., .5), kinds=('square', 'tiles', 'strip')),
                      st.sampled_from([1, 1, 4]), st.integers(0, 2 ** 31 - 1))


@sub(st.tuples(big_specs, kinds, st.integers(0, 2), st.sampled_from([None, 0, 2.5]),
               st.sampled_from(['int', 'float', 'rgb'])), quick=8, thorough=300)
def large(case):
    """Large maps, grains and numbers of grains. Non-trivial: several grains."""
    spec, kind, order, bg, vkind = case
    extraction((spec, kind, order, bg))
    geometry(spec)
    derived((spec, kind, order % 2, order, 2))
    return assembly((spec, None, vkind, bg or 0))
