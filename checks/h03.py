import warnings
import numpy as np
from hypothesis import strategies as st
from lib.framework import sub, check, same, raises
from lib import maps as M
from lib import dic as D


def consistent(m, what):
    """Labels, ids, point lists and sizes of the grains agree."""
    lab = np.asarray(m.data.grains)
    check(lab.shape == tuple(m.shape), f'{what}: label map shape {lab.shape}, expected {m.shape}')
    n = len(m.grains)
    check(lab.max(initial=0) == n, f'{what}: labels up to {lab.max(initial=0)} for {n} grains')
    for i, g in enumerate(m.grains):
        check(g.grain_id == i, f'{what}: grain {i} has id {g.grain_id}')
        pts = np.asarray(g.data.point)
        got = {(int(x), int(y)) for x, y in pts}
        ys, xs = np.nonzero(lab == i + 1)
        check(got == set(zip(xs.tolist(), ys.tolist())), f'{what}: points of grain {i}')
        check(len(pts) == len(got) == len(g), f'{what}: grain {i} lists points twice')
        check(g.owner_map is m and g.dic_map is m, f'{what}: owner of grain {i}')
        check(m[i] is g, f'{what}: indexing grain {i}')
    return lab


@sub(D.pairs(), 150, 6000)
def warp(case):
    """At least two grains, some pixel away from the maps' borders."""
    p = D.Linked(case)
    e, d = p.ebsd, p.dic
    D.quiet(e.data.generate, 'grains', min_grain_size=case['seed'] % 4 + 1)
    before = np.array(e.data.grains)
    D.quiet(d.data.generate, 'grains', algorithm='warp')
    lab = consistent(d, 'warp')
    same(e.data.grains, before, 'EBSD grains changed')
    ids = [g.ebsd_grain.grain_id for g in d.grains]
    check(len(set(ids)) == len(ids), f'two DIC grains of one EBSD grain: {ids}')
    for g in d.grains:
        check(g.ebsd_grain is e.grains[g.ebsd_grain.grain_id] and g.ebsd_map is e, 'EBSD grain')
    h, w = p.shape
    yy, xx = np.mgrid[:h, :w]
    pos = p.to_ebsd(np.stack([xx.ravel(), yy.ravel()], 1))
    opts = D.nearest_choices(before, pos, 1e-6 if case['type'] != 'polynomial' else 1e-5)
    for (y, x), v, o in zip(np.ndindex(h, w), lab.ravel(), opts):
        eid = ids[v - 1] + 1 if v > 0 else int(v)
        check(eid in o, lambda: f'pixel {(x, y)} has EBSD label {eid}, the EBSD map has {o} at '
                                f'{p.to_ebsd((x, y))}')
    return len(ids) >= 2


def modes(labels):
    v, c = np.unique(labels[labels > 0], return_counts=True)
    return set(v[c == c.max()].tolist()) if len(v) else set()


# smallest size of a grain: a number, or that of one of the regions or one more
sizes = st.one_of(st.integers(1, 25), st.tuples(st.integers(0, 20), st.integers(0, 1)))


@sub(st.tuples(D.pairs(dmin=10, dmax=36, hmin=6, hmax=16), sizes, st.booleans()), 120, 5000)
def flood_fill(case):
    """At least two grains or a removed region."""
    case, min_size, default = case
    p = D.Linked(case)
    e, d = p.ebsd, p.dic
    D.quiet(e.data.generate, 'grains', min_grain_size=case['seed'] % 4 + 1)
    kw = {} if default else {'algorithm': ['floodfill', 'FloodFill'][case['seed'] % 2]}
    img = np.array(d.data.grain_boundaries.image)
    check(img.shape == p.shape, f'boundary image shape {img.shape}, expected {p.shape}')
    h, w = p.shape
    none = np.zeros((h, w), bool)
    comp = M.components(~img, none, none)
    # a boundary pixel joins the first-filled of the regions to its left and above
    owner = comp.copy()
    for y, x in zip(*np.nonzero(img)):
        near = [c for c in (comp[y, x - 1] if x else 0, comp[y - 1, x] if y else 0) if c]
        owner[y, x] = min(near) if near else 0
    if isinstance(min_size, tuple):
        area = np.unique(owner[owner > 0], return_counts=True)[1]
        min_size = int(area[min_size[0] % len(area)]) + min_size[1] if len(area) else 1
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        D.quiet(d.data.generate, 'grains', min_grain_size=min_size, **kw)
    lab = consistent(d, 'flood fill')
    same(d.data.grain_boundaries.image, img, 'boundaries changed')
    want = np.full((h, w), -1)
    n = 0
    for c in range(1, comp.max() + 1):
        sel = owner == c
        if sel.sum() < min_size:
            want[sel] = -2
        else:
            n += 1
            want[sel] = n
    same(lab, want, 'flood fill labels')
    # link to the EBSD map: most frequent EBSD grain under each DIC grain
    eh, ew = p.built.shape
    yy, xx = np.mgrid[:eh, :ew]
    pos = p.to_dic(np.stack([xx.ravel(), yy.ravel()], 1))
    opts = D.nearest_choices(lab, pos, 1e-5)
    sure = all(len(o) == 1 for o in opts)
    eg = np.asarray(e.data.grains)
    flat = np.array([min(o) for o in opts]).reshape(eh, ew)
    for i, g in enumerate(d.grains):
        if g.ebsd_grain is not None:
            check(any(g.ebsd_grain is k for k in e.grains) and g.ebsd_map is e, 'EBSD grain')
        if sure:
            m = modes(eg[flat == i + 1])
            check((g.ebsd_grain is None) == (g.ebsd_map is None), 'EBSD map of a grain that is not linked')
            got = None if g.ebsd_grain is None else g.ebsd_grain.grain_id + 1
            check(got in m if m else got is None,
                  lambda: f'DIC grain {i} linked to EBSD label {got}, expected one of {m}')
    return n >= 2 or bool((lab == -2).any())


@sub(st.tuples(D.pairs(dmin=10, dmax=18, hmax=8), st.integers(0, 2)), 40, 1000)
def refusals(case):
    """Unknown methods and unlinked maps are refused, and finding grains works afterwards."""
    case, k = case
    p = D.Linked(case, link=False)
    raises(Exception, lambda: D.quiet(p.dic.data.generate, 'grains', algorithm='warp'),
           'grains of a map that is not linked')
    raises(Exception, lambda: p.dic.warp_to_dic_frame(p.built.bc), 'warp of a map not linked')
    p.link()
    raises(ValueError, lambda: D.quiet(p.dic.data.generate, 'grains',
                                       algorithm=['warps', 'flood fill', ''][k]),
           'unknown algorithm')
    D.quiet(p.dic.data.generate, 'grains', algorithm='warp')
    consistent(p.dic, 'after a refusal')
    return True


@sub(st.tuples(D.pairs(dmin=10, dmax=16, hmax=8),
               st.lists(st.tuples(st.sampled_from(['warp', 'floodfill']), st.integers(1, 12)),
                        min_size=3, max_size=5)), 60, 1500)
def repeated(case):
    """Grains found repeatedly with several methods are those found by the last one alone."""
    case, runs = case
    p, q = D.Linked(case), D.Linked(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for alg, n in runs:
            D.quiet(p.dic.data.generate, 'grains', algorithm=alg, min_grain_size=n)
        D.quiet(q.dic.data.generate, 'grains', algorithm=alg, min_grain_size=n)
    same(p.dic.data.grains, np.asarray(q.dic.data.grains), 'labels')
    consistent(p.dic, 'found repeatedly')
    for a, b in zip(p.dic.grains, q.dic.grains):
        same(a.data.point, np.asarray(b.data.point), 'points')
        ia, ib = (None if g.ebsd_grain is None else g.ebsd_grain.grain_id for g in (a, b))
        check(ia == ib, f'EBSD grains {ia} and {ib}')
    # quantities of the grains are those of the map at their points
    for g in p.dic.grains:
        x, y = np.asarray(g.data.point).T
        same(g.data.max_shear, np.asarray(p.dic.data.max_shear)[y, x], 'shear of a grain')
    return len({r[0] for r in runs}) > 1


@sub(st.tuples(D.pairs(dmin=70, dmax=150, hmin=16, hmax=40, nmax=12),
               st.one_of(st.integers(1, 60), sizes.filter(lambda s: isinstance(s, tuple))),
               st.booleans(), st.booleans()), 6, 200)
def large(case):
    """Maps of thousands of pixels, either algorithm. Non-trivial: as for small maps."""
    pair, size, default, filled = case
    return bool(flood_fill((pair, size, default)) if filled else warp(pair))


@sub(st.tuples(D.pairs(dmin=120, dmax=170, hmin=30, scale=(1.6, 2.4), hmax=32),
               M.large_specs(76, spread=(0., .5), kinds=('tiles',))), 5, 150)
def many_grains(case):
    """Hundreds of grains. Non-trivial: more than 255 grains in the EBSD map."""
    pair, spec = case
    p = dict(pair, spec=spec, type='affine', crop=(0, 0, 0, 0),
             seed=4 * (pair['seed'] // 4))
    warp(p)
    return spec['n'] > 255


@sub(st.tuples(D.pairs(dmin=10, dmax=24, hmax=10), st.sampled_from(['warp', 'floodfill']),
               st.integers(0, 2 ** 31 - 1), st.sampled_from([0., .1, .5, .9])), 60, 1500)
def masked(case):
    """Values of grains of a masked map are those at the points left. Non-trivial: a grain with some
    of its points masked."""
    import matplotlib.pyplot as plt
    pair, alg, seed, p = case
    d = D.Linked(pair).dic
    rng = np.random.RandomState(seed)
    mask = rng.rand(*d.shape) < p
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        early = seed % 2
        if early:
            D.quiet(d.data.generate, 'mask', mask=mask)
        D.quiet(d.data.generate, 'grains', algorithm=alg, min_grain_size=2)
        if not early:
            D.quiet(d.data.generate, 'mask', mask=mask)
        full = {k: np.ma.getdata(d.data[k]) for k in ('max_shear', 'e')}
        ids = [i for i, g in enumerate(d.grains)
               if not mask[tuple(np.asarray(g.data.point).T[::-1])].all()]
        some = 0
        want = []
        for i in ids:
            g = d[i]
            x, y = np.asarray(g.data.point).T
            left = ~mask[y, x]
            some += not left.all()
            want.append(full['max_shear'][y, x][left].mean())
            for k in full:
                v = g.data[k]
                check(np.array_equal(np.ma.getmaskarray(v), np.broadcast_to(~left, v.shape)),
                      f'{k} of grain {i}: masked points')
                same(np.ma.getdata(v)[..., left], full[k][..., y, x][..., left], f'{k} of grain {i}')
            img = np.full((y.max() - y.min() + 1, x.max() - x.min() + 1), np.nan)
            img[y[left] - y.min(), x[left] - x.min()] = full['max_shear'][y, x][left]
            same(np.ma.filled(g.grain_map_data(d.data.max_shear), np.nan), img, 'grain map')
            comp = np.ma.filled(g.grain_map_data(d.data.e), np.nan)
            got = comp[y[left] - y.min(), x[left] - x.min()]
            same(got, np.moveaxis(full['e'][..., y, x], -1, 0)[left], 'grain map of a tensor')
            check(np.isnan(comp).sum() == 4 * (img.size - left.sum()), 'grain map of a tensor: masked points')
        got = d.calc_grain_average(d.data.max_shear, grain_ids=ids)
        check(np.abs(got - want).max(initial=0) < 1e-12, lambda: f'averages {got}, expected {want}')
        if len(ids) == len(d.grains) > 0 and seed % 5 == 0:
            try:
                plot = d.plot_grain_av_max_shear()
                shown = np.asarray(plot.img_layers[0].get_array())
                for v, g in zip(want, d.grains):
                    x, y = np.asarray(g.data.point).T
                    check(np.abs(shown[y, x] - v).max() < 1e-12, 'average shown')
            finally:
                plt.close('all')
    return bool(some)
