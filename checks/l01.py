import numpy as np
from hypothesis import strategies as st
import matplotlib.pyplot as plt
from matplotlib.backend_bases import MouseEvent
from defdap import ebsd
from defdap.quat import Quat
from lib.framework import sub, check, close, same, raises
from lib import strats as S
from lib import maps as M
from lib import dic as D

KINDS = st.sampled_from(['voronoi', 'voronoi', 'blocks', 'rows', 'cols', 'bands'])


def specs(lo=3, hi=7):
    return M.ebsd_specs(hmin=lo, hmax=hi, wmin=lo, wmax=hi, nmin=2, nmax=5, kinds=KINDS)


def grown(spec, tol=5.):
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grain_boundaries', misori_tol=tol)
    m.data.generate('grains', min_grain_size=1)
    return b, m


def state(g):
    return dict(ref=None if g.ref_ori is None else np.array(g.ref_ori.quat_coef, float),
                av=g.average_mis_ori, list=None if g.mis_ori_list is None else np.array(g.mis_ori_list, float))


def unchanged(now, old, keys, what):
    for k in keys:
        same(now[k], old[k], f'{k} of {what}')


# ------------------------------------------------------------------ analysis
@sub(st.tuples(st.lists(specs(), min_size=2, max_size=4),
               st.lists(st.tuples(*[st.integers(0, 60)] * 4), min_size=0, max_size=6),
               st.booleans(), st.integers(1, 3), st.lists(st.integers(0, 40), max_size=3)), 150, 6000)
def analysis(case):
    """Links over two to four maps; at least one linked grain whose reference changed."""
    sp, raw, axis, rounds, redo = case
    built, maps = zip(*(grown(s) for s in sp))
    if not all(len(m) for m in maps):
        return False
    for m in maps:
        m.calc_grain_mis_ori()
    linker = ebsd.Linker(list(maps))
    links = [tuple(r % len(m) for r, m in zip(row, maps)) for row in raw]
    linker.links = list(links)
    changed = 0
    for k in range(rounds):
        if k:
            # references of the first map chosen anew
            for r in redo:
                e = np.random.RandomState(r + 100 * k).rand(3) * (6, 3, 6)
                maps[0][r % len(maps[0])].ref_ori = Quat.from_euler_angles(*e)
        before = [[state(g) for g in m] for m in maps]
        linker.set_ref_ori_from_master()
        # grain of each map -> grain of the first map (last link wins)
        target = [{l[i]: l[0] for l in links} for i in range(len(maps))]
        for i, m in enumerate(maps):
            for j, g in enumerate(m):
                now, old = state(g), before[i][j]
                want = before[0][target[i][j]]['ref'] if i and j in target[i] else old['ref']
                same(now['ref'], want, f'reference of grain {j} in map {i} after copying')
                unchanged(now, old, ('av', 'list'), 'misorientation before the update')
        linker.update_misori(calc_axis=axis)
        for i, m in enumerate(maps):
            for j, g in enumerate(m):
                now, old = state(g), before[i][j]
                if not (i and j in target[i]):
                    unchanged(now, old, ('ref', 'av', 'list'), f'grain {j} of map {i}, not linked or in the first map')
                    continue
                ref = before[0][target[i][j]]['ref']
                same(now['ref'], ref, 'reference after the update')
                pts = np.array(g.data.point)
                q = built[i].quats[:, pts[:, 1], pts[:, 0]]
                sym = built[i].syms[g.phase_id]
                cosines = np.cos(S.disori_many(q, ref, sym) / 2)
                close(now['list'], cosines, 1e-9, 'misorientation list against the copied reference')
                close(now['av'], cosines.mean(), 1e-9, 'average misorientation against the copied reference')
                if axis:
                    ang = np.sqrt((np.array(g.mis_ori_axis_list) ** 2).sum(axis=1))
                    close(ang, 2 * np.arccos(np.clip(cosines, -1, 1)), 2e-6, 'length of the misorientation axes')
                changed += bool(np.abs(ref - old['ref']).max() > 1e-6)
        check(linker.links == links, 'links changed')
    # a copied reference is the linked grain's own
    for l in links:
        for i, m in enumerate(maps):
            if i:
                check(m[l[i]].ref_ori is not maps[0][l[0]].ref_ori, 'reference shared with the first map')
    return changed > 0


# ------------------------------------------------------------------- clicking
SERIES = st.tuples(st.just('series'), st.tuples(*[st.integers(0, 9999)] * 6))
act = st.one_of(
    st.tuples(st.just('pick'), st.integers(0, 9999), st.integers(0, 9999), st.integers(0, 3)),
    st.tuples(st.just('pick'), st.integers(0, 9999), st.integers(0, 9999), st.integers(0, 3)),
    st.tuples(st.just('fix'), st.integers(1, 3), st.integers(0, 9999), st.integers(0, 9999)),
    st.tuples(st.just('link'), st.integers(0, 3)),
    SERIES, SERIES,
    st.tuples(st.just('outside'), st.integers(0, 3)),
    st.tuples(st.just('reset')),
    st.tuples(st.just('again')),
)
clicks = st.tuples(st.lists(specs(3, 9), min_size=2, max_size=3),
                   st.lists(st.tuples(st.integers(0, 9999), st.integers(0, 9999)), min_size=3, max_size=3),
                   st.booleans(), st.lists(st.sampled_from([1., 1., 1.25, 1.6, 2., 0.5, 0.4]), min_size=3, max_size=3), st.one_of(
                       st.lists(act, min_size=2, max_size=7),
                       st.tuples(SERIES, SERIES, st.tuples(st.just('again'))).map(list)))


def press(plot, x, y, outside=False):
    c, ax = plot.fig.canvas, plot.ax
    px, py = ax.transAxes.transform((0.5, 1.05)) if outside else ax.transData.transform((x, y))
    ev = MouseEvent('button_press_event', c, px, py, button=1)
    c.callbacks.process('button_press_event', ev)
    return ev


def press_button(plot):
    c, ax = plot.fig.canvas, plot.btn_store[0].ax
    x, y = ax.transAxes.transform((0.5, 0.5))
    for name in ('button_press_event', 'button_release_event'):
        c.callbacks.process(name, MouseEvent(name, c, x, y, button=1))


def pixel(m, r1, r2):
    h, w = m.shape
    return r1 % w, r2 % h


def near(v):
    """Pixel a position lies in (either of two when it is on their edge)."""
    return {int(np.floor(v + e + .5)) for e in (-1e-6, 0., 1e-6)}


def off(r):
    """Offset of a click from the centre of its pixel."""
    return (r * 7 % 10 - 4.5) / 10


@sub(clicks, 120, 2400)
def clicking(case):
    """Grains picked on displayed maps; at least one link made."""
    sp, orig, set_origins, steps, acts = case
    # maps of comparable scale
    sp = [dict(x, step=sp[0]['step'] * k) for k, x in zip(steps, sp)]
    # the first of several series of clicks again
    first = [a for a in acts if a[0] == 'series'][:1]
    acts = [o for a in acts for o in (first if a[0] == 'again' else [a])]
    acts = [o for a in acts for o in (
        [('pick', *a[1][:2], 0)] + [('fix', i, *a[1][2 * i:2 * i + 2]) for i in range(1, len(sp))] + [('link', a[1][0])]
        if a[0] == 'series' else [('pick', *a[1:]), ('link', a[1])] if a[0] == 'pick' and a[3] == 3 else [a])]
    built, maps = zip(*(grown(s) for s in sp))
    if not all(len(m) for m in maps):
        return False
    size = plt.rcParams['figure.figsize'], plt.rcParams['figure.dpi']
    plt.rcParams['figure.figsize'], plt.rcParams['figure.dpi'] = (2, 2), 50
    linker = ebsd.Linker(list(maps))
    origins = [(0, 0)] * len(maps)
    try:
        if set_origins:
            D.quiet(linker.set_origin)
            check(len(linker.plots) == len(maps), 'a plot for each map')
            for i, m in enumerate(maps):
                x, y = pixel(m, *orig[i])
                press(linker.plots[i], x, y, outside=True)
                check(tuple(m.origin) == (0, 0), 'origin moved by a click outside')
                D.quiet(press, linker.plots[i], x + off(orig[i][0]), y + off(orig[i][1]))
                check(tuple(m.origin) == (x, y), f'origin {m.origin} for {(x, y)}')
                origins[i] = (x, y)
            for i, m in enumerate(maps):
                check(tuple(m.origin) == origins[i], 'origin of another map moved')
            plt.close('all')
        D.quiet(linker.start_linking)
        check(len(linker.plots) == len(maps) and all(p.calling_map is m for p, m in zip(linker.plots, maps)),
              'a plot for each map')
        links, made, sel = [], 0, [None] * len(maps)
        for a in acts:
            if a[0] == 'outside':
                D.quiet(press, linker.plots[a[1] % len(maps)], 0, 0, True)
            elif a[0] == 'reset':
                linker.reset_links()
                links = []
            elif a[0] == 'fix':
                i = 1 + (a[1] - 1) % (len(maps) - 1)
                x, y = pixel(maps[i], a[2], a[3])
                D.quiet(press, linker.plots[i], x + off(a[2]), y + off(a[3]))
                lab = int(maps[i].data.grains[y, x])
                if lab > 0:
                    sel[i] = lab - 1
            elif a[0] == 'pick':
                x, y = pixel(maps[0], a[1], a[2])
                lab = int(maps[0].data.grains[y, x])
                if lab <= 0:
                    continue
                ev, _ = D.quiet(press, linker.plots[0], x + off(a[1]), y + off(a[2])), None
                sel[0] = lab - 1
                for i in range(1, len(maps)):
                    k = sp[0]['step'] / sp[i]['step']
                    gx = near((ev.xdata - origins[0][0]) * k + origins[i][0])
                    gy = near((ev.ydata - origins[0][1]) * k + origins[i][1])
                    h, w = maps[i].shape
                    ok = set()
                    for u in gx:
                        for v in gy:
                            on = 0 <= u < w and 0 <= v < h
                            lab = int(maps[i].data.grains[v, u]) if on else 0
                            ok.add(lab - 1 if lab > 0 else None)
                    got = maps[i].sel_grain
                    got = None if got is None else got.grain_id
                    check(got in ok, lambda: f'guess {got} in map {i}, not in {ok}')
                    sel[i] = got
                    if got is not None:
                        hi = linker.plots[i].img_layers[linker.plots[i].highlights_layer_id]
                        shown = np.asarray(hi.get_array()) != 0
                        check((maps[i].data.grains[shown] == got + 1).all() and shown.any(), 'highlighted grain')
            else:
                p = linker.plots[a[1] % len(maps)]
                if None in sel:
                    raises(Exception, lambda: press_button(p), 'link without a grain in every map')
                else:
                    D.quiet(press_button, p)
                    if tuple(sel) not in links:
                        links.append(tuple(sel))
                    made += 1
            for i, m in enumerate(maps):
                g = m.sel_grain
                check((None if g is None else g.grain_id) == sel[i] and (g is None or g.owner_map is m),
                      lambda: f'selected grain of map {i} after {a}')
            check([tuple(l) for l in linker.links] == links, lambda: f'links {linker.links} for {links}')
        return made > 0
    finally:
        plt.close('all')
        plt.rcParams['figure.figsize'], plt.rcParams['figure.dpi'] = size
