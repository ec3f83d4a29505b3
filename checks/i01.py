import ast
import contextlib
import io
import os
import re
import numpy as np
from hypothesis import strategies as st
from defdap.inspector import GrainInspector
from lib.framework import sub, check, close, same, raises, fail
from lib import strats as S
from lib import maps as M
from lib import dic as D
from lib import plot as P
from lib import cell

frac = st.integers(0, 1000)
line = st.tuples(st.just('line'), frac, frac, st.one_of(
    S.fl(0, 360), st.sampled_from([0., 90., 180., 270., 45., 135., 1., 179., 359.])), S.fl(2, 12), st.booleans())
# parallel to an earlier line, to within some degrees
near = st.tuples(st.just('near'), frac, frac, S.fl(-14, 14), S.fl(2, 12), st.booleans())
rest = {
    'goto': st.tuples(st.just('goto'), st.integers(0, 9)),
    'remove': st.tuples(st.just('remove'), st.integers(0, 9)),
    'clear': st.tuples(st.just('clear')),
    'group': st.tuples(st.just('group'), st.integers(0, 9)),
    'rdr': st.tuples(st.just('rdr'), st.integers(0, 9)),
    'outside': st.tuples(st.just('outside')),
    'sta': st.tuples(st.just('sta')),
    'file': st.tuples(st.just('file'), st.integers(0, 2)),
    'line': line, 'near': near,
}
op = st.sampled_from(['line'] * 5 + ['near'] * 5 + ['goto'] * 2 + ['remove'] * 4 + ['rdr'] * 3 + ['sta', 'group'] +
                     ['file'] * 2 + ['clear', 'outside']).flatmap(rest.get)


@st.composite
def sessions(draw, nops=12):
    case = draw(D.pairs(hmin=5, hmax=8, dmin=12, dmax=26, scale=(1.5, 3.), nonindexed=False, single_phase=True,
                        nmax=4, kinds=st.sampled_from(['voronoi', 'rows', 'cols'])))
    case = dict(case, type='affine', crop=(0, 0, 0, 0))
    case['tf'] = dict(A=[[2.5, 0], [0, 2.5]], t=(0., 0.)) if draw(st.booleans()) else case['tf']
    return (case, draw(st.sampled_from([0., 0., 0., 5., -12.25, 30., -30., 17.3, -3.01])),
            draw(st.tuples(line, st.one_of(line, near)).map(list)) + draw(st.lists(op, min_size=3, max_size=nops)))


def open_maps(case):
    L = D.Linked(case)
    m = L.ebsd
    m.data.generate('grain_boundaries', misori_tol=5)
    m.data.generate('grains', min_grain_size=1)
    if not len(m):
        return None
    m.calc_average_grain_schmid_factors(load_vector=np.array([1., 0, 0]))
    L.dic.data.generate('grains', algorithm='warp', min_grain_size=3)
    L.dic.set_scale(0.1)
    return L if len(L.dic) else None


def judge(grain):
    """Groups of one grain against its lines."""
    lines, groups = grain.points_list, grain.groups_list
    groups = groups or []
    if not lines:
        check(len(groups) == 0, 'groups without lines')
        return 0
    ids = [l[2] for l in lines]
    check([g[0] for g in groups] == list(range(len(groups))), lambda: f'group ids {[g[0] for g in groups]}')
    check(set(ids) == set(range(len(groups))), lambda: f'groups of the lines {ids}, {len(groups)} groups')
    angles = [l[1] for l in lines]
    for g in groups:
        mem = [a for a, k in zip(angles, ids) if k == g[0]]
        check(abs(g[1] - np.mean(mem)) < 0.0101, lambda: f'group angle {g[1]}, members {mem}')
        planes = {}
        for i, t in enumerate(grain.ebsd_grain.slip_traces):
            planes[i] = g[1] - np.rad2deg(t)
        check(len(g[2]) == len(g[3]) and sorted(set(g[2])) == list(g[2]), 'active planes and deviations')
        for i, d in planes.items():
            if abs(d) < 5 - 0.02:
                check(i in g[2], lambda: f'plane {i} ({d} degrees away) not listed')
            elif abs(d) > 5 + 0.02:
                check(i not in g[2], lambda: f'plane {i} ({d} degrees away) listed')
        for i, d in zip(g[2], g[3]):
            check(abs(d - planes[i]) < 0.0101, lambda: f'deviation {d} of plane {i}: {planes[i]}')
    # each line joined the nearest group of the lines before it
    for n, (a, k) in enumerate(zip(angles, ids)):
        before = {}
        for b, j in zip(angles[:n], ids[:n]):
            before.setdefault(j, []).append(b)
        dist = {j: abs(np.mean(v) - a) for j, v in before.items()}
        if k in dist:
            check(dist[k] < 10.02 and dist[k] <= min(dist.values()) + 0.02,
                  lambda: f'line {n} at {a} joined group {k}: distances {dist}')
        else:
            check(not dist or min(dist.values()) > 9.98, lambda: f'line {n} at {a} not grouped: distances {dist}')
    return len(groups)


def folded(a, b):
    d = np.abs(np.subtract.outer(np.asarray(a, float), np.asarray(b, float))) % 180
    return np.minimum(d, 180 - d)


def table(ax):
    """Rows of the table in an area of the window."""
    text = [t.get_text() for t in ax.texts]
    check(len(text) == 2, 'title and table')
    rows = text[1].splitlines()
    check(len(rows) >= 2 and set(rows[1]) == {'-'}, lambda: f'table {text[1]!r}')
    return rows[2:]


def window(gi, dic, cur):
    """What the window displays after an action is about the grain selected."""
    g = dic[cur]
    e = g.ebsd_grain
    x0, y0, x1, y1 = g.extreme_coords
    want = np.full((y1 - y0 + 1, x1 - x0 + 1), np.nan)
    for (x, y), v in zip(g.data.point, g.data.max_shear):
        want[y - y0, x - x0] = v
    images = gi.max_shear_axis.images
    check(len(images) == 1, 'one image of the grain')
    close(np.ma.filled(np.ma.asarray(images[0].get_array(), float), np.nan), want, 1e-9, 'grain drawn')
    text = ' '.join(t.get_text() for t in gi.grain_info_axis.texts)
    n = [float(v) for v in re.findall(r'-?\d+(?:\.\d+)?', text)]
    check(len(n) == 5 and n[0] == cur and n[1] == len(dic) - 1, lambda: f'grain described as {text!r}')
    v = 100 * np.asarray(g.data.max_shear)
    close(n[2:], [v.min(), v.mean(), v.max()], 0.00501, 'strains of the grain')
    check(len(gi.unit_cell_axis.collections) == 1, 'one unit cell')
    cell.judge(gi.unit_cell_axis.collections[0], e.phase.crystal_structure.name, e.ref_ori.quat_coef, True)
    rows = table(gi.line_info_axis)
    check(len(rows) == len(g.points_list), lambda: f'{len(rows)} rows for {len(g.points_list)} lines')
    for i, (r, l) in enumerate(zip(rows, g.points_list)):
        r = r.split()
        check(len(r) == 7 and int(r[0]) == i and int(r[6]) == l[2], lambda: f'row {r} for line {l}')
        close([float(v) for v in r[1:5]], l[0], 0.501, 'ends in the table')
        close(float(r[5]), l[1], 0.0501, 'angle in the table')
    labels = {}
    for t in gi.max_shear_axis.texts:
        if t.get_text().isdigit():
            labels.setdefault(int(t.get_text()), []).append(t.xy)
    check(set(labels) == set(range(len(rows))), lambda: f'labels {sorted(labels)} for {len(rows)} lines')
    for i, l in enumerate(g.points_list):
        check(all(np.allclose(xy, l[0][2:]) for xy in labels[i]), 'position of a label')
    groups = g.groups_list or []
    rows = table(gi.groups_info_axis)
    check(len(rows) == len(groups), lambda: f'{len(rows)} rows for {len(groups)} groups')
    for i, (r, k) in enumerate(zip(rows, groups)):
        t = r.split()
        check(int(t[0]) == i and len(t) == (5 if k[2] else 3), lambda: f'row {r!r} for group {k}')
        close([float(t[1]), float(t[-1])], [k[1], k[4]], 0.0501, 'group in the table')
        if k[2]:
            check([int(v) for v in t[2].split(',')] == list(k[2]), lambda: f'row {r!r} for group {k}')
            close([float(v) for v in t[3].split(',')], k[3], 0.0501, 'deviations in the table')
    q = gi.slip_trace_axis.collections
    drawn = [np.rad2deg(np.arctan2(-c.U[0], c.V[0])) for c in q]
    check(all(c.V[0] > -1e-9 for c in q), 'traces above')
    angles = [*np.rad2deg(e.slip_traces), *[k[1] for k in groups]]
    check(len(drawn) == len(angles), lambda: f'{len(drawn)} traces and bands drawn, expected {len(angles)}')
    # no trace on the surface for a plane parallel to it
    known = [a for a in angles if np.isfinite(a)]
    d = folded(drawn, known) if known else np.full((len(drawn), 1), 180.)
    check((d.min(axis=0) < 1e-3).all() or not known, lambda: f'traces and bands at {drawn}, expected {angles}')
    check((d.min(axis=1) >= 1e-3).sum() <= len(angles) - len(known),
          lambda: f'traces and bands at {drawn}, expected {angles}')


def parse(path):
    """Grain id -> (lines, groups), from the text of the file."""
    out, cur, which = {}, None, None
    for t in path.read_text().splitlines():
        if t.startswith('#') or not t.strip():
            continue
        if t.startswith('Grain '):
            cur = out.setdefault(int(t.split()[1]), ([], []))
        elif t.endswith('Lines'):
            which, n = 0, int(t.split()[0])
        elif t.endswith('Groups'):
            check(len(cur[0]) == n, 'number of lines in the file')
            which, n = 1, int(t.split()[0])
        else:
            cur[which].append(ast.literal_eval(t))
    return out


def records(dic):
    return [([list(l) for l in g.points_list], [list(x) for x in (g.groups_list or [])]) for g in dic]


@sub(sessions(), 45, 2500)
def session(case):
    """Sequence of drawing, removing, regrouping, saving, loading; at least two groups, a removal
    with lines left or lines saved and loaded."""
    spec, corr, ops = case
    L = open_maps(spec)
    if L is None:
        return False
    dic, nt = L.dic, False
    name = M.scratch('_RDR.txt').name
    path = dic.file_name.parent / name
    with P.headless(), contextlib.redirect_stdout(io.StringIO()):
        try:
            gi = GrainInspector(dic, 0.5, correction_angle=corr, rdr_line_length=3)
            gi.update_filename(name, gi.plot)
            model = [[] for _ in dic]        # (points, angle)
            rdr = {}
            cur = 0
            for o in ops:
                g = dic[cur]
                x0, y0, x1, y1 = g.extreme_coords
                W, H = x1 - x0 + 1, y1 - y0 + 1
                if o[0] in ('line', 'near'):
                    cx, cy = o[1] / 1000 * (W - 1), o[2] / 1000 * (H - 1)
                    if o[0] == 'near':
                        last = model[cur][-1][1] if model[cur] else 60.
                        ang = 90 - (last + corr + o[3])
                    else:
                        ang = o[3]
                    d = np.array([np.cos(np.deg2rad(ang)), np.sin(np.deg2rad(ang))]) * o[4] / 2
                    lim = lambda p: (min(max(p[0], -.4), W - .6), min(max(p[1], -.4), H - .6))
                    p, q = lim((cx - d[0], cy - d[1])), lim((cx + d[0], cy + d[1]))
                    if o[-1]:
                        p, q = q, p
                    if np.hypot(p[0] - q[0], p[1] - q[1]) < 0.5:
                        continue
                    ax = gi.grain_plot.ax
                    seen = P.drag(gi.plot, ax, p, q)
                    if seen is None:
                        continue
                    (ax_, ay_), (bx, by) = seen
                    check(np.allclose(seen, (p, q), atol=1e-6), 'harness: event position')
                    # gestures that do not both start and end on the grain draw nothing
                    if o[1] % 5 == 1:
                        P.drag(gi.plot, ax, (0., 0.), (W + 40., 0.))
                    elif o[1] % 5 == 2:
                        P.drag(gi.plot, ax, (W + 40., 0.), (0., 0.))
                    elif o[1] % 5 == 3:
                        P.drag(gi.plot, ax, (0., -40.), (W + 40., -40.))
                    P.press_button(gi.plot, 'Save Line')
                    # from the vertical, towards +x for a line falling to the right
                    want = np.rad2deg(np.arctan2(bx - ax_, by - ay_)) - corr
                    model[cur].append(([ax_, ay_, bx, by], want % 180))
                    rdr = {k: v for k, v in rdr.items() if k[0] != cur}
                elif o[0] == 'goto':
                    cur = o[1] % len(dic)
                    gi.goto_grain(str(cur), gi.plot)
                    check(gi.selected_dic_grain is dic[cur] and gi.grain_id == cur, 'selected grain')
                elif o[0] == 'remove':
                    if not model[cur]:
                        continue
                    k = o[1] % len(model[cur])
                    gi.remove_line(str(k), gi.plot)
                    del model[cur][k]
                    nt = nt or bool(model[cur])
                    rdr = {k: v for k, v in rdr.items() if k[0] != cur}
                elif o[0] == 'clear':
                    P.press_button(gi.plot, 'Clear All Lines')
                    model[cur] = []
                    rdr = {k: v for k, v in rdr.items() if k[0] != cur}
                elif o[0] == 'group':
                    k = o[1] % len(dic)
                    gi.group_lines(dic[k])
                    rdr = {j: v for j, v in rdr.items() if j[0] != k}
                elif o[0] == 'rdr':
                    groups = dic[cur].groups_list
                    if not groups:
                        continue
                    k = o[1] % len(groups)
                    try:
                        if o[1] % 3:
                            gi.calc_rdr(dic[cur], k, show_plot=False)
                        else:
                            others = [g[4] for j, g in enumerate(groups) if j != k]
                            groups[k][4] = None
                            gi.rdr_group_text_box.set_val(str(k))
                            check(groups[k][4] is not None and gi.rdr_group_text_box.text == '',
                                  'ratio from the text box')
                            check(others == [g[4] for j, g in enumerate(groups) if j != k], 'other groups')
                    except ValueError:
                        groups[k][4] = groups[k][4] or 0
                        gi.rdr_group_text_box.set_val('')
                        continue        # no displacement difference to fit
                    rdr[cur, k] = groups[k][4]
                elif o[0] == 'outside':
                    P.mouse(gi.plot, gi.grain_plot.ax, 0.5, 1.02, coords='axes')
                elif o[0] == 'sta':
                    with contextlib.redirect_stdout(io.StringIO()) as out:
                        P.press_button(gi.plot, 'Run All STA')
                    judge_sta(out.getvalue(), dic)
                else:
                    before = records(dic)
                    P.press_button(gi.plot, 'Save File')
                    check(records(dic) == before, 'saving changed the records')
                    got = parse(path)
                    check(got == {i: r for i, r in enumerate(before) if r[0]}, 'contents of the file')
                    if o[1] == 1:
                        # the same maps, made again
                        L = open_maps(spec)
                        new = L.dic
                        check(len(new) == len(dic), 'harness: same grains')
                        new.file_name = dic.file_name
                        dic = new
                        gi = GrainInspector(dic, 0.5, correction_angle=corr, rdr_line_length=3)
                        gi.update_filename(name, gi.plot)
                        cur = 0
                    elif o[1] == 0:
                        for i in range(len(dic)):
                            gi.goto_grain(i, gi.plot)
                            P.press_button(gi.plot, 'Clear All Lines')
                        gi.goto_grain(cur, gi.plot)
                    P.press_button(gi.plot, 'Load File')
                    nt = nt or any(r[0] for r in before)
                    if o[1] == 2:
                        # onto the lines there are
                        model = [l + l for l in model]
                        rdr = {}
                        before = records(dic)
                    check(records(dic) == before, lambda: f'loaded records {records(dic)} for {before}')
                if o[0] in ('line', 'near', 'goto', 'remove', 'clear', 'file'):
                    window(gi, dic, cur)
                for i, g in enumerate(dic):
                    check(len(g.points_list) == len(model[i]), lambda: f'{len(g.points_list)} lines in grain {i} for {len(model[i])}')
                    for l, (pts, a) in zip(g.points_list, model[i]):
                        close(l[0], pts, 0.0051, 'ends of the line')
                        dev = abs(l[1] - a)
                        check(min(dev, 180 - dev) < 0.0051 and 0 <= l[1] <= 180, lambda: f'angle {l[1]} for {a}')
                    n = judge(g)
                    nt = nt or n > 1
                    for (j, k), v in rdr.items():
                        if j == i:
                            check(g.groups_list[k][4] == v, 'stored displacement ratio')
            return nt
        finally:
            path.unlink(missing_ok=True)


def judge_sta(text, dic):
    rows = [t.split('\t') for t in text.splitlines() if '\t' in t][1:]
    want = [(i, g, k) for i, g in enumerate(dic) for k in ((g.groups_list or []) if g.points_list else [])]
    check(len(rows) == len(want), lambda: f'{len(rows)} rows for {len(want)} groups')
    for r, (i, g, k) in zip(rows, want):
        check(len(r) == 10, lambda: f'row {r}')
        check(int(r[0]) == i and int(r[5]) == k[0], lambda: f'row {r} for grain {i} group {k[0]}')
        e = np.rad2deg(g.ebsd_grain.ref_ori.euler_angles())
        close(np.array(r[1:4], float), e, 0.051, 'Euler angles')
        sf = max(s for p in g.ebsd_grain.average_schmid_factors for s in p)
        close(float(r[4]), sf, 0.00051, 'greatest Schmid factor')
        close(float(r[6]), k[1], 0.051, 'angle')
        check(ast.literal_eval(r[7]) == list(k[2]), 'systems')
        close(float(r[9]), k[4], 0.0051, 'displacement ratio')


CACHE = {}


def inspector():
    """One map with a few grains, opened once per run."""
    if not CACHE:
        case = dict(spec=dict(shape=(8, 8), layout='voronoi', n=3, seed=5, phases=['HEX'], nonindexed=False,
                              oris=[(0.1, 0.2, 0.3), (1., 1., 1.), (2., .5, 1.)], pid=[1, 1, 1], spread=0.,
                              step=1., specks=0.),
                    tf=dict(A=[[2, 0], [0, 2]], t=(0, 0)), shape=(16, 16), crop=(0, 0, 0, 0), npts=5, seed=3,
                    type='affine')
        with P.headless(), contextlib.redirect_stdout(io.StringIO()):
            L = open_maps(case)
            CACHE['gi'] = GrainInspector(L.dic, 0.5)
    return CACHE['gi']


@sub(st.lists(st.tuples(st.sampled_from(['any', 'near', 'near', 'edge']), S.fl(0, 179.99), S.fl(-13, 13)),
              min_size=1, max_size=14).flatmap(lambda l: st.tuples(
                  st.just(l), st.lists(st.integers(0, 20), max_size=6))), 200, 10000)
def grouping(case):
    """Angles grouped and regrouped after removals; at least three lines and two groups."""
    raw, removals = case
    gi = inspector()
    angles = []
    for kind, a, d in raw:
        if kind == 'near' and angles:
            a = (angles[-1] + d) % 180
        elif kind == 'edge' and angles:
            a = (angles[0] + (10 if d > 0 else -10) + round(d) * 0.01) % 180
        angles.append(round(a, 2))
    for g in gi.selected_dic_map:
        g.points_list, g.groups_list = [], []
    g = gi.selected_dic_map[len(raw) % len(gi.selected_dic_map)]
    g.points_list = [[[0., 0., 1., 1.], a, -1] for a in angles]
    gi.group_lines(g)
    n = judge(g)
    most = n
    for r in removals:
        if not g.points_list:
            break
        del g.points_list[r % len(g.points_list)]
        del angles[r % len(angles)]
        gi.group_lines(g)
        most = max(most, judge(g))
        same([l[1] for l in g.points_list], angles, 'angles of the lines')
    for o in gi.selected_dic_map:
        check(o is g or (not o.points_list and not o.groups_list), 'lines in another grain')
    return len(raw) > 2 and most > 1
