import contextlib
import io
import math
import pathlib

import numpy as np
from hypothesis import strategies as st
import defdap
from defdap.crystal import Phase, SlipSystem, crystalStructures
from lib.framework import sub, check, close, raises
from lib import strats as S, maps as M

SHIPPED = {'cubic_bcc': 'cubic', 'cubic_bcc_110only': 'cubic', 'cubic_fcc': 'cubic',
           'cubic_fcc_damask': 'cubic', 'hexagonal_noca': 'hexagonal',
           'hexagonal_withca': 'hexagonal'}


def reduced(v):
    g = math.gcd(*v)
    return tuple(x // g for x in v)


def four(v):
    return (v[0], v[1], -v[0] - v[1], v[2])


@st.composite
def systems(draw, sym, big=4):
    """(plane, dir) of reduced integer indices; mostly with the direction in the plane."""
    i = st.integers(-big, big)
    p = reduced(draw(st.tuples(i, i, i).filter(any)))
    d = reduced(draw(st.tuples(i, i, i).filter(any)))
    if draw(st.booleans()):
        # direction in the plane: indices (hu + kv + lw = 0 in Miller indices)
        e = np.cross(p, d)
        if e.any():
            d = reduced(tuple(int(x) for x in e))
    if sym == 'cubic':
        return p, d
    dm = d
    d4 = reduced((2 * dm[0] - dm[1], 2 * dm[1] - dm[0], -dm[0] - dm[1], 3 * dm[2]))
    if max(map(abs, d4)) > 12:           # indices (and products) are kept in 8 bits
        d4 = (2, -1, -1, 3)
    return four(p), d4


def cart(plane, d, sym, ca):
    """Unit plane normal and direction in Cartesian coordinates."""
    if sym == 'cubic':
        return S.uvec(plane), S.uvec(d)
    # columns a b c with b along y (HKL convention, the default) or a along x (TSL)
    a = np.array({'hkl': [[3 ** .5 / 2, -.5, 0], [0, 1, 0], [0, 0, ca]],
                  'tsl': [[1, 0, 0], [-.5, 3 ** .5 / 2, 0], [0, 0, ca]]}[
        defdap.defaults['crystal_ortho_conv']], dtype=float).T
    star = np.linalg.inv(a).T
    # four axis directions: u a1 + v a2 + t a3 + w c with a3 = -a1 - a2
    dm = (d[0] - d[2], d[1] - d[2], d[3])
    pm = (plane[0], plane[1], plane[3])
    return S.uvec(star @ pm), S.uvec(a @ dm)


def line_same(a, b, tol=1e-6):
    return abs(abs(a @ b) - 1) < tol


def related(x, y, sym):
    """Is some symmetry operation taking plane and direction of x onto those of y (as lines)?"""
    return any(line_same(m @ x[0], y[0]) and line_same(m @ x[1], y[1]) for m in S.SYM[sym])


def orbit(x, sym):
    out = []
    for m in S.SYM[sym]:
        y = (m @ x[0], m @ x[1])
        if not any(line_same(y[0], z[0]) and line_same(y[1], z[1]) for z in out):
            out.append(y)
    return out


def ints(v):
    return tuple(int(x) for x in v)


def judge_system(ss, plane, d, sym, ca, msg):
    check(ints(ss.plane_idc) == plane and ints(ss.dir_idc) == d,
          lambda: f'{msg}: {ss.plane_idc} {ss.dir_idc}, expected {plane} {d}')
    p, v = cart(plane, d, sym, ca)
    close(ss.slip_plane, p, 1e-7, f'{msg}: plane normal of {plane}')
    close(ss.slip_dir, v, 1e-7, f'{msg}: direction of {d}')
    check(ss.crystal_structure is crystalStructures[sym], 'structure')


def write(path, rows, colours, comment='# Plane normal then slip direction'):
    with open(path, 'w') as f:
        f.write(comment + '\n' + ','.join(colours) + '\n')
        for p, d in rows:
            f.write('\t'.join(str(x) for x in p + d) + '\n')


@st.composite
def files(draw):
    sym = draw(S.sym_name)
    rows = draw(st.lists(systems(sym, draw(st.sampled_from([1, 1, 2, 4]))), min_size=1,
                         max_size=10))
    if draw(st.booleans()):
        # whole or partial orbits: related systems and shared planes
        ops = draw(st.lists(st.integers(0, 23), min_size=1, max_size=4))
        if sym == 'cubic':
            rows += [(ints(np.round(S.SYM[sym][k] @ p)), ints(np.round(S.SYM[sym][k] @ d)))
                     for k in ops for p, d in rows[:3]]
        else:
            perm = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
            rows += [(tuple(p[i] for i in perm[k % 3]) + (p[3],),
                      tuple(d[i] for i in perm[k % 3]) + (d[3],)) for k in ops for p, d in rows[:3]]
    if draw(st.integers(0, 5)) == 0:
        # many directions of one plane
        p = rows[0][0]
        dirs = [d for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (1, 0, 1),
                            (0, 1, 1), (1, 1, 1), (2, 1, 0), (1, 2, 0))]
        if sym == 'hexagonal':
            dirs = [reduced((2 * u - v, 2 * v - u, -u - v, 3 * w)) for u, v, w in dirs]
        rows += [(p, d) for d in dirs]
    rows = list(dict.fromkeys(rows))
    rows = draw(st.permutations(rows))
    return sym, rows, draw(st.lists(st.sampled_from(['red', 'blue', 'white', '#00ff00']),
                                    min_size=1, max_size=6)), draw(S.fl(1.2, 2.))


@sub(st.tuples(files(), st.sampled_from(['plane', 'family', 'Family', None]), st.booleans()),
     quick=250, thorough=6000)
def file_round_trip(case):
    """Non-trivial: more systems than one."""
    (sym, rows, colours, ca), group_by, as_path = case
    path = M.scratch('.txt')
    write(path, rows, colours)
    try:
        got, cols = SlipSystem.load(path if as_path else str(path), crystalStructures[sym],
                                    c_over_a=ca if sym == 'hexagonal' else None,
                                    group_by=group_by)
    finally:
        path.unlink()
    check(list(cols) == colours, lambda: f'colours {cols}')
    if group_by is None:
        check(len(got) == len(rows), 'number of systems')
        for s, (p, d) in zip(got, rows):
            judge_system(s, p, d, sym, ca, 'loaded')
        return len(rows) > 1
    flat = [s for g in got for s in g]
    order = [rows.index((ints(s.plane_idc), ints(s.dir_idc))) for s in flat]
    check(sorted(order) == list(range(len(rows))), lambda: f'systems {order} of {len(rows)} rows')
    firsts, pos = [], 0
    for g in got:
        idx = order[pos:pos + len(g)]
        pos += len(g)
        check(idx == sorted(idx), 'file order lost within a group')
        firsts.append(idx[0])
    check(firsts == sorted(firsts), 'file order of groups lost')
    vec = [cart(p, d, sym, ca) for p, d in rows]
    of = {}
    pos = 0
    for k, g in enumerate(got):
        for s in g:
            of[order[pos]] = k
            judge_system(s, *rows[order[pos]], sym, ca, 'grouped')
            pos += 1
    for i in range(len(rows)):
        for j in range(i):
            together = line_same(vec[i][0], vec[j][0]) if group_by == 'plane' \
                else related(vec[i], vec[j], sym)
            check((of[i] == of[j]) == together,
                  lambda: f'{rows[i]} and {rows[j]} grouped by {group_by}: {of[i] == of[j]}')
    return len(rows) > 1


@st.composite
def one(draw):
    sym = draw(S.sym_name)
    return sym, draw(systems(sym)), draw(S.fl(1.2, 2.)), draw(st.integers(0, 47))


@sub(one(), quick=300, thorough=8000)
def family(case):
    """The whole orbit, the same from every member. Non-trivial: more than one member."""
    sym, (p, d), ca, pick = case
    cs = crystalStructures[sym]
    ca = ca if sym == 'hexagonal' else None
    ss = SlipSystem(np.array(p), np.array(d), cs, c_over_a=ca)
    judge_system(ss, p, d, sym, ca, 'made')
    fam = list(ss.generate_family())
    want = orbit(cart(p, d, sym, ca), sym)
    check(len(fam) == len(want), lambda: f'{len(fam)} members, orbit has {len(want)}: {fam}')
    for s in fam:
        check(abs(np.linalg.norm(s.slip_plane) - 1) < 1e-9
              and abs(np.linalg.norm(s.slip_dir) - 1) < 1e-9, 'unit vectors')
        v = cart(ints(s.plane_idc), ints(s.dir_idc), sym, ca)
        check(line_same(v[0], s.slip_plane) and line_same(v[1], s.slip_dir),
              'member vectors differ from its indices')
        check(math.gcd(*ints(s.plane_idc)) == 1 and math.gcd(*ints(s.dir_idc)) == 1,
              f'member {s} not reduced')
        check(any(line_same(s.slip_plane, y[0]) and line_same(s.slip_dir, y[1]) for y in want),
              f'{s} is not related to {ss}')
    for y in want:
        check(any(line_same(s.slip_plane, y[0]) and line_same(s.slip_dir, y[1]) for s in fam),
              'a symmetric equivalent is missing')
    check(ss in fam, 'generator missing from its family')
    other = fam[pick % len(fam)]
    check(set(other.generate_family()) == set(fam), f'family of {other} differs from that of {ss}')
    return len(fam) > 1


@st.composite
def two(draw):
    sym = draw(S.sym_name)
    return sym, draw(systems(sym, 2)), draw(systems(sym, 2)), \
        draw(st.integers(0, 5)), draw(st.sampled_from([(1, 1), (-1, 1), (1, -1), (-1, -1)]))


@sub(two(), quick=400, thorough=10000)
def identity(case):
    """Systems are equal iff the same plane and direction as lines. Non-trivial: always."""
    sym, x, y, how, (sp, sd) = case
    ca = 1.6 if sym == 'hexagonal' else None
    if how < 2:
        y = (tuple(sp * i for i in x[0]), tuple(sd * i for i in x[1]))
    elif how == 2:
        y = (x[0], y[1])
    a, b = [SlipSystem(np.array(p), np.array(d), crystalStructures[sym], c_over_a=ca)
            for p, d in (x, y)]
    want = all(u == v or u == tuple(-i for i in v) for u, v in zip(x, y))
    check((a == b) is want, lambda: f'{a} == {b}: {a == b}')
    if want:
        check(hash(a) == hash(b), 'equal but hashes differ')
    return True


@sub(st.tuples(st.sampled_from(sorted(SHIPPED)), S.fl(1.2, 2.)), quick=60, thorough=600)
def shipped(case):
    """Every shipped file. Non-trivial: always."""
    name, ca = case
    sym = SHIPPED[name]
    ca = ca if sym == 'hexagonal' else None
    cs = crystalStructures[sym]
    path = pathlib.Path(defdap.__file__).parent / 'slip_systems' / f'{name}.txt'
    n = 3 if sym == 'cubic' else 4
    lines = path.read_text().splitlines()
    rows = [tuple(int(x) for x in ln.split()) for ln in lines[2:] if ln.strip()]
    rows = [(r[:n], r[n:]) for r in rows]
    got, cols = SlipSystem.load(name, cs, c_over_a=ca, group_by=None)
    check(len(got) == len(rows) == len(set(got)), 'systems missing or repeated')
    for s, (p, d) in zip(got, rows):
        judge_system(s, p, d, sym, ca, name)
        close(s.slip_plane @ s.slip_dir, 0, 1e-9, f'{s}: direction not in the plane')
        if n == 4:
            check(p[0] + p[1] + p[2] == 0 and d[0] + d[1] + d[2] == 0, f'redundant index of {s}')
    fams, _ = SlipSystem.load(name, cs, c_over_a=ca, group_by='family')
    for f in fams:
        check(len(f) == len(f[0].generate_family()), f'family of {f[0]} incomplete in {name}')
    return True


@sub(st.tuples(files(), st.sampled_from(sorted(SHIPPED)), st.booleans()), quick=60, thorough=600)
def namesakes(case):
    """A user's own file in its own folder, named as one of the shipped ones, used directly or
    as the default of a phase. Non-trivial: always."""
    (sym, rows, colours, ca), name, direct = case
    folder = M.scratch('')
    folder.mkdir()
    path = folder / name
    write(path, rows, colours)
    ca = ca if sym == 'hexagonal' else None
    old = dict(defdap.defaults['slip_system_file'])
    out = io.StringIO()
    try:
        if direct:
            groups, cols = SlipSystem.load(str(path), crystalStructures[sym], c_over_a=ca)
        else:
            defdap.defaults['slip_system_file']['HCP' if ca else 'FCC'] = str(path)
            h = np.pi / 2
            ph = Phase('name', 9 if ca else 11, 225,
                       (1, 1, ca, h, h, 2 * np.pi / 3) if ca else (1, 1, 1, h, h, h))
            groups, cols = ph.slip_systems, ph.slip_trace_colours
            with contextlib.redirect_stdout(out):
                ph.print_slip_systems()
            check(ph.ss_file == str(path), f'file of the phase: {ph.ss_file}')
    finally:
        defdap.defaults['slip_system_file'].update(old)
        path.unlink()
        folder.rmdir()
    check(list(cols) == colours, lambda: f'colours {cols}, file has {colours}')
    check(sorted((ints(s.plane_idc), ints(s.dir_idc)) for g in groups for s in g) == sorted(rows),
          'systems are not those of the file')
    if not direct:
        # every plane is listed with its colour, the last one again when there are too few
        lines = iter(out.getvalue().splitlines())
        for i, g in enumerate(groups):
            line = next(lines)
            want = colours[min(i, len(colours) - 1)]
            check(g[0].slip_plane_label in line and line.split(':')[-1].strip() == want,
                  lambda: f'plane {i} printed as {line!r}, colour {want}')
            for s in g:
                check(s.slip_dir_label in next(lines), 'direction printed')
    return True


@sub(st.tuples(st.sampled_from(['columns', 'missing', 'group', 'ca', 'laue']), S.sym_name,
               st.integers(1, 9), st.integers(1, 4), st.integers(-3, 30)), quick=120,
     thorough=1000)
def refused(case):
    """Invalid definitions. Non-trivial: always."""
    what, sym, cols, rows, laue = case
    cs = crystalStructures[sym]
    ca = 1.6 if sym == 'hexagonal' else None
    path = M.scratch('.txt')
    if what == 'columns':
        good = 6 if sym == 'cubic' else 8
        cols = cols if cols != good else 14 - good
        path.write_text('# x\nred\n' + ('\t'.join(['1'] * cols) + '\n') * rows)
        try:
            raises(IOError, lambda: SlipSystem.load(path, cs, c_over_a=ca),
                   f'file with {cols} columns accepted for {sym}')
        finally:
            path.unlink()
    elif what == 'missing':
        raises(FileNotFoundError, lambda: SlipSystem.load(str(path), cs, c_over_a=ca), 'no file')
    elif what == 'group':
        name = 'cubic_fcc' if sym == 'cubic' else 'hexagonal_noca'
        raises(ValueError, lambda: SlipSystem.load(name, cs, c_over_a=ca, group_by='direction'),
               'unknown grouping')
    elif what == 'ca':
        raises(Exception, lambda: SlipSystem.load('hexagonal_noca', crystalStructures['hexagonal']),
               'hexagonal systems without an axial ratio')
    elif laue not in (9, 11):
        raises(ValueError, lambda: Phase('x', laue, 225, (1, 1, 1, 1.5, 1.5, 1.5)),
               f'Laue group {laue}')
    return True


@sub(st.tuples(st.sampled_from([9, 11]), st.sampled_from([225, 229, 0, 194, 221]), S.fl(1, 6),
               S.fl(1.2, 2.), st.sampled_from([None, 'FCC', 'BCC', 'HCP'])), quick=150,
     thorough=2000)
def phases(case):
    """The definition a phase gets, its axial ratio and changed defaults. Non-trivial: has slip
    systems."""
    laue, sg, a, ca, change = case
    sym = 'hexagonal' if laue == 9 else 'cubic'
    rad = np.pi / 2
    lattice = (a, a, a * ca, rad, rad, 2 * np.pi / 3) if laue == 9 else (a, a, a, rad, rad, rad)
    files = {'FCC': 'cubic_fcc', 'BCC': 'cubic_bcc', 'HCP': 'hexagonal_withca'}
    other = {'FCC': 'cubic_fcc_damask', 'BCC': 'cubic_bcc_110only', 'HCP': 'hexagonal_noca'}
    old = dict(defdap.defaults['slip_system_file'])
    try:
        if change:
            defdap.defaults['slip_system_file'][change] = files[change] = other[change]
        ph = Phase('name', laue, sg, lattice)
    finally:
        defdap.defaults['slip_system_file'].update(old)
    check(ph.crystal_structure.name == sym, 'structure')
    check(tuple(ph.lattice_params) == lattice and ph.name == 'name', 'attributes')
    want = files['HCP'] if laue == 9 else {225: files['FCC'], 229: files['BCC']}.get(sg)
    check(ph.ss_file == want, f'{ph.ss_file}, expected {want}')
    if laue == 9:
        close(ph.c_over_a, ca, 1e-9, 'axial ratio')
    else:
        check(ph.c_over_a is None, 'axial ratio of a cubic phase')
    if want is None:
        check(ph.slip_systems is None, 'slip systems')
        return False
    exp, cols = SlipSystem.load(want, crystalStructures[sym],
                                c_over_a=ca if laue == 9 else None, group_by=None)
    flat = [s for g in ph.slip_systems for s in g]
    check(sorted(map(str, flat)) == sorted(map(str, exp)), 'systems')
    check(ph.slip_trace_colours == cols, 'colours')
    for g in ph.slip_systems:
        for s in g:
            judge_system(s, ints(s.plane_idc), ints(s.dir_idc), sym, ca, 'phase')
            check(line_same(s.slip_plane, g[0].slip_plane), 'group of several planes')
    # the printed list names every plane and direction in order
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ph.print_slip_systems()
    lines = out.getvalue().splitlines()
    labels = []
    for g in ph.slip_systems:
        labels += [g[0].slip_plane_label] + [s.slip_dir_label for s in g]
    check(len(lines) == len(labels) and all(a in b for a, b in zip(labels, lines)),
          lambda: f'{len(lines)} lines printed for {len(labels)} planes and directions')
    return True
