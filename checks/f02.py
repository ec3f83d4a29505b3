import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from defdap import ebsd
from defdap.file_readers import EBSDDataLoader
from lib.framework import sub, check, close, same
from lib import strats as S
from lib import files as F
from lib import maps as M

COLS = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']
NEED = ['Phase', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']


def load(arg, data_type=None):
    """(map, loader) from the same input."""
    with contextlib.redirect_stdout(io.StringIO()):
        m = ebsd.Map(arg, data_type=data_type)
        ld = EBSDDataLoader.get_loader(data_type, arg)
        ld.load(arg)
    return m, ld


def expect(m, ld, a, what, phases=True, euler=None, tol=None):
    c = a.c
    h, w = a.shape
    check(tuple(m.shape) == a.shape and (m.y_dim, m.x_dim) == a.shape,
          f'{what}: shape {m.shape}, expected {a.shape}')
    close(m.step_size, c['step'], 1e-9, f'{what}: step size')
    same(m.data.phase, a.phase, f'{what}: phase')
    close(m.data.euler_angle, a.rad() if euler is None else euler, 1e-6 if tol is None else tol,
          f'{what}: Euler angles')
    # the orientations are those of the angles
    q = m.data.orientation
    check(q.shape == a.shape, f'{what}: orientation shape')
    for y, x in {(0, 0), (h - 1, w - 1), (h // 2, w // 3)}:
        e = (a.rad() if euler is None else euler)[:, y, x]
        close(q[y, x].rot_matrix(), S.rot_euler(*e), 1e-5, f'{what}: orientation at {(y, x)}')
    check(m.num_phases == len(c['phases']), f'{what}: number of phases {m.num_phases}')
    for p, (name, lg, sg, lat) in zip(m.phases, c['phases']):
        check(p.name == name, f'{what}: phase name {p.name!r}, expected {name!r}')
        check(p.laue_group == lg, f'{what}: Laue group {p.laue_group}')
        if phases:
            check((p.spaceGroup or 0) == sg, f'{what}: space group {p.spaceGroup}, expected {sg}')
        want = {9: 'hexagonal', 11: 'cubic'}[lg]
        check(p.crystal_structure.name == want, f'{what}: crystal structure')
        close(p.lattice_params[:3], lat[:3], 5e-7, f'{what}: lattice lengths')
        close(np.rad2deg(p.lattice_params[3:]), lat[3:], 5e-7, f'{what}: lattice angles')
    check([p.name for p in ld.loaded_metadata['phases']] == [p.name for p in m.phases],
          f'{what}: loader phases')


def expect_acq(ld, acq, what):
    got = ld.loaded_metadata['acquisition_rotation'].rot_matrix()
    close(got, S.rot_euler(*np.deg2rad(acq)), 1e-5, f'{what}: acquisition rotation')


def quality(m, a, what):
    same(m.data.band_contrast, a.bc, f'{what}: band contrast')
    same(m.data.band_slope, a.bs, f'{what}: band slope')
    close(m.data.mean_angular_deviation, a.mad, 1e-6, f'{what}: mean angular deviation')


@st.composite
def ctf_cases(draw):
    c = draw(F.ebsd_content())
    order = draw(st.one_of(st.none(), st.permutations(COLS)))
    if order is not None and draw(st.booleans()):
        dropped = draw(st.sets(st.sampled_from(['X', 'Y', 'Bands', 'Error'])))
        order = [k for k in order if k not in dropped]
    return c, order, draw(st.sampled_from(['.ctf', '.ctf', '.txt']))


@sub(ctf_cases(), 200, 6000)
def oxford_text(case):
    """.ctf with more than one point and (columns reordered, several phases or acquisition
    rotation)."""
    c, order, suffix = case
    a = F.EbsdArrays(c)
    path = M.scratch(suffix)
    try:
        F.write_ctf(path, a, cols=order)
        m, ld = load(path, None if suffix == '.ctf' else 'OxfordText')
    finally:
        path.unlink(missing_ok=True)
    expect(m, ld, a, 'ctf', tol=2e-6)
    expect_acq(ld, c['acq'], 'ctf')
    quality(m, a, 'ctf')
    return c['h'] * c['w'] > 1 and (order is not None or len(c['phases']) > 1 or any(c['acq']))


@st.composite
def crc_cases(draw):
    c = draw(F.ebsd_content())
    opt = draw(st.lists(st.sampled_from([10, 11, 12]), unique=True))
    edx = draw(st.one_of(st.none(), st.lists(st.sampled_from(['Fe', 'Ni', 'Ti K', 'Al1']),
                                             unique=True, max_size=3)))
    if draw(st.integers(0, 14)) == 7:
        edx = ['E%d' % i for i in draw(st.permutations(list(range(11))))]
    unknown = draw(st.lists(st.sampled_from([1, 2, 9, 13, 14, 20, 55]), unique=True, max_size=3))
    win = [101 + i for i in range(len(edx or []))]
    fields = draw(st.permutations([3, 4, 5, 6, 7, 8] + opt + unknown + win))
    return dict(c=c, fields=list(fields), edx=edx, unknown=unknown,
                comments=draw(st.booleans()), order=draw(st.one_of(st.none(), st.integers(0, 999))),
                sg=draw(st.booleans()), via=draw(st.sampled_from(['.crc', '.cpr', ''])))


@sub(crc_cases(), 250, 8000)
def oxford_binary(case):
    """.cpr/.crc with reordered, unknown or EDX fields, comments or reordered groups."""
    c = case['c']
    a = F.EbsdArrays(c)
    path = M.scratch('.crc')
    try:
        ext, _ = F.write_cpr(path, a, case['fields'], edx=case['edx'], comments=case['comments'],
                             order=case['order'], space_group=case['sg'])
        arg = path.with_suffix(case['via'])
        m, ld = load(arg)
    finally:
        path.unlink(missing_ok=True)
        path.with_suffix('.cpr').unlink(missing_ok=True)
    if not case['sg']:
        c = dict(c, phases=[(n, lg, 0, lat) for n, lg, _, lat in c['phases']])
        a.c = c
    expect(m, ld, a, 'crc')
    expect_acq(ld, c['acq'], 'crc')
    quality(m, a, 'crc')
    names = {k for k in m.data.keys() if k.startswith('EDX')}
    check(names == {f'EDX {n}' for n in case['edx'] or []}, f'EDX maps {names}')
    for i, n in enumerate(case['edx'] or []):
        same(m.data[f'EDX {n}'], ext[101 + i], f'EDX counts of {n}')
    check(ld.loaded_metadata['edx']['Count'] == len(case['edx'] or []), 'EDX count')
    return 'unknown' if case['unknown'] else 'edx' if case['edx'] else 'plain'


@sub(F.ebsd_content(), 200, 6000)
def edax(case):
    """.ang with more than one point."""
    c = case
    a = F.EbsdArrays(c)
    a.phase = np.maximum(a.phase, 1)
    path = M.scratch('.ang')
    try:
        F.write_ang(path, a)
        m, ld = load(path)
    finally:
        path.unlink(missing_ok=True)
    c = dict(c, phases=[(n.split()[0], lg, sg, lat) for n, lg, sg, lat in c['phases']])
    a.c = c
    e = a.rad()
    got = m.data.euler_angle
    check((np.asarray(got[0]) >= 0).all() and (np.asarray(got[0]) < 2 * np.pi + 1e-6).all(),
          'first Euler angle outside [0, 360)')
    e[0] = (e[0] - np.pi / 2) % (2 * np.pi)
    # compare modulo a full turn (printed precision at the wrap)
    d = (np.asarray(got[0], float) - e[0] + np.pi) % (2 * np.pi) - np.pi
    e[0] = np.asarray(got[0], float) - d
    expect(m, ld, a, 'ang', phases=False, euler=e, tol=2e-5)
    close(m.data.image_quality, a.extra[0], 6e-4, 'image quality')
    close(m.data.confidence_index, a.mad / 2, 6e-4, 'confidence index')
    close(m.data.fit_factor, a.extra[1] / 1000, 6e-4, 'fit')
    return c['h'] * c['w'] > 1


@sub(st.tuples(F.ebsd_content(), st.sampled_from(['pythondict', 'PythonDict'])), 80, 2000)
def dictionary(case):
    """In-memory map with more than one point."""
    c, kind = case
    from defdap.crystal import Phase
    a = F.EbsdArrays(c)
    d = dict(step_size=c['step'], phase=a.phase, euler_angle=a.rad(), band_contrast=a.bc,
             phases=[Phase(n, lg, sg, lat[:3] + tuple(np.deg2rad(lat[3:])))
                     for n, lg, sg, lat in c['phases']])
    m, ld = load(d, kind)
    expect(m, ld, a, 'dict', tol=1e-12)
    same(m.data.band_contrast, a.bc, 'band contrast')
    return c['h'] * c['w'] > 1


@sub(F.ebsd_content(hmax=4, wmax=4), 80, 2500)
def same_in_every_format(case):
    """One dataset written in three formats loads to the same orientations."""
    a = F.EbsdArrays(case)
    a.phase = np.maximum(a.phase, 1)
    paths = [M.scratch('.ctf'), M.scratch('.crc'), M.scratch('.ang')]
    try:
        F.write_ctf(paths[0], a)
        F.write_cpr(paths[1], a, [3, 4, 5, 6, 7, 8])
        b = F.EbsdArrays(case)
        b.phase = a.phase
        b.deg[0] += 90
        F.write_ang(paths[2], b)
        ms = [load(p)[0] for p in paths]
    finally:
        for p in paths + [paths[1].with_suffix('.cpr')]:
            p.unlink(missing_ok=True)
    ref = ms[1].data.orientation
    for m, n in ((ms[0], 'ctf'), (ms[2], 'ang')):
        same(m.data.phase, ms[1].data.phase, f'{n} and crc phases')
        o = m.data.orientation
        for i in np.ndindex(a.shape):
            close(o[i].rot_matrix(), ref[i].rot_matrix(), 4e-5, f'{n} and crc orientation at {i}')
    return True
