"""Writers of data files with known contents, independent of the code under test."""
import numpy as np
from hypothesis import strategies as st

from lib import maps as M
from lib import strats as S

ACQ = st.tuples(*[st.integers(0, 3600).map(lambda i: i / 10)] * 3)


# --------------------------------------------------------------------------- EBSD
CRC_FIELDS = {3: ('e1', '<f4'), 4: ('e2', '<f4'), 5: ('e3', '<f4'), 6: ('mad', '<f4'),
              7: ('bc', 'u1'), 8: ('bs', 'u1'), 10: ('bands', 'u1'), 11: ('afi', 'u1'),
              12: ('ib6', '<f4')}
LATTICES = {
    'cubic': st.integers(2000, 6000).map(lambda a: (a / 1000,) * 3 + (90., 90., 90.)),
    'hexagonal': st.tuples(st.integers(2000, 4000), st.integers(3000, 7000)).map(
        lambda t: (t[0] / 1000, t[0] / 1000, t[1] / 1000, 90., 90., 120.)),
}


@st.composite
def file_phase(draw):
    """(name, laue group, space group, lattice (a, b, c, alpha, beta, gamma) in A, deg)."""
    laue = draw(st.sampled_from([11, 11, 9]))
    sg = draw(st.sampled_from([225, 229, 225, 229, 221] if laue == 11 else [194, 194, 0]))
    name = draw(st.sampled_from(['Nickel', 'Ni-superalloy', 'Ti alpha', 'Iron bcc (old)', 'a',
                                 'Phase 2', 'X']))
    return name, laue, sg, draw(LATTICES['cubic' if laue == 11 else 'hexagonal'])


def dims(draw, lo, hmax, wmax):
    """Mostly small sizes; now and then more than 256 rows or columns."""
    h, w = draw(st.integers(lo, hmax)), draw(st.integers(lo, wmax))
    if draw(st.integers(0, 24)) == 13:
        h, w = draw(st.integers(257, 600)), min(w, 4)
        if draw(st.booleans()):
            h, w = w, h
    return h, w


@st.composite
def ebsd_content(draw, hmax=6, wmax=6, bc_max=255):
    """Contents of an EBSD file; Euler angles in integer thousandths of a degree."""
    h, w = dims(draw, 1, hmax, wmax)
    if draw(st.integers(0, 14)) == 7:
        phases = draw(st.lists(file_phase(), min_size=10, max_size=13))
    else:
        phases = draw(st.lists(file_phase(), min_size=1, max_size=3))
    return dict(h=h, w=w, phases=phases, step=draw(st.integers(1, 50000)) / 10000,
                acq=draw(st.one_of(st.just((0., 0., 0.)), ACQ)),
                seed=draw(st.integers(0, 2 ** 31 - 1)),
                full=draw(st.booleans()),      # values reach the ends of their ranges
                lo=draw(st.integers(0, 1)),
                zeros=draw(st.one_of(st.just(0), st.integers(0, 15))))


class EbsdArrays:
    def __init__(self, c):
        h, w = self.shape = (c['h'], c['w'])
        rng = np.random.RandomState(c['seed'])
        self.c = c
        self.phase = rng.randint(c['lo'], len(c['phases']) + 1, (h, w)).astype(np.uint8)
        self.deg = np.array([rng.randint(0, 360000, (h, w)), rng.randint(0, 180001, (h, w)),
                             rng.randint(0, 360000, (h, w))]) / 1000
        self.bc, self.bs = (rng.randint(0, 256, (2, h, w))).astype(np.uint8)
        if c['full']:
            self.bc.flat[0], self.bc.flat[-1] = 255, 0
        self.mad = (rng.randint(0, 20000, (h, w)) / 10000)
        self.bands = rng.randint(0, 16, (h, w)).astype(np.uint8)
        self.extra = rng.uniform(0, 1000, (20, h, w)).astype('f4')
        # columns that hold nothing but zeros (as in files written by other programs)
        for bit, col in enumerate((self.bc, self.bs, self.mad, self.bands)):
            if c.get('zeros', 0) >> bit & 1:
                col[...] = 0

    def rad(self):
        return np.deg2rad(self.deg)


def write_ctf(path, a, cols=None, y_dim=None, x_dim=None, drop=0, header=None, extra=()):
    """cols: column order."""
    c = a.c
    h, w = a.shape
    cols = cols or ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD',
                    'BC', 'BS']
    yy, xx = np.mgrid[:h, :w]
    src = {
        'Phase': [str(p) for p in a.phase.flat], 'X': [f'{x * c["step"]:.4f}' for x in xx.flat],
        'Y': [f'{y * c["step"]:.4f}' for y in yy.flat], 'Bands': [str(b) for b in a.bands.flat],
        'Error': ['0' if p else '3' for p in a.phase.flat],
        'Euler1': [f'{e:.3f}' for e in a.deg[0].flat], 'Euler2': [f'{e:.3f}' for e in a.deg[1].flat],
        'Euler3': [f'{e:.3f}' for e in a.deg[2].flat], 'MAD': [f'{m:.4f}' for m in a.mad.flat],
        'BC': [str(b) for b in a.bc.flat], 'BS': [str(b) for b in a.bs.flat]}
    lines = ['Channel Text File', 'Prj\tsome project', 'Author\t', 'JobMode\tGrid',
             f'XCells\t{w if x_dim is None else x_dim}',
             f'YCells\t{h if y_dim is None else y_dim}', f'XStep\t{c["step"]:.4f}',
             f'YStep\t{c["step"]:.4f}', *(f'AcqE{i + 1}\t{c["acq"][i]:.4f}' for i in range(3))]
    lines += list(extra)
    lines += ['Euler angles refer to Sample Coordinate system (CS0)!\tMag\t800.0000\tCoverage\t100',
              f'Phases\t{len(c["phases"])}']
    for name, laue, sg, lat in c['phases']:
        lines.append('{:.3f};{:.3f};{:.3f}\t{:.3f};{:.3f};{:.3f}\t'.format(*lat)
                     + f'{name}\t{laue}\t{sg}\t\t\tsome reference')
    lines.append('\t'.join(header or cols))
    rows = ['\t'.join(src[k][i] for k in cols) for i in range(h * w)]
    if drop > 0:
        rows = rows[:-drop]
    elif drop < 0:
        rows = rows + rows[drop:]
    path.write_text('\n'.join(lines + rows) + '\n')


def write_ang(path, a, grid='SqrGrid', y_dim=None, x_dim=None, drop=0, sym=None, number=None):
    """Euler angles (deg) are those in the EDAX frame."""
    c = a.c
    h, w = a.shape
    out = ['# TEM_PIXperUM          1.000000', '# x-star                0.480000', '#']
    for i, (name, laue, sg, lat) in enumerate(c['phases']):
        group = sym if sym is not None and i == 0 else \
            {9: '6/mmm', 11: '43' if sg == 225 else 'm3m'}[laue]
        out += [f'# Phase {i + 1 if number is None else number + i}',
                f'# MaterialName  \t{name.split()[0]}', '# Formula     \tNi', '# Info \t\t',
                f'# Symmetry              {group}',
                '# LatticeConstants      {:.3f} {:.3f} {:.3f}  {:.3f}  {:.3f} {:.3f}'.format(*lat),
                '# NumberFamilies        4', '# hklFamilies   \t 1  1  1 1 0.000000 1',
                '# Categories0 0 0 0 0 ', '#']
    out += [f'# GRID: {grid}', f'# XSTEP: {c["step"]:.6f}', f'# YSTEP: {c["step"]:.6f}',
            f'# NCOLS_ODD: {w if x_dim is None else x_dim}',
            f'# NCOLS_EVEN: {w if x_dim is None else x_dim}',
            f'# NROWS: {h if y_dim is None else y_dim}', '#', '# OPERATOR: \tx', '#',
            '# SAMPLEID: \t', '#', '# SCANID: \t', '#']
    rows = []
    rad = a.rad()
    for i in range(h * w):
        y, x = divmod(i, w)
        rows.append('  %.5f   %.5f   %.5f      %.5f      %.5f %.3f  %.3f  %d      1  %.3f' % (
            *rad[:, y, x], x * c['step'], y * c['step'], a.extra[0, y, x], a.mad[y, x] / 2,
            max(0, int(a.phase[y, x]) - 1), a.extra[1, y, x] / 1000))
    if drop > 0:
        rows = rows[:-drop]
    elif drop < 0:
        rows = rows + rows[drop:]
    path.write_text('\n'.join(out + rows) + '\n')


def write_cpr(path, a, fields, edx=None, comments=False, y_dim=None, x_dim=None, order=None,
              space_group=True, cut=0, laue=None):
    """fields: ids in order; edx: list of window names or None; writes .cpr and .crc."""
    c = a.c
    h, w = a.shape
    groups = [
        ('General', ['Version=5.0', 'Date=12/12/2017', 'Description=dogbone_2-6', 'Notes=']),
        ('Job', ['Coverage=94.1', f'GridDistX={c["step"]:.4f}', f'GridDistY={c["step"]:.4f}',
                 f'xCells={w if x_dim is None else x_dim}',
                 f'yCells={h if y_dim is None else y_dim}']),
        ('Acquisition Surface', [f'Euler{i + 1}={c["acq"][i]}' for i in range(3)]),
        ('Fields', [f'Count={len(fields)}'] + [f'Field{i + 1}={f}' for i, f in enumerate(fields)]),
        ('Phases', [f'Count={len(c["phases"])}']),
    ]
    for i, (name, lg, sg, lat) in enumerate(c['phases']):
        lines = [f'StructureName={name}', 'Enabled=True']
        lines += [f'{k}={v:.4f}' for k, v in zip(('a', 'b', 'c', 'alpha', 'beta', 'gamma'), lat)]
        lines += [f'LaueGroup={lg if laue is None else laue}']
        if space_group:
            lines += [f'SpaceGroup={sg}']
        groups.append((f'Phase{i + 1}', lines))
    if edx is not None:
        groups.append(('EDX Windows', [f'Count={len(edx)}']
                       + [f'Window{i + 1}={n}' for i, n in enumerate(edx)]))
    if order is not None:
        rng = np.random.RandomState(order)
        groups = [groups[i] for i in rng.permutation(len(groups))]
    text = []
    for name, lines in groups:
        if comments:
            text += ['', f'; comment about {name}=1']
        text.append(f'[{name}]')
        for ln in lines:
            if comments:
                text.append(';' + ln.replace('=', '=9'))
            text.append(ln)
    path.with_suffix('.cpr').write_text('\n'.join(text) + '\n')

    fmt, vals, unknown = [('phase', 'u1')], {'phase': a.phase}, 0
    ext = {}
    for k in fields:
        if k in CRC_FIELDS:
            n, t = CRC_FIELDS[k]
        else:
            n, t = f'x{k}', '<f4'
            vals[n] = ext[k] = a.extra[unknown % 20]
            unknown += 1
        fmt.append((n, t))
    rad = a.rad()
    vals.update(e1=rad[0], e2=rad[1], e3=rad[2], mad=a.mad, bc=a.bc, bs=a.bs, bands=a.bands,
                afi=a.bands, ib6=a.extra[7])
    rec = np.zeros(h * w, np.dtype(fmt))
    for n, _ in fmt:
        rec[n] = vals[n].ravel()
    raw = rec.tobytes()
    if cut > 0:
        raw = raw[:-cut]
    elif cut < 0:
        raw = raw + raw[:rec.dtype.itemsize * -cut]
    path.with_suffix('.crc').write_bytes(raw)
    return ext, rec.dtype.itemsize


# ---------------------------------------------------------------------------- DIC
@st.composite
def dic_content(draw, hmax=6, wmax=6):
    h, w = dims(draw, 2, hmax, wmax)
    return dict(h=h, w=w, binning=draw(st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 3, 12, 16]))),
                origin=draw(st.one_of(st.just((0, 0)), st.tuples(st.integers(-50, 5000),
                                                                 st.integers(-50, 5000)))),
                seed=draw(st.integers(0, 2 ** 31 - 1)),
                digits=draw(st.sampled_from([2, 4, 6])),
                scale=draw(st.sampled_from([0.01, 1., 1., 30., 1000.])))


class DicArrays:
    def __init__(self, c):
        self.c = c
        h, w = self.shape = (c['h'], c['w'])
        rng = np.random.RandomState(c['seed'])
        self.disp = np.round(rng.uniform(-1, 1, (2, h, w)) * c['scale'], c['digits'])
        self.binning = c['binning']

    def coord(self, origin):
        h, w = self.shape
        y, x = np.mgrid[:h, :w]
        return np.array([x * self.binning + origin[0], y * self.binning + origin[1]])


def write_davis(path, a, origin, shape=None, binning=None, drop=0, coord=None, cut=0):
    h, w = shape or a.shape
    co = a.coord(origin) if coord is None else coord
    rows = ['\t'.join(repr(float(v)) for v in vals) for vals in
            zip(co[0].flat, co[1].flat, a.disp[0].flat, a.disp[1].flat)]
    if drop > 0:
        rows = rows[:-drop]
    elif drop < 0:
        rows = rows + rows[drop:]
    if cut:
        rows[-1] = '\t'.join(rows[-1].split('\t')[:-cut])
    path.write_text(f'#DaVis 8.4.0 2D-vector {a.binning if binning is None else binning} '
                    f'{h} {w} "" "" "" ""\n' + '\n'.join(rows) + '\n')


def write_piv(path, a, flip=False, coord=None, rows=None):
    co = a.coord((a.binning / 2, a.binning / 2)) if coord is None else coord
    arr = np.array([co[0], co[1], a.disp[0], a.disp[1]])
    if flip:
        arr = arr[:, ::-1]
    lines = ['# x\ty\tu\tv\tflags\tmask'] + [
        '\t'.join(repr(float(v)) for v in vals) + '\t0\t0' for vals in zip(*(x.flat for x in arr))]
    if rows is not None:
        lines = lines[:rows]
    path.write_text('\n'.join(lines) + '\n')


def write_npz(path, a, origin, flip=False, shape=None, binning=None, coord=None, omit=()):
    co = a.coord(origin) if coord is None else coord
    d = dict(format='OpenPIV', version='0.25', binning=a.binning if binning is None else binning,
             shape=np.array(a.shape if shape is None else shape),
             x=co[0], y=co[1], u=a.disp[0], v=a.disp[1])
    if flip:
        for k in 'xyuv':
            d[k] = d[k][::-1]
    for k in omit:
        del d[k]
    with open(path, 'wb') as f:
        np.savez(f, **d)


def pyvale_records(a, origin, keep=None, yflip=False, xflip=False):
    co = a.coord(origin)
    rec = np.zeros(a.shape, M.PYVALE)
    rec['x'], rec['y'] = co[0], co[1]
    rec['u'], rec['v'] = a.disp
    rec['displacement_mag'] = np.hypot(*a.disp)
    rec['converged'] = 1
    rec['cost'], rec['ftol'], rec['xtol'] = 0.01, 1e-3, 1e-4
    rec['num_iterations'] = 9
    k = np.ones(a.shape, bool) if keep is None else keep
    sl = (slice(None, None, -1 if yflip else 1), slice(None, None, -1 if xflip else 1))
    return rec[sl][k[sl]]


def write_pyvale_bin(path, rec):
    rec.tofile(path)


def write_pyvale_csv(path, rec):
    lines = ['subset_x,subset_y,displacement_u,displacement_v,displacement_mag,converged,cost,'
             'ftol,xtol,num_iterations']
    for r in rec:
        lines.append(','.join(repr(v.item()) for v in r))
    path.write_text('\n'.join(lines) + '\n')


__all__ = [n for n in dir() if not n.startswith('_')]
_ = S
