import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from defdap import ebsd, hrdic
from lib.framework import sub, check, close, same, Violation
from lib import files as F
from lib import maps as M

COLS = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']
NEED = ['Phase', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']


def attempt(cls, arg, kind, what, exc=Exception):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            m = cls(arg) if kind is None else cls(arg, data_type=kind)
        except exc as e:
            if isinstance(e, (NameError, RecursionError)) and not isinstance(e, UnboundLocalError):
                raise Violation(f'{what}: not a refusal: {e!r}')
            return
        except Exception as e:
            raise Violation(f'{what}: refused with {e!r}, expected {exc}')
    raise Violation(f'{what}: loaded as a map of shape {m.shape}')


def drop_counts(draw, n):
    return draw(st.one_of(st.integers(1, n), st.integers(-n, -1)))


@st.composite
def ctf_cases(draw):
    c = draw(F.ebsd_content(hmax=5, wmax=5))
    n = c['h'] * c['w']
    what = draw(st.sampled_from(['rows', 'xcells', 'ycells', 'unknown', 'without', 'laue', 'count',
                                 'rowcut']))
    return c, what, drop_counts(draw, n), draw(st.sampled_from([-1, 1, 2, 5])), \
        draw(st.integers(0, 10)), draw(st.sampled_from(NEED))


@sub(ctf_cases(), 200, 6000)
def oxford_text(case):
    """Damaged .ctf with more than one point; the undamaged one loads before and after."""
    c, what, drop, d, i, need = case
    a = F.EbsdArrays(c)
    path, bad = M.scratch('.ctf'), M.scratch('.ctf')
    kw, exc = {}, Exception
    if what == 'rows':
        kw['drop'] = drop
    elif what == 'xcells':
        kw['x_dim'] = c['w'] + d if c['w'] + d > 0 else c['w'] + 1
    elif what == 'ycells':
        kw['y_dim'] = c['h'] + d if c['h'] + d > 0 else c['h'] + 1
    elif what == 'unknown':
        kw['header'] = COLS[:i] + ['Foo'] + COLS[i + 1:]
        exc = TypeError
    elif what == 'without':
        kw['cols'] = [k for k in COLS if k != need]
    try:
        F.write_ctf(path, a)
        ebsd.Map(path)
        F.write_ctf(bad, a, **kw)
        if what == 'laue':
            text = bad.read_text().split('\n')
            j = next(k for k, t in enumerate(text) if t.startswith('Phases')) + 1
            col = text[j].split('\t')
            col[3] = str([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 0][i])
            text[j] = '\t'.join(col)
            bad.write_text('\n'.join(text))
            exc = ValueError
        elif what == 'count':
            bad.write_text(bad.read_text().replace(f'Phases\t{len(c["phases"])}\n',
                                                   f'Phases\t{len(c["phases"]) + abs(d)}\n'))
        elif what == 'rowcut':
            # the last row lost its last columns
            text = bad.read_text().rstrip('\n')
            bad.write_text('\t'.join(text.split('\t')[:-abs(d)]))
        attempt(ebsd.Map, bad, None, f'ctf {what} {kw}', exc)
        m = ebsd.Map(path)
        same(m.data.phase, a.phase, 'phase of the valid file after a refusal')
        check(m.num_phases == len(c['phases']), 'phases of the valid file after a refusal')
    finally:
        path.unlink(missing_ok=True)
        bad.unlink(missing_ok=True)
    return what if c['h'] * c['w'] > 1 else False


@st.composite
def crc_cases(draw):
    c = draw(F.ebsd_content(hmax=5, wmax=5))
    n = c['h'] * c['w']
    what = draw(st.sampled_from(['bytes', 'bytes', 'records', 'xcells', 'ycells', 'without', 'laue',
                                 'nocrc', 'nocpr', 'group', 'headcut']))
    return c, what, draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([-1, 1, 2, 5])), \
        draw(st.integers(3, 8)), draw(st.integers(1, n)), draw(st.integers(0, 10))


@sub(crc_cases(), 200, 6000)
def oxford_binary(case):
    """Damaged .cpr/.crc with more than one point; the undamaged one loads after."""
    c, what, r, d, field, n, i = case
    a = F.EbsdArrays(c)
    path, bad = M.scratch('.crc'), M.scratch('.crc')
    kw, exc, fields = {}, Exception, [3, 4, 5, 6, 7, 8, 10, 12]
    if what == 'records':
        kw['cut'] = -n
    elif what == 'xcells':
        kw['x_dim'] = c['w'] + d if c['w'] + d > 0 else c['w'] + 1
    elif what == 'ycells':
        kw['y_dim'] = c['h'] + d if c['h'] + d > 0 else c['h'] + 1
    elif what == 'without':
        fields.remove(field)
    elif what == 'laue':
        kw['laue'] = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 0][i]
        exc = ValueError
    try:
        F.write_cpr(path, a, fields if what != 'without' else [3, 4, 5, 6, 7, 8])
        ebsd.Map(path)
        F.write_cpr(bad, a, fields, **kw)
        if what == 'bytes':
            raw = bad.read_bytes()
            bad.write_bytes(raw[:r % len(raw)])
        elif what == 'nocrc':
            bad.unlink()
            exc = FileNotFoundError
        elif what == 'nocpr':
            bad.with_suffix('.cpr').unlink()
            exc = FileNotFoundError
        elif what == 'group':
            g = ['[Job]', '[Acquisition Surface]', '[Fields]', '[Phases]', '[Phase1]'][i % 5]
            p = bad.with_suffix('.cpr')
            p.write_text(p.read_text().replace(g, '[Other]'))
        elif what == 'headcut':
            # the header ends before the phase list is complete
            p = bad.with_suffix('.cpr')
            text = p.read_text()
            end = text.index('LaueGroup')
            p.write_text(text[:r % end])
        attempt(ebsd.Map, bad, None, f'crc {what} {kw}', exc)
        m = ebsd.Map(path)
        same(m.data.phase, a.phase, 'phase of the valid file after a refusal')
    finally:
        for p in (path, bad):
            p.unlink(missing_ok=True)
            p.with_suffix('.cpr').unlink(missing_ok=True)
    return what if c['h'] * c['w'] > 1 else False


@st.composite
def ang_cases(draw):
    c = draw(F.ebsd_content(hmax=5, wmax=5))
    n = c['h'] * c['w']
    return c, draw(st.sampled_from(['rows', 'xdim', 'ydim', 'grid', 'sym', 'number', 'rowcut'])), \
        drop_counts(draw, n), draw(st.sampled_from([-1, 1, 2, 5])), \
        draw(st.sampled_from(['HexGrid', 'hexgrid', 'RotHexGrid'])), \
        draw(st.sampled_from(['mmm', '-3m', '4/mmm', '1', '23', '6', 'm3', '32', '-6m2', '4'])), draw(st.integers(1, 3))


@sub(ang_cases(), 150, 5000)
def edax(case):
    """Damaged .ang with more than one point; the undamaged one loads after."""
    c, what, drop, d, grid, sym, k = case
    a = F.EbsdArrays(c)
    path, bad = M.scratch('.ang'), M.scratch('.ang')
    kw, exc = {}, Exception
    if what == 'rows':
        kw['drop'] = drop
    elif what == 'xdim':
        kw['x_dim'] = c['w'] + d if c['w'] + d > 0 else c['w'] + 1
    elif what == 'ydim':
        kw['y_dim'] = c['h'] + d if c['h'] + d > 0 else c['h'] + 1
    elif what == 'grid':
        kw['grid'], exc = grid, ValueError
    elif what == 'sym':
        kw['sym'], exc = sym, ValueError
    elif what == 'number':
        kw['number'], exc = [0, 2, 3][k - 1], ValueError
    try:
        F.write_ang(path, a)
        F.write_ang(bad, a, **kw)
        if what == 'rowcut':
            bad.write_text(' '.join(bad.read_text().split(' ')[:-k]).rstrip())
        attempt(ebsd.Map, bad, None, f'ang {what} {kw}', exc)
        m = ebsd.Map(path)
        same(m.data.phase, np.maximum(a.phase, 1), 'phase of the valid file after a refusal')
    finally:
        path.unlink(missing_ok=True)
        bad.unlink(missing_ok=True)
    return what if c['h'] * c['w'] > 1 else False


@sub(st.tuples(F.ebsd_content(hmax=4, wmax=4),
               st.sampled_from(['phase shape', 'euler shape', 'euler comps', 'phases', 'phase type',
                                'missing', 'type', 'no file']),
               st.integers(0, 4)), 120, 2500)
def dictionaries_and_types(case):
    """Inconsistent dictionaries, unknown formats, missing files."""
    c, what, i = case
    a = F.EbsdArrays(c)
    h, w = a.shape
    d = dict(step_size=1., phase=a.phase, euler_angle=a.rad(), band_contrast=a.bc,
             phases=[M.make_phase('FCC')])
    kind, exc, arg = 'pythondict', Exception, d
    if what == 'phase shape':
        d['phase'] = np.ones([(h + 1, w), (h, w + 1), (h * w + 1,), (h, w, 1), (h + 2, w + 1)][i],
                             np.uint8)
    elif what == 'euler shape':
        d['euler_angle'] = np.zeros([(3, h + 1, w), (3, h, w + 1), (3, h * w), (h, w, 3, 1),
                                     (3, h, w, 1)][i])
    elif what == 'euler comps':
        d['euler_angle'] = np.zeros(([1, 2, 4, 6, 9][i], h, w))
    elif what == 'phases':
        d['phases'] = [M.make_phase('FCC'), tuple(d['phases']), None, 'FCC', {}][i]
        if i == 4:
            d['phases'] = (M.make_phase('FCC'), M.make_phase('BCC'))
    elif what == 'phase type':
        d['phases'] = [M.make_phase('FCC'), ['FCC', 11, None, {}, ('Ni', 11, 225)][i]]
    elif what == 'missing':
        del d[['step_size', 'phase', 'euler_angle', 'band_contrast', 'phases'][i]]
    elif what == 'type':
        kind = ['oxford', 'text', 'h5', 'pythondic', 'davis'][i]
        exc = ValueError
        arg = M.scratch('.txt')
    else:
        arg = M.scratch(['.ctf', '.crc', '.cpr', '.ang', '.txt'][i])
        kind = [None, None, None, None, 'OxfordText'][i]
        exc = FileNotFoundError
    attempt(ebsd.Map, arg, kind, f'dict {what} {i}', exc)
    return what


def missing_or_refused(path, a):
    """The values cut off may be loaded as NaN; all others must be right."""
    try:
        m = hrdic.Map(path)
    except Exception:
        return
    got = np.asarray(m.data.displacement)
    ok = ~np.isnan(got)
    check(got.shape == a.disp.shape and ok.sum() >= a.disp.size - 2, 'cut DaVis file: values lost')
    close(got[ok], a.disp[ok], 1e-9, 'cut DaVis file: displacements')


@st.composite
def dic_cases(draw):
    c = draw(F.dic_content(hmax=5, wmax=5))
    fmt = draw(st.sampled_from(['davis', 'davis', 'piv', 'npz', 'pyvale', 'pyvale', 'other']))
    opts = {
        'davis': ['rows', 'cols', 'binning', 'drop', 'rowcut', 'xspacing', 'yspacing', 'spacing',
                  'header', 'swapped', 'swapped'],
        'piv': ['rowcut', 'partial', 'xspacing', 'yspacing', 'drop middle'],
        'npz': ['rows', 'cols', 'binning', 'xspacing', 'yspacing', 'omit', 'cut', 'swapped'],
        'pyvale': ['xspacing', 'yspacing', 'subtype', 'nan', 'rowcut', 'offgrid'],
        'other': ['type', 'no file'],
    }[fmt]
    return dict(c=c, fmt=fmt, what=draw(st.sampled_from(opts)), d=draw(st.sampled_from([-1, 1, 2, 7])),
                k=draw(st.integers(0, 10 ** 6)), mult=draw(st.integers(2, 4)))


@sub(dic_cases(), 350, 10000)
def dic(case):
    """Damaged DIC file; the undamaged one loads after."""
    c, fmt, what, d, k, mult = (case[n] for n in ('c', 'fmt', 'what', 'd', 'k', 'mult'))
    a = F.DicArrays(c)
    h, w = a.shape
    b = a.binning
    piv = fmt == 'piv'
    co = a.coord((b / 2,) * 2 if piv else c['origin']).astype(float)
    # coordinates with another spacing in one or both directions
    if what in ('xspacing', 'spacing'):
        co[0] *= mult
    if what in ('yspacing', 'spacing'):
        co[1] *= mult
    shape, binning = [h, w], b
    if what == 'rows':
        shape[0] = h + d if h + d > 0 else h + 1
    elif what == 'cols':
        shape[1] = w + d if w + d > 0 else w + 1
    elif what == 'swapped':
        shape = [w, h]
        if h == w:
            return False
    elif what == 'binning':
        binning = b + d if b + d > 0 else b + 1
    suffix = {'davis': '.txt', 'piv': '.txt', 'npz': '.npz', 'pyvale': '.bin', 'other': '.txt'}[fmt]
    kind = {'davis': None, 'piv': 'OpenPIV', 'npz': 'OpenPivBinary', 'pyvale': 'PyVale-binary',
            'other': None}[fmt]
    path, bad = M.scratch(suffix), M.scratch(suffix)
    exc = Exception
    try:
        if fmt == 'davis':
            F.write_davis(path, a, c['origin'])
            F.write_davis(bad, a, c['origin'], shape=shape, binning=binning, coord=co,
                          drop=(1 + k % (h * w - 1)) * (1 if d > 0 else -1) if what == 'drop' else 0,
                          cut=1 + k % 3 if what == 'rowcut' else 0)
            if what == 'header':
                bad.write_text(bad.read_text().split('\n', 1)[1])
        elif fmt == 'piv':
            F.write_piv(path, a)
            F.write_piv(bad, a, coord=co)
            lines = bad.read_text().rstrip('\n').split('\n')
            if what == 'rowcut':
                lines[-1] = '\t'.join(lines[-1].split('\t')[:1 + k % 5])
            elif what == 'partial':
                # the last row of points is incomplete
                lines = lines[:-(1 + k % (w - 1))]
            elif what == 'drop middle':
                del lines[1 + k % (h * w - 1)]
            bad.write_text('\n'.join(lines) + '\n')
        elif fmt == 'npz':
            F.write_npz(path, a, c['origin'])
            F.write_npz(bad, a, c['origin'], shape=shape, binning=binning, coord=co,
                        omit=['xyuv'[k % 4]] if what == 'omit' else ())
            if what == 'cut':
                raw = bad.read_bytes()
                bad.write_bytes(raw[:k % len(raw)])
        elif fmt == 'pyvale':
            rec = F.pyvale_records(a, c['origin'])
            F.write_pyvale_bin(path, rec)
            bad_rec = rec.copy()
            bad_rec['x'], bad_rec['y'] = co[0].ravel(), co[1].ravel()
            if what == 'offgrid':
                # one interior point between the grid positions
                if b == 1 or w < 3:
                    return False
                bad_rec['x'].reshape(h, w)[k % h, 1] += 1 + k % (b - 1)
            F.write_pyvale_bin(bad, bad_rec)
            if what == 'subtype':
                kind = ['PyVale', 'pyvale-txt', 'pyvale-bin'][k % 3]
                exc = ValueError
            elif what in ('nan', 'rowcut'):
                kind = 'PyVale-csv'
                F.write_pyvale_csv(bad, rec)
                lines = bad.read_text().rstrip('\n').split('\n')
                col = lines[-1].split(',')
                if what == 'nan':
                    col[k % 4] = 'abc'
                else:
                    col = col[:1 + k % 9]
                lines[-1] = ','.join(col)
                bad.write_text('\n'.join(lines) + '\n')
        else:
            F.write_davis(path, a, c['origin'])
            if what == 'type':
                F.write_davis(bad, a, c['origin'])
                kind = ['ncorr', 'pivopen', 'text', 'oxfordtext'][k % 4]
                exc = ValueError
            else:
                kind = [None, 'Davis', 'openpiv', 'openpivbinary', 'pyvale-csv',
                        'pyvale-binary'][k % 6]
                exc = FileNotFoundError
        if fmt == 'davis' and what == 'rowcut':
            missing_or_refused(bad, a)
        else:
            attempt(hrdic.Map, bad, kind, f'{fmt} {what}', exc)
        good = hrdic.Map(path) if fmt in ('davis', 'other') else hrdic.Map(path, data_type={
            'piv': 'OpenPIV', 'npz': 'OpenPivBinary', 'pyvale': 'pyvale-binary'}[fmt])
        check(tuple(good.shape) == a.shape, 'valid file after a refusal')
    finally:
        path.unlink(missing_ok=True)
        bad.unlink(missing_ok=True)
    return f'{fmt} {what}'
