import numpy as np
from hypothesis import strategies as st
from defdap import hrdic
from lib.framework import sub, check, close, same
from lib import files as F
from lib import maps as M


def load(suffix, kind, write):
    path = M.scratch(suffix)
    try:
        write(path)
        return hrdic.Map(path) if kind is None else hrdic.Map(path, data_type=kind)
    finally:
        path.unlink(missing_ok=True)


def expect(m, a, origin, what, disp=None, tol=1e-12):
    h, w = a.shape
    disp = a.disp if disp is None else disp
    check(m.binning == a.binning, f'{what}: sub-window size {m.binning}, expected {a.binning}')
    check(tuple(m.shape) == a.shape, f'{what}: shape {m.shape}, expected {a.shape}')
    check((m.x_dim, m.y_dim) == (w, h), f'{what}: dimensions')
    close(m.data.coordinate, a.coord(origin), 1e-9, f'{what}: coordinates')
    close(m.data.displacement, disp, tol * max(1., a.c['scale']), f'{what}: displacements')
    # derived on loading, wherever the file came from
    f = np.empty((2, 2) + a.shape)
    for i in range(2):
        f[i, 1], f[i, 0] = np.gradient(disp[i], a.binning)
        f[i, i] += 1
    close(m.data.f, f, 1e-9 * max(1., a.c['scale']), f'{what}: deformation gradient')


common = st.tuples(F.dic_content(), st.booleans(), st.sampled_from([0, 1]))


@sub(common, 120, 4000)
def davis(case):
    """DaVis file with non-square grid or offset origin."""
    c, _, default = case
    a = F.DicArrays(c)
    m = load('.txt', None if default else 'Davis', lambda p: F.write_davis(p, a, c['origin']))
    expect(m, a, c['origin'], 'davis')
    check(m.format == 'DaVis' and m.version == '8.4.0', f'{m.format} {m.version}')
    return c['h'] != c['w'] or any(c['origin'])


@sub(common, 120, 4000)
def openpiv_text(case):
    """OpenPIV text file with rows stored from the bottom, or non-square."""
    c, flip, name = case
    a = F.DicArrays(c)
    m = load('.txt', ['OpenPIV', 'OpenPIVText'][name], lambda p: F.write_piv(p, a, flip))
    expect(m, a, (a.binning / 2,) * 2, 'openpiv text')
    return flip or c['h'] != c['w']


@sub(common, 120, 4000)
def openpiv_binary(case):
    """OpenPIV npz file with rows stored from the bottom, or non-square."""
    c, flip, _ = case
    a = F.DicArrays(c)
    m = load('.npz', 'OpenPivBinary', lambda p: F.write_npz(p, a, c['origin'], flip))
    expect(m, a, c['origin'], 'openpiv binary', tol=0)
    return flip or c['h'] != c['w']


@st.composite
def pyvale_cases(draw):
    c = draw(F.dic_content())
    n = c['h'] * c['w']
    missing = draw(st.one_of(st.just([]), st.lists(st.integers(0, n - 1), unique=True,
                                                   max_size=max(0, n - 3))))
    return c, missing, draw(st.booleans()), draw(st.booleans()), draw(st.booleans())


@sub(pyvale_cases(), 250, 8000)
def pyvale(case):
    """PyVale csv or binary with missing points or reversed order."""
    c, missing, yflip, xflip, csv = case
    a = F.DicArrays(c)
    keep = np.ones(a.shape, bool)
    keep.flat[missing] = False
    ys, xs = np.nonzero(keep)
    # the grid spacing must be evident from the points
    if (len(ys) < 2 or min(np.diff(np.unique(xs)), default=9) != 1
            or min(np.diff(np.unique(ys)), default=9) != 1):
        keep[:] = True
        ys, xs = np.nonzero(keep)
    y0, y1, x0, x1 = ys.min(), ys.max() + 1, xs.min(), xs.max() + 1
    rec = F.pyvale_records(a, c['origin'], keep, yflip, xflip)
    m = load('.csv' if csv else '.bin', 'PyVale-csv' if csv else 'pyvale-binary',
             lambda p: (F.write_pyvale_csv if csv else F.write_pyvale_bin)(p, rec))
    disp = np.where(keep, a.disp, 0)[:, y0:y1, x0:x1]
    want = F.DicArrays(dict(c, h=y1 - y0, w=x1 - x0))
    want.disp = disp
    expect(m, want, (c['origin'][0] + x0 * a.binning, c['origin'][1] + y0 * a.binning), 'pyvale')
    return ('missing' if not keep.all() else 'reversed') if yflip or xflip or not keep.all() \
        else False


@sub(common, 60, 2000)
def same_in_every_format(case):
    """One field stored in every format gives the same displacements and strains."""
    c, flip, _ = case
    a = F.DicArrays(c)
    o = (a.binning / 2,) * 2
    ref = load('.txt', None, lambda p: F.write_davis(p, a, o))
    ms = {'piv text': load('.txt', 'openpiv', lambda p: F.write_piv(p, a, flip)),
          'piv npz': load('.npz', 'openpivbinary', lambda p: F.write_npz(p, a, o, flip)),
          'pyvale binary': load('.bin', 'pyvale-binary', lambda p: F.write_pyvale_bin(
              p, F.pyvale_records(a, c['origin'], None, flip))),
          'pyvale csv': load('.csv', 'pyvale-csv', lambda p: F.write_pyvale_csv(
              p, F.pyvale_records(a, c['origin'], None, flip)))}
    s = max(1., c['scale'])
    for n, m in ms.items():
        for k in ('displacement', 'f', 'e', 'max_shear'):
            close(m.data[k], ref.data[k], 1e-9 * s * s, f'{k} of {n} and DaVis')
    return True


@sub(st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(0, 2 ** 31 - 1)), 40, 800)
def davis_image(case):
    """DaVis image text file with more than one value."""
    from defdap.file_readers import DavisLoader
    h, w, seed = case
    img = np.random.RandomState(seed).randint(-100, 4000, (h, w))
    path = M.scratch('.txt')
    try:
        path.write_text('#DaVis 8.4.0 image 1 1\n' + '\n'.join(
            '\t'.join(map(str, r)) for r in img) + '\n')
        same(DavisLoader.load_davis_image_data(path), img, 'image')
    finally:
        path.unlink(missing_ok=True)
    return img.size > 1
