import numpy as np
from hypothesis import strategies as st
from defdap import ebsd, hrdic        # noqa: F401
from lib.framework import sub, check, close
from lib import strats as S, maps as M


def ref(points, shape):
    """Brute force: distance of pixel centres to the (bottom right corner of) boundary points."""
    y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
    out = np.full(shape, np.inf)
    for px, py in points:
        out = np.minimum(out, np.hypot(x - px - .5, y - py - .5))
    return out


def edges(built, tol):
    ex, ey, _, _, unsure = M.ref_edges(built, tol)
    pts = {(int(x), int(y)) for y, x in np.argwhere(ex)} | \
        {(int(x), int(y)) for y, x in np.argwhere(ey)}
    return pts, unsure


@sub(st.tuples(M.ebsd_specs(hmax=9, wmax=9, spread=(0, 6)), st.sampled_from([2., 5., 10., 30.]),
               st.lists(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 3, 500])), min_size=1,
                        max_size=3)), quick=250, thorough=6000)
def distances(case):
    """From the boundaries found independently; any batch size. Non-trivial: more boundary points
    than one batch."""
    spec, tol, batches = case
    b = M.Built(spec)
    pts, unsure = edges(b, tol)
    if unsure or not pts:
        return False
    m = b.map()
    m.data.generate('grain_boundaries', misori_tol=tol)
    want = ref(pts, b.shape)
    close(m.data.proxigram, want, 1e-9, 'proxigram')
    for n in batches:
        close(m.calc_proxigram(num_trials=n), want, 1e-9, f'batches of {n}')
    close(m.proxigram, want, 1e-9, 'property of the map')
    return len(pts) > min(batches)


@sub(st.tuples(M.ebsd_specs(hmin=2, hmax=9, wmin=2, wmax=9, spread=(0, 6)),
               st.lists(st.sampled_from([2., 5., 10., 30.]), min_size=2, max_size=3)),
     quick=150, thorough=3000)
def regenerated(case):
    """Generated again it follows the present boundaries. Non-trivial: boundaries changed."""
    spec, tols = case
    b = M.Built(spec)
    m = b.map()
    seen = set()
    for t in tols:
        pts, unsure = edges(b, t)
        if unsure or not pts:
            continue
        m.data.generate('grain_boundaries', misori_tol=t)
        m.data.generate('proxigram')
        close(m.data.proxigram, ref(pts, b.shape), 1e-9, f'tolerance {t}')
        seen.add(frozenset(pts))
    return len(seen) > 1


@sub(st.tuples(st.integers(1, 3), st.integers(300, 2400), st.integers(0, 10 ** 6),
               st.booleans()), quick=12, thorough=200)
def long_maps(case):
    """Far from the only boundary. Non-trivial: further than 1000 pixels."""
    a, n, pos, tall = case
    pos = pos % (n - 1)
    lab = np.zeros((a, n), int)
    lab[:, pos + 1:] = 1
    if tall:
        lab = lab.T
    e = np.zeros((3,) + lab.shape)
    e[0] = lab * 0.5
    m = ebsd.Map({'step_size': 1., 'phases': [M.make_phase('FCC')],
                  'phase': np.ones(lab.shape, np.uint8), 'euler_angle': e,
                  'band_contrast': np.zeros(lab.shape)}, data_type='pythondict')
    pts = [(i, pos) if tall else (pos, i) for i in range(a)]
    close(m.calc_proxigram(num_trials=2), ref(pts, lab.shape), 1e-9, 'long map')
    return max(pos, n - pos) > 1000


@sub(st.tuples(M.ebsd_specs(hmin=10, hmax=24, wmin=10, wmax=24, spread=(0, 0), nmax=4,
                             kinds=st.sampled_from(['voronoi', 'rows', 'cols', 'blocks'])),
               st.lists(st.tuples(*[st.integers(0, 5)] * 4), max_size=3)), quick=60, thorough=1500)
def dic(case):
    """In a DIC map aligned pixel by pixel, before and after changes of crop. Non-trivial: has
    boundaries and a crop."""
    spec, crops = case
    b = M.Built(spec)
    h, w = b.shape
    m = b.map()
    d = M.dic_map(np.zeros((2, h, w)))
    corners = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
    d.frame.homog_points = list(corners)
    m.frame.homog_points = list(corners)
    d.link_ebsd_map(m, transform_type='affine')
    m.data.generate('grain_boundaries', misori_tol=10)
    done = False
    for left, right, top, bottom in [(0, 0, 0, 0)] + crops:
        if left + right >= w or top + bottom >= h:
            continue
        d.set_crop(left=left, right=right, top=top, bottom=bottom)
        pts = d.data.grain_boundaries.points
        got = np.asarray(d.data.proxigram)
        check(got.shape == (h - top - bottom, w - left - right),
              lambda: f'shape {got.shape} after the crop {(left, right, top, bottom)}')
        if pts:
            close(got, ref(pts, got.shape), 1e-9, 'DIC proxigram')
            done = done or bool(left or right or top or bottom)
    return done


@sub(st.tuples(M.large_specs(40, kinds=('square', 'tiles', 'strip')), st.sampled_from([2., 5., 30.]),
               st.lists(st.sampled_from([7, 500, 1000]), min_size=1, max_size=1)), quick=20,
     thorough=400)
def large(case):
    """Hundreds or thousands of boundary points. Non-trivial: more than one batch."""
    return distances(case)
