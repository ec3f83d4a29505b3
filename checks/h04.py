import warnings
import numpy as np
from hypothesis import strategies as st
from scipy.ndimage import distance_transform_edt
from defdap import ebsd
from lib.framework import sub, check, close, same, raises
from lib import maps as M
from lib import strats as S
from lib import dic as D

TYPES = ['affine', 'affine', 'projective', 'polynomial']
BOUNDS = ['grain_boundaries', 'phase_boundaries']
tol = st.sampled_from([2., 5., 10., 15.])
op = st.one_of(
    st.tuples(st.just('link'), st.integers(0, 1), st.sampled_from(TYPES)),
    st.tuples(st.just('link'), st.integers(0, 1), st.sampled_from(TYPES)),
    st.tuples(st.just('move'), st.sampled_from(['dic', 'ebsd']), D.transforms()),
    st.tuples(st.just('nudge'), st.integers(-1, 3), st.integers(-3, 3), st.integers(-3, 3)),
    st.tuples(st.just('crop'), *[st.one_of(st.none(), st.integers(0, 3))] * 4, st.booleans()),
    st.tuples(st.just('bounds'), st.integers(0, 1), tol),
    st.tuples(st.just('access'), st.sampled_from(BOUNDS + ['warp', 'grains', 'warp grains'])),
    st.tuples(st.just('access'), st.sampled_from(BOUNDS + ['warp', 'grains', 'warp grains'])),
)


@st.composite
def cases(draw):
    specs = [draw(M.ebsd_specs(hmin=5, hmax=10, wmin=5, wmax=10, nmin=2, kinds=D.THICK,
                               phases=st.sampled_from([('FCC', 'BCC'), ('FCC',), ('HEX', 'FCC')])))
             for _ in range(2)]
    return dict(specs=specs, shape=(draw(st.integers(12, 24)), draw(st.integers(12, 24))),
                tf=draw(D.transforms((1., 2.5), 0.2)), seed=draw(st.integers(0, 2 ** 31 - 1)),
                ops=draw(st.lists(op, min_size=2, max_size=9)))


def lines_of(b):
    return sorted([tuple(float(v) for p in ln for v in p) for ln in b.lines])


class World:
    """The maps under test together with what a fresh pair needs to be built."""

    def __init__(self, case):
        self.case = case
        self.built = [M.Built(s) for s in case['specs']]
        self.ebsd = [b.map() for b in self.built]
        self.tols = [10., 10.]
        self.disp = M.smooth_disp(case['seed'], *case['shape'], 0.5)
        self.dic = M.dic_map(self.disp, 2)
        self.base = D.points_for(5, 5, 9, case['seed'])
        self.dpts = [tuple(p) for p in D.forward(case['tf'], self.base)]
        self.epts = [tuple(p) for p in self.base]
        self.dic.frame.set_homog_points(list(self.dpts))
        for e in self.ebsd:
            e.frame.set_homog_points(list(self.epts))
        self.eptss = [list(self.epts), list(self.epts)]
        self.linked = None
        self.crop = [0, 0, 0, 0]

    def kw(self, typ):
        return {'order': 1} if typ == 'polynomial' else {}

    def link(self, k, typ):
        self.linked = (k, typ)
        self.dic.link_ebsd_map(self.ebsd[k], transform_type=typ, **self.kw(typ))

    def fresh(self):
        k, typ = self.linked
        e = self.built[k].map()
        e.frame.set_homog_points([tuple(p) for p in self.eptss[k]])
        d = M.dic_map(self.disp, 2)
        le, r, t, b = self.crop
        D.quiet(d.set_crop, left=le, right=r, top=t, bottom=b)
        d.frame.set_homog_points([tuple(p) for p in self.dpts])
        d.link_ebsd_map(e, transform_type=typ, **self.kw(typ))
        D.quiet(e.data.generate, 'grain_boundaries', misori_tol=self.tols[k])
        return e, d

    def compare(self, what):
        d = self.dic
        if self.linked is None:
            return
        k, _ = self.linked
        e, f = self.fresh()
        check(d.ebsd_map is self.ebsd[k], 'linked map')
        check(d.crystal_sym == self.ebsd[k].crystal_sym, 'crystal symmetry')
        if what in BOUNDS:
            a, b = D.quiet(lambda: d.data[what]), D.quiet(lambda: f.data[what])
            check(a.image.shape == tuple(d.shape), f'{what}: image shape {a.image.shape}')
            same(a.image, b.image, f'{what}: image')
            check(lines_of(a) == lines_of(b), lambda: f'{what}: lines {lines_of(a)[:5]}..., '
                                                      f'freshly {lines_of(b)[:5]}...')
        elif what == 'warp':
            img = self.built[k].bc.astype(float)
            close(d.warp_to_dic_frame(img, order=0), f.warp_to_dic_frame(img, order=0), 1e-9,
                  'warped EBSD image')
        else:
            alg = 'warp' if what == 'warp grains' else 'floodfill'
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for m in (d, f):
                    D.quiet(m.data.generate, 'grains', algorithm=alg, min_grain_size=3)
            same(d.data.grains, np.asarray(f.data.grains), f'grains ({alg})')
            for g, j in zip(d.grains, f.grains):
                ig, ij = (None if v.ebsd_grain is None else v.ebsd_grain.grain_id for v in (g, j))
                check(ig == ij, f'EBSD grain {ig} of a grain, freshly {ij}')
                check(ig is None or g.ebsd_grain is self.ebsd[k].grains[ig],
                      'EBSD grain belongs to another map')

    def unlinked(self):
        d = self.dic
        raises(Exception, lambda: d.data['grain_boundaries'], 'boundaries without a link')
        raises(Exception, lambda: d.warp_to_dic_frame(self.built[0].bc), 'warp without a link')
        check('grain_boundaries' not in list(d.data.keys()), 'boundaries listed without a link')


@sub(cases(), 120, 4000)
def histories(case):
    """History with a link, then at least two changes and accesses."""
    w = World(case)
    d = w.dic
    n = acc = 0
    w.unlinked()
    for o in case['ops']:
        if o[0] == 'link':
            w.link(o[1], o[2])
        elif o[0] == 'move':
            if o[1] == 'dic':
                w.dpts = [tuple(p) for p in D.forward(o[2], w.base)]
                d.frame.set_homog_points(list(w.dpts))
            else:
                pts = [tuple(p) for p in np.array(w.base) + np.array(o[2]['t']) / 4]
                for i in (0, 1):
                    w.eptss[i] = list(pts)
                    w.ebsd[i].frame.set_homog_points(list(pts))
        elif o[0] == 'nudge':
            # every point: an affine change keeps the transforms well defined
            _, _, dx, dy = o
            d.frame.update_homog_points(homog_idx=-1, delta=(dx, dy))
            w.dpts = [(x + dx, y + dy) for x, y in w.dpts]
        elif o[0] == 'crop':
            new = [c if v is None else v for c, v in zip(w.crop, o[1:5])]
            kw = {k: v for k, v in zip(('left', 'right', 'top', 'bottom'), o[1:5])
                  if v is not None}
            D.quiet(d.set_crop, update_homog_points=o[5], **kw)
            if o[5]:
                dx, dy = w.crop[0] - new[0], w.crop[2] - new[2]
                w.dpts = [(x + dx, y + dy) for x, y in w.dpts]
            w.crop = new
        elif o[0] == 'bounds':
            D.quiet(w.ebsd[o[1]].data.generate, 'grain_boundaries', misori_tol=o[2])
            w.ebsd[o[1]].data.grains = None
            w.tols[o[1]] = o[2]
        else:
            if w.linked is None:
                w.unlinked()
            else:
                acc += 1
                w.compare(o[1])
            continue
        n += w.linked is not None
    for b in BOUNDS:
        w.compare(b)
    if w.linked:
        w.compare('warp')
    return n >= 2 and acc >= 1


@sub(D.pairs(hmin=10, hmax=18, dmin=12, dmax=44, nmax=4, nonindexed=False, scale=(1.5, 3.),
             kinds=st.sampled_from(['bands', 'bands', 'bands', 'voronoi', 'blocks'])), 120, 5000)
def placement(case):
    """EBSD boundaries of which some are well inside the DIC map."""
    p = D.Linked(case)
    e, d = p.ebsd, p.dic
    s = np.sqrt(abs(np.linalg.det(np.array(case['tf']['A']))))
    top = np.linalg.svd(np.array(case['tf']['A']))[1][0]
    img = np.asarray(d.data.grain_boundaries.image)
    h, w = p.shape
    check(img.shape == (h, w), f'image shape {img.shape}, expected {(h, w)}')
    eb = np.asarray(e.data.grain_boundaries.image)
    # every DIC boundary pixel lies by an EBSD boundary pixel
    ys, xs = np.nonzero(img)
    if len(ys):
        if not eb.any():
            check(False, 'boundaries in the DIC map without any in the EBSD map')
        pts = np.stack(np.nonzero(eb)[::-1], 1).astype(float)
        q = p.to_ebsd(np.stack([xs, ys], 1))
        dist = np.sqrt(((q[:, None] - pts[None]) ** 2).sum(-1)).min(1)
        check(dist.max() <= 1.3 + 1 / s, lambda: f'DIC boundary pixel {xs[dist.argmax()]}, '
              f'{ys[dist.argmax()]} is {dist.max():.2f} EBSD pixels from a boundary')
    # a straight grain boundary, well inside both maps, is present in the DIC map
    lab = p.built.label
    eh, ew = lab.shape
    n = 0
    straight = []
    for x in range(2, ew - 3):
        for y in range(2, eh - 2):
            # nothing but one vertical boundary in the 5 rows by 6 columns around
            sub_ = eb[max(0, y - 3):y + 4, x - 2:x + 3]
            if sub_.shape == (7, 5) and sub_[:, 2].all() and sub_.sum() == 7:
                straight.append((x, y))
    for y in range(2, eh - 3):
        for x in range(2, ew - 2):
            sub_ = eb[y - 2:y + 3, max(0, x - 3):x + 4]
            if sub_.shape == (5, 7) and sub_[2].all() and sub_.sum() == 7:
                straight.append((x, y))
    if straight:
        dt = distance_transform_edt(~img) if img.any() else np.full((h, w), 1e9)
        q = p.to_dic(np.array(straight, float))
        for (x, y), (a, b) in zip(straight, q):
            # warped piece is at least ten pixels long (shorter ones are dropped by design)
            if 7 * np.linalg.svd(np.array(case['tf']['A']))[1][1] < 14:
                break
            # (and is not cut by the edge of the map, which is handled for affine links only)
            m = (1.5 if case['type'] == 'affine' else 4.5) * top
            if m <= a <= w - 1 - m and m <= b <= h - 1 - m:
                n += 1
                v = dt[int(round(b)), int(round(a))]
                check(v <= 1.5 * top + 1.5, lambda: f'EBSD boundary pixel {(x, y)} (at {a:.1f}, '
                      f'{b:.1f} in the DIC map) is {v:.1f} pixels from a boundary there')
    return n > 0


@sub(st.tuples(D.pairs(hmin=3, hmax=8, dmin=12, dmax=16), st.sampled_from([0, 0, 0, 1, 2, 5]),
               st.integers(0, 2 ** 31 - 1)), 80, 3000)
def lines(case):
    """Lines of the boundaries are the EBSD lines under the transform, to half a pixel. Non-trivial:
    there are some."""
    case, few, seed = case
    p = D.Linked(case)
    if few:
        # a few boundary points anywhere
        rng = np.random.RandomState(seed)
        h, w = p.built.shape
        ims = np.zeros((2, h, w), bool)
        for _ in range(few):
            k = rng.randint(2)
            ims[k, rng.randint(h - k), rng.randint(w - 1 + k)] = True
        p.ebsd.data.grain_boundaries = ebsd.BoundarySet.from_image(p.ebsd, *ims)
    got = p.dic.data.grain_boundaries.lines
    want = p.ebsd.data.grain_boundaries.lines
    check(len(got) == len(want), f'{len(got)} lines, expected {len(want)}')
    if not want:
        return False
    a = np.array(got, float).reshape(-1, 4)
    b = p.to_dic(np.array(want, float).reshape(-1, 2)).reshape(-1, 4)
    used = np.zeros(len(a), bool)
    for row in b:
        ok = (np.abs(a - row).max(1) <= 0.5 + 1e-4) & ~used
        check(ok.any(), lambda: f'no line by {row}')
        used[np.argmax(ok)] = True
    check(np.allclose((a - 0.5) % 1, 0) , 'line ends not on pixel corners')
    return True


@sub(D.pairs(hmin=4, hmax=9, dmin=6, dmax=14), 80, 3000)
def image_values(case):
    """A smooth EBSD image is seen in the DIC frame at its own place."""
    p = D.Linked(case)
    h, w = p.built.shape
    c = np.random.RandomState(case['seed']).uniform(-1, 1, 3)
    yy, xx = np.mgrid[:h, :w]
    img = c[0] * xx + c[1] * yy + c[2]
    got = p.dic.warp_to_dic_frame(img, order=1, preserve_range=True, cval=np.nan)
    check(got.shape == p.shape, f'shape {got.shape}, expected {p.shape}')
    H, W = p.shape
    yy, xx = np.mgrid[:H, :W]
    q = p.to_ebsd(np.stack([xx.ravel(), yy.ravel()], 1)).reshape(H, W, 2)
    inside = (q[..., 0] > 0.01) & (q[..., 0] < w - 1.01) & (q[..., 1] > 0.01) & \
        (q[..., 1] < h - 1.01)
    want = c[0] * q[..., 0] + c[1] * q[..., 1] + c[2]
    close(got[inside], want[inside], 1e-4, 'linear image in the DIC frame')
    out = (q[..., 0] < -1) | (q[..., 0] > w) | (q[..., 1] < -1) | (q[..., 1] > h)
    check(np.isnan(got[out]).all(), 'values outside the EBSD map')
    return bool(inside.any())


_ = S
