"""Pairs of EBSD and DIC maps related by a known affine transform."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st

from lib import maps as M
from lib import strats as S

THICK = st.sampled_from(['voronoi', 'voronoi', 'voronoi', 'blocks', 'voronoi', 'rows', 'cols', 'single'])


@st.composite
def transforms(draw, scale=(0.7, 3.), rot=0.5):
    """Affine map EBSD -> full DIC pixel coordinates: 2x2 matrix and offset."""
    s = draw(st.one_of(st.sampled_from([1., 2., 3.]), S.fl(*scale)))
    s = min(max(s, scale[0]), scale[1])
    th = draw(st.one_of(st.just(0.), S.fl(-rot, rot)))
    sh = draw(st.one_of(st.just(0.), S.fl(-0.2, 0.2)))
    an = draw(st.one_of(st.just(1.), S.fl(0.8, 1.25)))
    off = (draw(S.fl(-8, 8)), draw(S.fl(-8, 8)))
    c, n = np.cos(th), np.sin(th)
    A = s * np.array([[c, -n], [n, c]]) @ np.array([[1, sh], [0, an]])
    return dict(A=A.tolist(), t=off)


@st.composite
def pairs(draw, hmin=4, hmax=12, dmin=4, dmax=24, scale=(0.7, 3.), **kw):
    kw.setdefault('kinds', THICK)
    kw.setdefault('nmin', 3)
    kw.setdefault('spread', (0., 1.))
    spec = draw(M.ebsd_specs(hmin=hmin, hmax=hmax, wmin=hmin, wmax=hmax, **kw))
    return dict(spec=spec, tf=draw(transforms(scale)),
                shape=(draw(st.integers(dmin, dmax)), draw(st.integers(dmin, dmax))),
                crop=draw(st.one_of(st.just((0, 0, 0, 0)),
                                    st.tuples(*[st.integers(0, dmin // 2 - 1)] * 4))),
                npts=draw(st.integers(4, 9)), seed=draw(st.integers(0, 2 ** 31 - 1)),
                type=draw(st.sampled_from(['affine', 'affine', 'projective', 'polynomial'])))


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def points_for(h, w, n, seed):
    """n well-spread points over an (h, w) map."""
    rng = np.random.RandomState(seed)
    base = np.array([(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), ((w - 1) / 2, 0),
                     (0, (h - 1) / 2), ((w - 1) * 0.6, h - 1)], float)
    more = rng.uniform(0, 1, (max(0, n - len(base)), 2)) * (w - 1, h - 1)
    return np.concatenate([base, more])[:n]


def forward(tf, p):
    return np.asarray(p, float) @ np.array(tf['A']).T + np.array(tf['t'])


def backward(tf, p):
    return (np.asarray(p, float) - np.array(tf['t'])) @ np.linalg.inv(np.array(tf['A'])).T


class Linked:
    def __init__(self, case, link=True):
        self.case = case
        self.built = M.Built(case['spec'])
        self.ebsd = self.built.map()
        h, w = case['shape']
        self.dic = M.dic_map(M.smooth_disp(case['seed'], h, w, 0.5), 2)
        n = case['npts']
        if case['type'] == 'polynomial':
            n = max(n, 9)
        pts = points_for(*self.built.shape, n, case['seed'])
        self.ebsd.frame.set_homog_points([tuple(p) for p in pts])
        self.dic.frame.set_homog_points([tuple(p) for p in forward(case['tf'], pts)])
        le, r, t, b = case['crop']
        self.origin = np.array([le, t], float)
        if link:
            self.link()
        if any(case['crop']):
            quiet(self.dic.set_crop, left=le, right=r, top=t, bottom=b, update_homog_points=True)
        self.shape = (h - t - b, w - le - r)

    def link(self):
        kw = {}
        if self.case['type'] == 'polynomial' and self.case['seed'] % 3:
            kw['order'] = self.case['seed'] % 3
        self.dic.link_ebsd_map(self.ebsd, transform_type=self.case['type'], **kw)

    def to_ebsd(self, p):
        return backward(self.case['tf'], np.asarray(p, float) + self.origin)

    def to_dic(self, p):
        return forward(self.case['tf'], p) - self.origin


def nearest_choices(img, pos, margin):
    """For every position (n, 2) (x, y): set of acceptable nearest values, 0 outside."""
    h, w = img.shape
    out = []
    for x, y in pos:
        opts = set()
        for dx in (-margin, margin):
            for dy in (-margin, margin):
                i, j = int(np.floor(x + dx + 0.5)), int(np.floor(y + dy + 0.5))
                if 0 <= i < w and 0 <= j < h:
                    opts.add(int(img[j, i]))
                else:
                    opts.add(0)
        # between the outermost pixel centres and the edge of the map
        if not (0 <= x <= w - 1 and 0 <= y <= h - 1):
            opts.add(0)
        out.append(opts)
    return out
