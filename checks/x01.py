import numpy as np
from hypothesis import strategies as st
from skimage import transform as sktf
import defdap.experiment as dx
from defdap import ebsd
from lib.framework import sub, check, close, same, raises
from lib import strats as S
from lib import dic as D
from lib import maps as M

KINDS = ['affine', 'projective', 'polynomial', 'piecewise_affine']


@st.composite
def links(draw, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    case = dict(kind=kind, tf=draw(D.transforms(scale=(0.3, 4.), rot=np.pi)),
                h=draw(st.integers(6, 60)), w=draw(st.integers(6, 60)),
                n=draw(st.integers(6, 14)), seed=draw(st.integers(0, 2 ** 31 - 1)),
                shift=(draw(st.sampled_from([0., 0., 250.])), draw(st.sampled_from([0., 0., -90.]))),
                arrays=draw(st.booleans()))
    if kind == 'projective':
        case['persp'] = (draw(S.fl(-0.3, 0.3)), draw(S.fl(-0.3, 0.3)))
    if kind == 'polynomial':
        case['order'] = draw(st.sampled_from([None, 1, 2, 3]))
        case['quad'] = [draw(st.one_of(st.just(0.), S.fl(-0.2, 0.2))) for _ in range(6)]
        case['n'] = draw(st.integers(13, 18))
    return case


def mapping(c, p):
    """The generating map, written out."""
    p = np.asarray(p, float)
    q = p @ np.array(c['tf']['A']).T + np.array(c['tf']['t']) + np.array(c['shift'])
    if c['kind'] == 'projective':
        d = 1 + p[:, 0] / c['w'] * c['persp'][0] + p[:, 1] / c['h'] * c['persp'][1]
        q = q / d[:, None]
    if c['kind'] == 'polynomial' and c['order'] in (None, 2, 3):
        x, y = p[:, 0], p[:, 1]
        k = np.array(c['quad']).reshape(2, 3)
        q = q + np.array([a[0] * x * x / c['w'] + a[1] * x * y / c['h'] + a[2] * y * y / c['h']
                          for a in k]).T
    return q


def curved(c):
    return c['kind'] == 'polynomial' and c['order'] != 1 and any(c['quad'])


def source_points(c):
    """n points, spread over the map and jittered so that no polynomial vanishes on all."""
    rng = np.random.RandomState(c['seed'])
    n, w, h = c['n'], c['w'] - 1, c['h'] - 1
    k = int(np.ceil(np.sqrt(n)))
    g = [((i + rng.uniform(0.1, 0.9)) / k * w, (j + rng.uniform(0.1, 0.9)) / k * h)
         for i in range(k) for j in range(k)]
    corners = [(0, 0), (w, 0), (0, h), (w, h)]
    order = rng.permutation(len(g))
    return np.array(corners + [g[i] for i in order])[:max(n, 4)]


def make(c):
    e = dx.Experiment()
    a, b = dx.Frame(), dx.Frame()
    p = source_points(c)
    q = mapping(c, p)
    conv = np.array if c['arrays'] else (lambda v: [tuple(r) for r in v.tolist()])
    a.set_homog_points(conv(p))
    b.set_homog_points(conv(q))
    return e, a, b, p, q


def props(c):
    out = {'type': c['kind']}
    if c.get('order') is not None:
        out['order'] = c['order']
    return out


def tol_of(c, q):
    k = {'polynomial': 1e-4, 'projective': 1e-6}.get(c['kind'], 1e-7)
    return k * (1 + np.abs(q).max())


def conditioned(c, p, q):
    """Generating polynomial is recoverable (design matrix not near singular)."""
    if c['kind'] != 'polynomial':
        return True
    n = c['order'] or 2
    s = (p - p.mean(0)) / (np.ptp(p, axis=0) / 2)
    A = np.array([s[:, 0] ** i * s[:, 1] ** j for i in range(n + 1) for j in range(n + 1 - i)]).T
    return np.linalg.svd(A, compute_uv=False)[-1] > 0.03


def inside(p, n, seed):
    """Points well inside the triangles of the homologous points."""
    from scipy.spatial import Delaunay
    rng = np.random.RandomState(seed)
    t = Delaunay(p)
    out = []
    for s in t.simplices[rng.permutation(len(t.simplices))[:n]]:
        l = rng.uniform(0.1, 1, 3)
        out.append(l / l.sum() @ p[s])
    return np.array(out)


@sub(links(), 300, 20000)
def recover(c):
    """Forward transform = generating map, at homologous points and elsewhere (curved, projective
    or with translation)."""
    e, a, b, p, q = make(c)
    if not conditioned(c, p, q):
        return False
    e.link_frames(a, b, props(c))
    t = e.get_frame_transform(a, b)
    tol = tol_of(c, q)
    close(t(p), q, tol, 'homologous points forward')
    new = inside(p, 6, c['seed'])
    close(t(new), mapping(c, new), tol, 'other points forward')
    check(all(np.shape(x) == (len(p), 2) for x in (a.homog_points, b.homog_points)), 'points changed')
    same(np.array(a.homog_points), p, 'points of first frame')
    same(np.array(b.homog_points), q, 'points of second frame')
    return c['kind']


@sub(links(), 250, 15000)
def reverse(c):
    """Transform against the linked direction maps partners back (any type)."""
    e, a, b, p, q = make(c)
    if not conditioned(c, p, q) or not conditioned(c, q, p):
        return False
    e.link_frames(a, b, props(c))
    t = e.get_frame_transform(b, a)
    if curved(c):
        # inverse of a curved map is not a polynomial: best fit of the partner points
        n = c['order'] or 2
        best = sktf.PolynomialTransform()
        best.estimate(q, p, order=n)
        close(t(q), best(q), 1e-6 * (1 + np.abs(p).max()), 'fit of the partner points')
        return False
    scale = abs(np.linalg.det(np.array(c['tf']['A']))) ** 0.5
    tol = tol_of(c, q) * (1 + 1 / scale) * 10 + tol_of(c, p)
    close(t(q), p, tol, 'homologous points backward')
    if c['kind'] in ('affine', 'projective'):
        f = e.get_frame_transform(a, b)
        new = inside(p, 6, c['seed'])
        close(t(f(new)), new, tol, 'backward after forward')
        back = inside(q, 6, c['seed'])
        close(f(t(back)), back, tol * (1 + scale), 'forward after backward')
    if c['kind'] == 'polynomial':
        new = inside(p, 6, c['seed'])
        close(t(mapping(c, new)), new, tol, 'other points backward')
    return c['kind']


@sub(links(['affine', 'projective']), 120, 5000)
def link_direction(c):
    """Linking a to b, and b to a, give the same transforms."""
    e, a, b, p, q = make(c)
    e.link_frames(a, b, props(c))
    e2 = dx.Experiment()
    e2.link_frames(b, a, props(c))
    scale = abs(np.linalg.det(np.array(c['tf']['A']))) ** 0.5
    tol = tol_of(c, q) * (1 + scale + 1 / scale) * 10
    new = inside(p, 6, c['seed'])
    close(e2.get_frame_transform(a, b)(new), e.get_frame_transform(a, b)(new), tol, 'forward')
    new = inside(q, 6, c['seed'])
    close(e2.get_frame_transform(b, a)(new), e.get_frame_transform(b, a)(new), tol + tol_of(c, p), 'backward')
    return True


@sub(st.tuples(links(['projective', 'affine']), S.fl(0.2, 3.), st.booleans()), 150, 8000)
def inexact(case):
    """Points that no transform of the type fits: the two directions are still mutually inverse."""
    c, size, back_first = case
    e, a, b, p, q = make(c)
    scale = abs(np.linalg.det(np.array(c['tf']['A']))) ** 0.5
    # well below the distance between points, so that nothing is folded
    size = size / 100 * min(c['w'], c['h']) * scale
    noise = np.random.RandomState(c['seed'] ^ 5).uniform(-size, size, q.shape)
    b.set_homog_points(q + noise)
    e.link_frames(a, b, props(c))
    if back_first:
        r, f = e.get_frame_transform(b, a), e.get_frame_transform(a, b)
    else:
        f, r = e.get_frame_transform(a, b), e.get_frame_transform(b, a)
    tol = (tol_of(c, q) * (1 + 1 / scale) * 10 + tol_of(c, p)) * (1 + scale)
    new = inside(p, 6, c['seed'])
    close(r(f(new)), new, tol, 'backward after forward')
    return c['kind']


@sub(st.tuples(links(), st.integers(2, 5), st.integers(0, 2 ** 16)), 120, 5000)
def refusals(case):
    """Among several frames only linked pairs have a transform; re-linking replaces; linking in
    both senses is refused; points changed after linking are used."""
    c, n, seed = case
    rng = np.random.RandomState(seed)
    e, a, b, p, q = make(c)
    others = [dx.Frame() for _ in range(n)]
    for o in others:
        o.set_homog_points([tuple(v) for v in rng.uniform(0, 50, (len(p), 2))])
    for f, g in ((a, b), (b, a), (a, others[0])):
        raises(ValueError, lambda: e.get_frame_transform(f, g), 'unlinked frames')
    e.link_frames(a, b, {'type': 'affine'})
    for o in others[1:]:
        e.link_frames(a, o, {'type': 'affine'})
    raises(ValueError, lambda: e.get_frame_transform(b, others[0]), 'unlinked frames')
    if n > 2:
        raises(ValueError, lambda: e.get_frame_transform(others[1], others[2]), 'indirectly linked')
    # replaced
    e.link_frames(a, b, props(c))
    if conditioned(c, p, q):
        close(e.get_frame_transform(a, b)(p), q, tol_of(c, q), 're-linked frames')
    # moved points
    e.link_frames(a, b, {'type': 'affine'})
    c2 = dict(c, kind='affine')
    move = rng.uniform(-20, 20, 2)
    b.set_homog_points([tuple(v) for v in mapping(c2, p) + move])
    close(e.get_frame_transform(a, b)(p), mapping(c2, p) + move, tol_of(c2, q) + 1e-6, 'moved points')
    e.link_frames(b, a, {'type': 'affine'})
    for f, g in ((a, b), (b, a)):
        raises(ValueError, lambda: e.get_frame_transform(f, g), 'linked in both senses')
    return n > 2


@sub(st.tuples(links(['affine', 'projective']), st.booleans(), st.integers(1, 8)), 150, 6000)
def lines(case):
    """Warped lines: the order, ends and pairing of lines; each end at the pixel edge grid point
    nearest to its transform."""
    c, forward, n = case
    e, a, b, p, q = make(c)
    e.link_frames(a, b, props(c))
    rng = np.random.RandomState(c['seed'] ^ 5)
    src = p if forward else q
    ends = np.array([inside(src, 1, rng.randint(1 << 30))[0] for _ in range(2 * n)])
    t = e.get_frame_transform(a, b) if forward else e.get_frame_transform(b, a)
    want = t(ends).reshape(n, 2, 2)
    given = [(tuple(ends[2 * i].tolist()), tuple(ends[2 * i + 1].tolist())) for i in range(n)]
    got = e.warp_lines(given, a, b) if forward else e.warp_lines(given, b, a)
    check(len(got) == n, f'{len(got)} lines from {n}')
    for i, line in enumerate(got):
        check(len(line) == 2, 'line has two ends')
        g = np.array(line)
        close(g - 0.5, np.round(g - 0.5), 1e-9, 'ends not on the pixel edge grid')
        check(np.abs(g - want[i]).max() <= 0.5 + 1e-6,
              lambda: f'line {i}: {g.tolist()} for {want[i].tolist()}')
    return forward


@sub(st.tuples(links(['affine', 'projective', 'polynomial']), st.integers(4, 30), st.integers(4, 30),
               st.booleans(), st.booleans()), 200, 10000)
def images(case):
    """Warped image holds at each pixel the source value where the transform sends the pixel:
    interpolated ramps, nearest labels, fill outside."""
    c, H, W, forward, labels = case
    e, a, b, p, q = make(c)
    if not conditioned(c, p, q) or not conditioned(c, q, p):
        return False
    e.link_frames(a, b, props(c))
    f1, f2 = (a, b) if forward else (b, a)
    src = p if forward else q
    t = e.get_frame_transform(f2, f1)       # output pixel -> source position
    h, w = (int(v) + 2 for v in np.clip(src.max(0)[::-1], 1, 60))
    rng = np.random.RandomState(c['seed'] ^ 9)
    yy, xx = np.mgrid[:H, :W]
    pos = t(np.column_stack([xx.ravel(), yy.ravel()]).astype(float)).reshape(H, W, 2)
    if not np.isfinite(pos).all():
        return False
    if labels:
        img = rng.randint(1, 50, (h, w)).astype(float)
        keep = img.copy()
        out = e.warp_image(img, f1, f2, output_shape=(H, W), order=0, preserve_range=True)
        check(out.shape == (H, W), 'shape of the warped image')
        sets = D.nearest_choices(img, pos.reshape(-1, 2), 1e-3)
        for v, ok in zip(out.ravel(), sets):
            check(v in ok, lambda: f'label {v} not in {ok}')
        inner = 0
    else:
        k = rng.uniform(-3, 3, 3)
        Y, X = np.mgrid[:h, :w]
        img = k[0] * X + k[1] * Y + k[2]
        keep = img.copy()
        out = e.warp_image(img, f1, f2, output_shape=(H, W), order=1, preserve_range=True, cval=-999., clip=False)
        check(out.shape == (H, W), 'shape of the warped image')
        x, y = pos[..., 0], pos[..., 1]
        ins = (x > 1e-3) & (x < w - 1 - 1e-3) & (y > 1e-3) & (y < h - 1 - 1e-3)
        close(out[ins], (k[0] * x + k[1] * y + k[2])[ins], 1e-3, 'ramp values')
        outs = (x < -1.01) | (x > w + 0.01) | (y < -1.01) | (y > h + 0.01)
        close(out[outs], np.full(outs.sum(), -999.), 1e-6, 'fill value outside')
        inner = ins.sum()
    same(img, keep, 'warped image changed its source')
    return 'labels' if labels else bool(inner > 3 and 'ramp')


@sub(st.tuples(links(['affine']), st.integers(4, 40), st.integers(4, 40), st.booleans()), 150, 5000)
def whole(case):
    """Image warped without cropping holds all of it, seen through the linear part of the
    transform. Non-trivial: several pixels of a map that is not square."""
    c, h, w, forward = case
    e, a, b, p, q = make(c)
    e.link_frames(a, b, props(c))
    f1, f2 = (a, b) if forward else (b, a)
    t = e.get_frame_transform(f2, f1)
    lin = np.array([t([[1., 0.]])[0] - t([[0., 0.]])[0], t([[0., 1.]])[0] - t([[0., 0.]])[0]])
    Y, X = np.mgrid[:h, :w].astype(float)
    kw = dict(crop=False, order=1, preserve_range=True, cval=np.nan, clip=False)
    out = np.array([e.warp_image(v, f1, f2, **kw) for v in (X, Y)])
    check(out[0].shape == out[1].shape, 'shape')
    found = np.argwhere(np.isfinite(out).all(0))
    if not len(found):
        # pixels of the output are larger than the map
        check(np.linalg.norm(lin, axis=1).max() > (min(h, w) - 1) / 2, 'nothing of the map shown')
        return False
    o = found[len(found) // 2]
    pos = out[:, found[:, 0], found[:, 1]].T
    close(pos, (found - o)[:, ::-1] @ lin + out[:, o[0], o[1]],
          1e-6 * (1 + max(h, w)), 'positions in the map')
    # where the pixels of the map are in the output
    s = np.column_stack([X.ravel(), Y.ravel()])
    at = (s - out[:, o[0], o[1]]) @ np.linalg.inv(lin) + o[::-1]
    check(at.min() > -1e-6 and (at <= np.array(out[0].shape)[::-1] - 1 + 1e-6).all(),
          lambda: f'pixels of the map at {at.min(0)} to {at.max(0)} of an image of {out[0].shape}')
    return len(found) > 3 and h != w


SPELLINGS = {'affine': ['affine', 'Affine'], 'projective': ['projective', 'Projective'],
             'polynomial': ['polynomial', 'Polynomial'],
             'piecewise_affine': ['piecewiseAffine', 'piecewiseaffine', 'piecewise_affine']}


@sub(st.tuples(links(), st.integers(0, 5), st.integers(3, 9), st.integers(3, 9)), 60, 2500)
def of_maps(case):
    """Linking a DIC map to an EBSD map, with the type as documented or in other capitals, gives
    the transform of that type and its options. Non-trivial: any type of transform."""
    c, spell, h, w = case
    _, a, b, p, q = make(c)
    if not conditioned(c, p, q):
        return False
    dic = M.dic_map(np.zeros((2, h, w)), 2)
    em = ebsd.Map({'step_size': 1., 'phases': [M.make_phase('FCC')], 'phase': np.ones((h, w), int),
                   'euler_angle': np.zeros((3, h, w)), 'band_contrast': np.zeros((h, w))},
                  data_type='PythonDict')
    dic.experiment = em.experiment = dx.Experiment()
    dic.frame.set_homog_points(a.homog_points)
    em.frame.set_homog_points(b.homog_points)
    names = SPELLINGS[c['kind']]
    dic.link_ebsd_map(em, transform_type=names[spell % len(names)], **{k: v for k, v in props(c).items() if k != 'type'})
    check(dic.ebsd_map is em, 'linked map')
    t = dic.experiment.get_frame_transform(dic.frame, em.frame)
    close(t(p), q, tol_of(c, q), 'homologous points')
    new = inside(p, 6, c['seed'])
    close(t(new), mapping(c, new), tol_of(c, q), 'other points')
    return c['kind']
