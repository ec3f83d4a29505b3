import warnings
import numpy as np
from hypothesis import strategies as st
from defdap import ebsd
from lib.framework import sub, check, same, fail
from lib import strats as S, maps as M

TOL = st.one_of(S.fl(0.5, 20), st.sampled_from([2., 5., 10., 15.]))
MINSIZE = st.one_of(st.integers(0, 6), st.sampled_from([1, 10, 25, 1000]))


def judge(m, phase, want, min_size, phases):
    """m: map with grains generated; want: component label image (0: non-indexed)."""
    labels = np.asarray(m.data.grains)
    h, w = phase.shape
    check(labels.shape == (h, w), f'label image shape {labels.shape}')
    n = len(m.grains)
    check(len(m) == n, 'len(map)')
    # expected partition
    out = np.zeros((h, w), int)
    used = set()
    for c in range(1, want.max() + 1):
        sel = want == c
        got = np.unique(labels[sel])
        check(len(got) == 1, lambda: f'region {c} of {sel.sum()} pixels has labels {got}\n{labels}\n'
                                     f'regions\n{want}')
        if sel.sum() < min_size:
            check(got[0] == -2, lambda: f'small region ({sel.sum()} < {min_size}) has label {got[0]}')
        else:
            check(got[0] >= 1, lambda: f'region of {sel.sum()} >= {min_size} pixels has label {got[0]}')
            check(got[0] not in used, f'two regions have label {got[0]}')
            used.add(got[0])
    check((labels[want == 0] == 0).all(), 'a non-indexed pixel has a label')
    check(used == set(range(1, n + 1)), f'labels {sorted(used)} but {n} grains')
    total = 0
    for i, g in enumerate(m.grains):
        check(g.grain_id == i, f'grain {i} has id {g.grain_id}')
        check(m[i] is g, 'map[i] is not grain i')
        pts = [tuple(map(int, p)) for p in g.data.point]
        check(len(g) == len(pts) == len(set(pts)), f'grain {i}: repeated points')
        ys, xs = (labels == i + 1).nonzero()
        check(set(pts) == set(zip(xs.tolist(), ys.tolist())), f'grain {i}: points are not its pixels')
        total += len(pts)
        pid = int(phase[ys[0], xs[0]])
        check(g.phase_id == pid - 1, f'grain {i}: phase id {g.phase_id}, pixels have {pid}')
        check(g.phase is phases[pid - 1], f'grain {i}: phase')
        check(g.owner_map is m and g.ebsd_map is m, 'owner map')
    check(total == (labels > 0).sum(), 'points of all grains')
    check([g.grain_id for g in m] == list(range(n)), 'iteration order')


def judge_data(m, b):
    for g in m.grains:
        pts = np.array(g.data.point)
        quats = g.data.orientation
        check(len(quats) == len(pts), 'number of grain orientations')
        for (x, y), q in zip(pts, quats):
            dot = abs(float(np.dot(q.quat_coef, b.quats[:, y, x])))
            check(dot > 1 - 1e-9, f'orientation of grain {g.grain_id} at {(x, y)}')
        same(g.data.phase, b.phase[pts[:, 1], pts[:, 0]], 'grain phase list')
        same(g.data.band_contrast, b.bc[pts[:, 1], pts[:, 0]], 'grain band contrast list')


@sub(st.tuples(M.ebsd_specs(hmax=9, wmax=9),
               st.lists(st.tuples(TOL, MINSIZE), min_size=1, max_size=3)),
     quick=500, thorough=18000)
def partition(case):
    """Grains follow boundaries through regeneration with several settings. Non-trivial: at
    least two grains, or a removed region next to a grain."""
    spec, settings = case
    b = M.Built(spec)
    m = b.map()
    lab = None
    for tol, mins in settings:
        ex, ey, _, _, unsure = M.ref_edges(b, tol)
        if unsure:
            return False
        m.data.generate('grain_boundaries', misori_tol=tol)
        m.data.generate('grains', min_grain_size=mins)
        want = M.components(b.phase != 0, ex, ey)
        judge(m, b.phase, want, mins, m.phases)
        n = len(m.grains)
        lab = lab or ('several' if n > 1 else 'removed'
                      if n == 1 and (m.data.grains == -2).any() else None)
    judge_data(m, b)
    same(m.data.phase, b.phase, 'phase data changed')
    return lab


@sub(st.tuples(M.ebsd_specs(hmax=8, wmax=8), st.booleans()), quick=150, thorough=4000)
def defaults(case):
    """Grains on first access: tolerance 10 degrees, at least 10 pixels. Non-trivial: a grain."""
    spec, via_map = case
    b = M.Built(spec)
    ex, ey, _, _, unsure = M.ref_edges(b, 10.)
    if unsure:
        return False
    m = b.map()
    if via_map:
        len(m)
    judge(m, b.phase, M.components(b.phase != 0, ex, ey), 10, m.phases)
    return len(m) > 0


@sub(st.tuples(M.ebsd_specs(hmax=8, wmax=8), st.integers(1, 3), TOL), quick=80, thorough=2000)
def unknown_phases(case):
    """Pixels of a phase that is not listed: still grains, without a phase. Non-trivial: there are
    such grains."""
    spec, beyond, tol = case
    b = M.Built(spec)
    n = len(spec['phases'])
    sel = b.label == spec['seed'] % spec['n']
    b.phase[sel & (b.phase > 0)] = n + beyond
    m = b.map()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ex, ey, _, _, unsure = M.ref_edges(b, tol, b.syms[0])
        if unsure:
            return False
        m.data.generate('grain_boundaries', misori_tol=tol)
        m.data.generate('grains', min_grain_size=1)
    want = M.components(b.phase != 0, ex, ey)
    labels = np.asarray(m.data.grains)
    check(len(m) == want.max(), lambda: f'{len(m)} grains for {want.max()} regions')
    check(((labels > 0) == (want > 0)).all(), 'pixels in grains')
    odd = 0
    for i, g in enumerate(m.grains):
        pid = np.unique(b.phase[labels == i + 1])
        check(len(pid) == 1 and len(np.unique(want[labels == i + 1])) == 1, f'grain {i} is not a region')
        if pid[0] > n:
            odd += 1
            check(g.phase is None and g.phase_id is None, lambda: f'phase {pid[0]} of {n}: grain has {g.phase_id}')
        else:
            check(g.phase is m.phases[pid[0] - 1] and g.phase_id == pid[0] - 1, f'phase of grain {i}')
    return odd > 0


edge_cases = st.fixed_dictionaries({
    'shape': st.tuples(st.integers(1, 14), st.integers(1, 14)),
    'seed': st.integers(0, 2 ** 31 - 1),
    'px': S.fl(0, 1), 'py': S.fl(0, 1), 'hole': st.sampled_from([0., 0., 0.15, 0.4]),
    'kind': st.sampled_from(['random', 'comb', 'spiral']),
    'mins': MINSIZE})


@sub(edge_cases, quick=400, thorough=15000)
def arbitrary_boundaries(case):
    """Any set of boundary edges (including ones that do not close). Non-trivial: at least two
    regions."""
    h, w = case['shape']
    rng = np.random.RandomState(case['seed'])
    ex, ey = rng.rand(h, w) < case['px'], rng.rand(h, w) < case['py']
    if case['kind'] == 'comb':
        ex[:], ey[:] = True, False
        r = rng.randint(0, h)
        ex[r] = rng.rand(w) < .1
    elif case['kind'] == 'spiral':
        ex[:], ey[:] = False, True
        for y in range(h):
            ey[y, 0 if y % 2 else w - 1] = False
    ex[:, -1] = ey[-1] = False
    phase = np.ones((h, w), np.uint8)
    phase[rng.rand(h, w) < case['hole']] = 0
    # phases are always separated by boundaries
    ex[:, :-1] |= phase[:, :-1] != phase[:, 1:]
    ey[:-1] |= phase[:-1] != phase[1:]
    m = ebsd.Map({'step_size': 1., 'phases': [M.make_phase('FCC')], 'phase': phase.copy(),
                  'euler_angle': np.zeros((3, h, w)),
                  'band_contrast': rng.randint(0, 255, (h, w)).astype(np.uint8)},
                 data_type='pythondict')
    m.data.grain_boundaries = ebsd.BoundarySet.from_image(m, ex, ey)
    m.data.generate('grains', min_grain_size=case['mins'])
    want = M.components(phase != 0, ex, ey)
    judge(m, phase, want, case['mins'], m.phases)
    same(m.data.grain_boundaries.image_x, ex, 'boundaries changed by finding grains')
    return want.max() > 1


@sub(st.tuples(M.large_specs(70), st.lists(st.tuples(TOL, MINSIZE), min_size=1, max_size=2)),
     quick=8, thorough=300)
def large(case):
    """Long maps, large grains or hundreds of grains. Non-trivial: several grains."""
    return partition(case) == 'several'


@sub(st.tuples(st.sampled_from(['wide', 'high', 'square']), st.integers(0, 2 ** 31 - 1),
               st.integers(0, 3), st.sampled_from([1, 10, 40000])), quick=3, thorough=60)
def huge(case):
    """Tens of thousands of points, a few grains of them. Non-trivial: a grain of more than 32767
    points."""
    kind, seed, cuts, mins = case
    rng = np.random.RandomState(seed)
    h, w = {'wide': (1, 70000), 'high': (70000, 1), 'square': (260, 270)}[kind]
    phase = np.ones((h, w), np.uint8)
    ex, ey = np.zeros((h, w), bool), np.zeros((h, w), bool)
    for _ in range(cuts):
        x, y = rng.randint(w), rng.randint(h)
        if kind == 'square':
            ex[:, x] = True
        else:
            (ex if kind == 'wide' else ey)[y, x] = True
    ex[:, -1] = ey[-1] = False
    m = ebsd.Map({'step_size': 1., 'phases': [M.make_phase('FCC')], 'phase': phase,
                  'euler_angle': np.zeros((3, h, w)),
                  'band_contrast': rng.randint(0, 255, (h, w)).astype(np.uint8)},
                 data_type='pythondict')
    m.data.grain_boundaries = ebsd.BoundarySet.from_image(m, ex, ey)
    m.data.generate('grains', min_grain_size=mins)
    # the cuts are straight and span the map
    line = ey[:, 0] if kind == 'high' else ex[0]
    ids = np.concatenate([[0], np.cumsum(line)[:-1]])
    want = (np.tile(ids, (h, 1)) if kind != 'high' else ids[:, None]) + 1
    judge(m, phase, want, mins, m.phases)
    for g in m:
        pts = np.array(g.data.point)
        sel = m.data.grains == g.grain_id + 1
        check(sel[pts[:, 1], pts[:, 0]].all(), 'points')
        same(g.data.band_contrast, m.data.band_contrast[pts[:, 1], pts[:, 0]], 'band contrast')
        g.data.add('own', pts[:, 0] + 2. * pts[:, 1], type='list', order=0)
    if len(m):
        yy, xx = np.mgrid[:h, :w]
        same(m.data.own, np.where(m.data.grains > 0, xx + 2. * yy, 0.), 'map of lists')
    return any(len(g) > 32767 for g in m)
