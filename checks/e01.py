import numpy as np
from hypothesis import strategies as st
from defdap import ebsd
from lib.framework import sub, check, same, fail
from lib import strats as S, maps as M

TOL = st.one_of(S.fl(0.5, 20), st.sampled_from([1., 2., 5., 10., 15.]), S.fl(20, 60))


def judge(bounds, ex, ey, what):
    h, w = ex.shape
    same(bounds.image_x, ex, f'{what}: image of edges to the right neighbour')
    same(bounds.image_y, ey, f'{what}: image of edges to the neighbour below')
    same(bounds.image, ex | ey, f'{what}: image')
    px = {(x, y) for y, x in zip(*ex.nonzero())}
    py = {(x, y) for y, x in zip(*ey.nonzero())}
    check({tuple(map(int, p)) for p in bounds.points_x} == px, f'{what}: points_x')
    check({tuple(map(int, p)) for p in bounds.points_y} == py, f'{what}: points_y')
    check({tuple(map(int, p)) for p in bounds.points} == px | py, f'{what}: points')
    want = sorted([((x + .5, y - .5), (x + .5, y + .5)) for x, y in px] +
                  [((x - .5, y + .5), (x + .5, y + .5)) for x, y in py])
    got = sorted(tuple(sorted(tuple(map(float, p)) for p in line)) for line in bounds.lines)
    check(got == want, f'{what}: lines {got} expected {want}')


@sub(st.tuples(M.ebsd_specs(hmax=9, wmax=9), TOL, TOL), quick=700, thorough=25000)
def edges(case):
    """Non-trivial: the map has some grain boundary edge and some non-edge."""
    spec, tol, tol2 = case
    b = M.Built(spec)
    ex, ey, px, py, unsure = M.ref_edges(b, tol)
    if unsure:
        return False
    m = b.map()
    m.data.generate('grain_boundaries', misori_tol=tol)
    judge(m.data.grain_boundaries, ex, ey, 'grain boundaries')
    judge(m.data.phase_boundaries, px, py, 'phase boundaries')
    same(m.data.phase, b.phase, 'phase data changed')
    # a second tolerance replaces the first
    ex2, ey2, px, py, unsure = M.ref_edges(b, tol2)
    if not unsure:
        m.data.generate('phase_boundaries', misori_tol=tol2)
        judge(m.data.grain_boundaries, ex2, ey2, 'grain boundaries, other tolerance')
        judge(m.data.phase_boundaries, px, py, 'phase boundaries, other tolerance')
    edges_ = ex.sum() + ey.sum()
    h, w = b.shape
    total = h * (w - 1) + w * (h - 1)
    if edges_ == 0:
        return 'none' if total else False
    return 'all' if edges_ == total else 'some'


@sub(M.ebsd_specs(hmax=6, wmax=6), quick=150, thorough=4000)
def default_tolerance(spec):
    """Accessed data uses 10 degrees and the primary phase. Non-trivial: several phases or
    some edge."""
    b = M.Built(spec)
    m = b.map()
    k = spec['seed'] % len(spec['phases'])
    m.primary_phase_id = k
    ex, ey, px, py, unsure = M.ref_edges(b, 10., b.syms[k])
    if unsure:
        return False
    if spec['seed'] & 1:
        judge(m.data.phase_boundaries, px, py, 'phase boundaries')
        judge(m.data.grain_boundaries, ex, ey, 'grain boundaries')
    else:
        judge(m.data['grain_boundaries'], ex, ey, 'grain boundaries')
        judge(m.data['phase_boundaries'], px, py, 'phase boundaries')
    return bool(ex.any() or ey.any())


images = st.tuples(st.integers(1, 8), st.integers(1, 8), st.integers(0, 2 ** 31 - 1),
                   st.sampled_from([0., 0.1, 0.5, 1.]))


@sub(images, quick=300, thorough=5000)
def set_forms(case):
    """Boundary sets built from images, points or segments. Non-trivial: some point."""
    h, w, seed, p = case
    rng = np.random.RandomState(seed)
    ix, iy = rng.rand(h, w) < p, rng.rand(h, w) < p

    class Owner:
        shape = (h, w)
    own = Owner()
    b = ebsd.BoundarySet.from_image(own, ix, iy)
    judge(b, ix, iy, 'from image')
    px = [(x, y) for y, x in zip(*ix.nonzero())]
    py = [(x, y) for y, x in zip(*iy.nonzero())]
    judge(ebsd.BoundarySet(own, px, py), ix, iy, 'from points')
    # segments: split points over a number of segments
    segs = [ebsd.BoundarySegment(own, k, -k) for k in range(1, 1 + rng.randint(1, 4))]
    for kind, pts in enumerate((px, py)):
        for pt in pts:
            sg = segs[rng.randint(len(segs))]
            sg.addBoundaryPoint(pt, kind, sg.grain1 if rng.rand() < .5 else sg.grain2)
    judge(ebsd.BoundarySet.from_boundary_segments(segs), ix, iy, 'from segments')
    check(sum(len(s) for s in segs) == len(px) + len(py), 'segment length')
    lx, ly, lines = ebsd.BoundarySet.boundary_points_to_lines(
        boundary_points_x=px, boundary_points_y=py)
    check(list(lines) == list(lx) + list(ly), 'lines are the x lines then the y lines')
    check(len(lx) == len(px) and len(ly) == len(py), 'line counts')
    for kw, pts, want in ((dict(boundary_points_x=px), px, lx),
                          (dict(boundary_points_y=py), py, ly)):
        check(list(ebsd.BoundarySet.boundary_points_to_lines(**kw)) == list(want),
              'lines of one direction')
    return bool(px or py)


@sub(st.tuples(M.large_specs(), TOL, TOL), quick=14, thorough=400)
def large(case):
    """Large maps. Non-trivial: has some boundary."""
    return edges(case) in ('some', 'all')
