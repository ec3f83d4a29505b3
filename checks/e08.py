import numpy as np
from hypothesis import strategies as st
from defdap import ebsd
from lib.framework import sub, check, close, same
from lib import strats as S, maps as M


def adjacency(lab, ex, ey):
    """{(label, label) sorted: (x points with owner, y points with owner)}."""
    h, w = lab.shape
    out = {}
    for kind, im in ((0, ex), (1, ey)):
        for y, x in zip(*im.nonzero()):
            if x in (0, w - 1) or y in (0, h - 1):
                continue
            a, b = lab[y, x], lab[y + kind, x + 1 - kind]
            if a <= 0 or b <= 0 or a == b:
                continue
            out.setdefault((min(a, b), max(a, b)), ([], []))[kind].append(((x, y), a))
    return out


@sub(st.tuples(st.one_of(M.ebsd_specs(hmin=1, hmax=9, wmin=1, wmax=9, nmax=6),
                         M.ebsd_specs(hmin=4, hmax=10, wmin=4, wmax=10, nmax=6, nonindexed=False),
                         M.ebsd_specs(hmin=4, hmax=10, wmin=4, wmax=10, nmax=6)), S.fl(1., 15), st.integers(1, 6),
               st.booleans()), quick=450, thorough=12000)
def network(case):
    """Non-trivial: at least one pair of neighbours."""
    spec, tol, mins, stale = case
    b = M.Built(spec)
    m = b.map()
    k = spec['seed'] % len(spec['phases'])
    m.primary_phase_id = k
    ex, ey, _, _, unsure = M.ref_edges(b, tol, b.syms[k])
    if unsure:
        return False
    if stale:
        m.build_neighbour_network()
    m.data.generate('grain_boundaries', misori_tol=tol)
    m.data.generate('grains', min_grain_size=mins)
    lab = np.asarray(m.data.grains)
    m.build_neighbour_network()
    nn = m.neighbour_network
    check(set(nn.nodes) == set(m.grains) and len(nn.nodes) == len(m), 'nodes are not the grains')
    want = adjacency(lab, ex, ey)
    got = {tuple(sorted((u.grain_id + 1, v.grain_id + 1))): d['boundary']
           for u, v, d in nn.edges(data=True)}
    check(set(got) == set(want), lambda: f'neighbours {sorted(got)} expected {sorted(want)}\n{lab}')
    m.calc_grain_av_oris()
    for pair, seg in got.items():
        wx, wy = want[pair]
        g1 = seg.grain1.grain_id + 1
        check(tuple(sorted((g1, seg.grain2.grain_id + 1))) == pair, 'grains of the segment')
        check(seg.ebsdMap is m, 'map of the segment')
        for pts, w, pairs, d in ((seg.boundary_points_x, wx, seg.boundary_point_pairs_x, (1, 0)),
                                 (seg.boundary_points_y, wy, seg.boundary_point_pairs_y, (0, 1))):
            pts = [tuple(map(int, p)) for p in pts]
            check(sorted(pts) == sorted((int(x), int(y)) for (x, y), _ in w),
                  f'points of segment {pair}')
            check(len(pairs) == len(pts), 'number of point pairs')
            for p, (p1, p2) in zip(pts, pairs):
                q = (p[0] + d[0], p[1] + d[1])
                check({tuple(map(int, p1)), tuple(map(int, p2))} == {p, q}, 'pair of points')
                check(lab[p1[1], p1[0]] == g1, 'first point of the pair is not in grain1')
                check(lab[p2[1], p2[0]] == seg.grain2.grain_id + 1, 'second point of the pair')
        check(len(seg) == len(wx) + len(wy) == len(seg.boundary_lines), 'segment length')
        q1, q2 = seg.grain1.ref_ori.quat_coef, seg.grain2.ref_ori.quat_coef
        angle, axis = seg.misorientation()
        dis = S.disori_q(q1, q2, b.syms[k])
        close(angle, dis, 1e-6, 'misorientation of the segment')
        if dis > 1e-3:
            close(np.sqrt((np.asarray(axis) ** 2).sum()), 1., 1e-6, 'axis not a unit vector')
    if got:
        segs = list(got.values())
        s = ebsd.BoundarySet.from_boundary_segments(segs)
        check(s.points_x == {(int(x), int(y)) for w in want.values() for (x, y), _ in w[0]} and
              s.points_y == {(int(x), int(y)) for w in want.values() for (x, y), _ in w[1]},
              'boundary set of all segments')
    # a segment is the pair of grains it lies between, in any order
    segs = list(got.items())[:12]
    for p, s in segs:
        for r, t in segs:
            check((s == t) is (p == r), lambda: f'segments of {p} and {r} equal: {s == t}')
            t = ebsd.BoundarySegment(m, t.grain2, t.grain1)
            check((s == t) is (p == r), lambda: f'segment of {p} and reversed one of {r} equal: {s == t}')
    for g in m:
        near = {v.grain_id + 1 for v in nn.neighbors(g)}
        check(near == {a if c == g.grain_id + 1 else c for a, c in want if g.grain_id + 1 in (a, c)},
              'neighbours of a grain')
    return 'several phases' if got and len(set(b.phase.ravel())) > 1 else bool(got)


@sub(st.tuples(M.large_specs(44, spread=(0., .5)), S.fl(1., 15), st.integers(1, 4),
               st.booleans()), quick=5, thorough=150)
def large(case):
    """Hundreds of grains, long boundaries. Non-trivial: some neighbours."""
    return bool(network(case))
