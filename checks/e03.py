import numpy as np
from hypothesis import strategies as st
from defdap.quat import Quat
from lib.framework import sub, check, close, same
from lib import strats as S, maps as M

TIGHT = 2 * np.cos(np.deg2rad(12) / 2) ** 2 - 1


def closest(quats, ref, sym):
    """Equivalents of quats (4, n) closest to ref, in its hemisphere."""
    best, bd = None, None
    for s in S.SYMQ[sym]:
        c = S.qmul(s, quats)
        d = np.asarray(ref) @ c
        c = np.where(d < 0, -c, c)
        d = np.abs(d)
        if best is None:
            best, bd = c.copy(), d.copy()
        else:
            sel = d > bd
            best[:, sel], bd[sel] = c[:, sel], d[sel]
    return best, bd


def ref_average(quats, sym):
    """(average, all members near it): None where the average is not well defined."""
    ref = quats[:, 0]
    for _ in range(3):
        c, d = closest(quats, ref, sym)
        ref = c.sum(axis=1)
        ref = ref / np.sqrt((ref ** 2).sum())
    c, d = closest(quats, ref, sym)
    return ref, d.min() > np.cos(np.deg2rad(10.) / 2)


def judge_grain(g, b, own_ref=None):
    """True if the grain has a well defined average."""
    sym = b.syms[g.phase_id]
    pts = np.array(g.data.point)
    q = b.quats[:, pts[:, 1], pts[:, 0]]
    av, tight = ref_average(q, sym)
    if own_ref is None:
        if not tight:
            return False
        dis = S.disori_q(g.ref_ori.quat_coef, av, sym)
        check(dis < 1e-6, f'reference orientation {dis} rad from the average of the pixels')
    ref = np.array(g.ref_ori.quat_coef, float)
    close((ref ** 2).sum(), 1., 1e-9, 'reference orientation not of unit length')
    want = S.disori_many(q, ref, sym)
    n = len(pts)
    cosines = np.array(g.mis_ori_list, float)
    close(cosines, np.cos(want / 2), 1e-9, 'misorientation list')
    close(g.average_mis_ori, cosines.mean(), 1e-9, 'average misorientation')
    grod, axis = np.asarray(g.data.GROD), np.asarray(g.data.GROD_axis)
    close(grod, want, 1e-6, 'GROD')
    check(axis.shape == (3, n), f'GROD axis shape {axis.shape}')
    check(np.isfinite(axis).all(), 'GROD axis undefined')
    close(np.sqrt((axis ** 2).sum(axis=0)), want, 1e-6, 'GROD axis length')
    # the rotation takes the reference to a symmetric equivalent of the pixel
    half = np.sqrt((axis ** 2).sum(axis=0)) / 2
    k = np.where(half > 0, np.sin(half) / np.where(half > 0, 2 * half, 1), .5)
    rot = np.concatenate([np.cos(half)[None], k * axis])
    got = S.qmul(rot, [np.full(n, x) for x in ref])
    close(S_disori_pair(got, q, sym), np.zeros(n), 2e-6, 'GROD axis does not lead to the pixel')
    if g.mis_ori_axis_list is not None:
        close(np.array(g.mis_ori_axis_list).T, axis, 1e-6, 'misorientation axis list')
    return True


def S_disori_pair(qa, qb, sym):
    return M.misori_to(np.asarray(qa), np.asarray(qb), sym)


cases = st.tuples(M.ebsd_specs(hmax=7, wmax=7, nmax=4), S.fl(3.5, 12), st.integers(1, 4),
                  st.lists(st.sampled_from(['ori', 'mis', 'axis', 'grod', 'grodmap']), max_size=4))


@sub(cases, quick=400, thorough=12000)
def grains(case):
    """Non-trivial: a grain of at least two different orientations."""
    spec, tol, mins, history = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grain_boundaries', misori_tol=tol)
    m.data.generate('grains', min_grain_size=mins)
    if not len(m):
        return False
    for op in history:
        if op == 'ori':
            m.calc_grain_av_oris()
        elif op == 'mis':
            m.calc_grain_mis_ori()
        elif op == 'axis':
            m.calc_grain_mis_ori(calc_axis=True)
        elif op == 'grod':
            m[len(m) - 1].data.GROD
        else:
            m.data.GROD_axis
    if m[0].ref_ori is None:
        m.calc_grain_av_oris()
    m.calc_grain_mis_ori(calc_axis=bool(spec['seed'] & 1))
    n = sum(judge_grain(g, b) for g in m)
    # map forms
    lab = m.data.grains
    for name, lead in (('GROD', ()), ('GROD_axis', (3,))):
        want = np.zeros(lead + b.shape)
        for g in m:
            for k, (x, y) in enumerate(g.data.point):
                want[..., y, x] = np.asarray(g.data[name])[..., k]
        same(m.data[name], want, f'map of {name}')
        check((np.asarray(m.data[name])[..., lab <= 0] == 0).all(), 'value outside the grains')
    return n > 0 and spec['spread'] > 0


@sub(st.tuples(M.ebsd_specs(hmax=5, wmax=5, nmax=3, nonindexed=False), S.euler_plain,
               st.booleans()), quick=150, thorough=3000)
def own_reference(case):
    """Values are relative to a reference set by the user. Non-trivial: always."""
    spec, e, axis = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=1)
    ref = S.mat_to_quat(S.rot_euler(*e))
    for g in m:
        g.ref_ori = Quat(*ref)
    m.calc_grain_mis_ori(calc_axis=axis)
    for g in m:
        judge_grain(g, b, own_ref=ref)
        same(np.array(g.ref_ori.quat_coef), np.array(Quat(*ref).quat_coef), 'reference replaced')
    return True


@sub(st.tuples(M.ebsd_specs(hmax=4, wmax=5, nmax=3, nonindexed=False, spread=(0., 0.))),
     quick=150, thorough=3000)
def uniform(case):
    """Uniform grains have zero misorientation. Non-trivial: always."""
    spec = dict(case[0], spread=0.)
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grain_boundaries', misori_tol=0.5)
    m.data.generate('grains', min_grain_size=1)
    m.calc_grain_mis_ori(calc_axis=True)
    for g in m:
        pts = np.array(g.data.point)
        if len(set(b.label[pts[:, 1], pts[:, 0]])) > 1:
            continue
        close(np.array(g.mis_ori_list), np.ones(len(g)), 1e-9, 'misorientation of a uniform grain')
        close(np.array(g.mis_ori_axis_list), np.zeros((len(g), 3)), 1e-6, 'axis of a uniform grain')
        close(g.data.GROD, np.zeros(len(g)), 1e-6, 'GROD of a uniform grain')
        close(g.data.GROD_axis, np.zeros((3, len(g))), 1e-6, 'GROD axis of a uniform grain')
    return True


@sub(st.tuples(M.ebsd_specs(hmin=2, hmax=5, wmin=2, wmax=6, nmax=3), st.integers(0, 3),
               st.lists(st.integers(0, 2), min_size=2, max_size=3)), quick=100, thorough=1500)
def misori_plot(case):
    """The misorientation map holds each grain's values. Non-trivial: a grain exists."""
    import matplotlib.pyplot as plt
    spec, comp, some = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=1)
    for i, g in enumerate(m):
        # for some grains calculated before
        if some[i % len(some)]:
            g.build_mis_ori_list(calc_axis=some[i % len(some)] == 2)
    try:
        plot = m.plot_mis_ori_map(component=comp)
        img = np.asarray(plot.img_layers[0].get_array())
        want = np.zeros(b.shape)
        for g in m:
            for k, (x, y) in enumerate(g.data.point):
                if comp:
                    want[y, x] = np.rad2deg(g.mis_ori_axis_list[k][comp - 1])
                else:
                    want[y, x] = 2 * np.rad2deg(np.arccos(g.mis_ori_list[k]))
        close(img, want, 1e-6, f'misorientation plot, component {comp}')
    finally:
        plt.close('all')
    return len(m) > 0


@sub(st.tuples(M.large_specs(40), S.fl(3.5, 12), st.integers(1, 4), st.just(['mis'])),
     quick=4, thorough=150)
def large(case):
    """Large grains or many grains. Non-trivial: a grain of different orientations."""
    return grains(case)
