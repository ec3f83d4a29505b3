import numpy as np
from hypothesis import strategies as st
from defdap.quat import Quat
from lib.framework import sub, check, close, same
from lib import strats as S


@st.composite
def clusters(draw):
    """A centre anywhere (often on the hemisphere boundary), a tight cloud about it."""
    sym = draw(S.sym_name)
    kind = draw(st.sampled_from(['any', 'boundary', 'euler']))
    if kind == 'any':
        centre = draw(S.quat4)
    elif kind == 'boundary':
        # a symmetric equivalent lies within a few degrees of the hemisphere boundary
        ax, w = draw(S.vec3), draw(S.fl(-0.03, 0.03))
        centre = S._unit4((w,) + tuple(S.uvec(ax) * np.sqrt(1 - w * w)))
    else:
        centre = Quat.from_euler_angles(*draw(S.euler)).quat_coef
    radius = draw(st.sampled_from([0., 1e-6, 0.01, 0.05, 0.12]))
    offs = draw(st.lists(st.tuples(S.fl(-1, 1), S.fl(-1, 1), S.fl(-1, 1)), min_size=1,
                         max_size=9))
    ks = draw(st.lists(st.integers(0, 23), min_size=len(offs), max_size=len(offs)))
    perm = draw(st.permutations(list(range(len(offs)))))
    return sym, tuple(map(float, centre)), radius, tuple(offs), tuple(ks), tuple(perm), kind


def rotvec_quat(v):
    v = np.asarray(v, float)
    t = np.sqrt((v ** 2).sum())
    s = np.sinc(t / 2 / np.pi) / 2
    return np.concatenate([[np.cos(t / 2)], s * v])


def average(quats, sym):
    return Quat.calc_average_ori(Quat.calc_sym_eqvs(quats, sym))


def logdiff(q, centre, sym):
    """Rotation vector from centre to the closest equivalent of q."""
    best = None
    inv = np.array(centre) * np.array([1, -1, -1, -1])
    for s in S.SYMQ[sym]:
        r = S.qmul(S.qmul(s, q), inv)
        r = r if r[0] >= 0 else -r
        n = np.sqrt((r[1:] ** 2).sum())
        t = 2 * np.arctan2(n, r[0])
        v = r[1:] * (t / n if n > 1e-12 else 2)
        if best is None or t < best[0]:
            best = (t, v)
    return best[1]


@sub(clusters(), quick=1800, thorough=60000)
def cluster(case):
    """Non-trivial: at least two members and a symmetric equivalent substituted."""
    sym, centre, radius, offs, ks, perm, kind = case
    offs = np.array(offs)
    n = np.maximum(1, np.sqrt((offs ** 2).sum(axis=1)))
    offs = offs / n[:, None] * radius
    members = [Quat(S.qmul(rotvec_quat(o), centre)) for o in offs]
    av = average(members, sym)
    check(isinstance(av, Quat), 'average is not a Quat')
    close(np.sqrt((np.array(av.quat_coef) ** 2).sum()), 1, 1e-9, 'average is not a unit quaternion')
    d = logdiff(av.quat_coef, centre, sym)
    lens = np.sqrt((offs ** 2).sum(axis=1))
    check(np.sqrt((d ** 2).sum()) <= lens.max() + 1e-6,
          f'average {np.rad2deg(np.sqrt((d**2).sum())):.4f} deg from the centre of a cluster of '
          f'radius {np.rad2deg(lens.max()):.4f} deg')
    # central: first order equal to the mean displacement
    close(d, offs.mean(axis=0), 0.03 * radius + 1e-6, 'average is not central')
    # representation independence
    n_ops = len(S.SYMQ[sym])
    subst = [Quat(S.qmul(S.SYMQ[sym][k % n_ops], m.quat_coef)) for k, m in zip(ks, members)]
    av2 = average(subst, sym)
    check(S.disori_q(av.quat_coef, av2.quat_coef, sym) < 1e-6,
          'average changed by symmetric equivalents of the members')
    av3 = average([members[i] for i in perm], sym)
    check(S.disori_q(av.quat_coef, av3.quat_coef, sym) < 1e-6 + 0.05 * radius * 0,
          'average changed by the order of the members')
    # duplicates of the whole cluster do not move the average
    av4 = average(members + members, sym)
    check(S.disori_q(av.quat_coef, av4.quat_coef, sym) < 1e-6, 'average changed by duplication')
    return kind if len(offs) > 1 and any(ks) else False


@sub(st.tuples(S.sym_name, S.quat4, st.integers(1, 30)), quick=500, thorough=20000)
def identical(case):
    """Non-trivial: at least two copies."""
    sym, q, n = case
    quats = [Quat(*q) for _ in range(n)]
    comps = Quat.calc_sym_eqvs(quats, sym)
    keep = comps.copy()
    av = Quat.calc_average_ori(comps)
    same(comps, keep, 'average changed its input')
    check(S.disori_q(av.quat_coef, q, sym) < 1e-6, f'average of copies of {q} is {av}')
    return n > 1


@sub(st.tuples(S.sym_name, S.quat4, st.integers(200, 4000), st.sampled_from([1e-3, .02, .1]),
               st.integers(0, 2 ** 31 - 1), st.integers(0, 3)), quick=25, thorough=800)
def many(case):
    """Clusters of thousands of orientations; a part of them, anywhere in the order, is offset.
    Non-trivial: always."""
    sym, centre, n, radius, seed, where = case
    rng = np.random.RandomState(seed)
    offs = rng.uniform(-1, 1, (n, 3)) * radius / 4
    part = rng.rand(n) < .3 if where == 0 else np.arange(n) >= n // 2 if where == 1 else \
        np.arange(n) < n // 3 if where == 2 else np.arange(n) % 2 == 0
    offs[part] += S.uvec(rng.randn(3)) * radius / 2
    t = np.sqrt((offs ** 2).sum(axis=1))
    r = np.concatenate([np.cos(t / 2)[None], (np.sinc(t / 2 / np.pi) / 2)[None] * offs.T])
    q = S.qmul(r, np.repeat(np.array(centre)[:, None], n, axis=1))
    ks = rng.randint(0, len(S.SYMQ[sym]), n)
    q = np.array([S.qmul(S.SYMQ[sym][k], p) for k, p in zip(ks, q.T)])
    av = average([Quat(p) for p in q], sym)
    d = logdiff(av.quat_coef, centre, sym)
    close(d, offs.mean(axis=0), 0.03 * radius + 1e-6, 'average of many is not central')
    return True
