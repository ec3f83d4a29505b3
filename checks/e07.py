import numpy as np
from hypothesis import strategies as st
from lib.framework import sub, check, close, same
from lib import strats as S, maps as M

OFF = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1)]


def candidates(q, y, x, tol):
    """(mean dot, average) of each of the 8 neighbourhoods; None if a member is borderline."""
    c = np.cos(np.deg2rad(tol) / 2)
    ref = q[:, y, x]
    out = []
    for dy, dx in OFF:
        win = q[:, y + dy - 1:y + dy + 2, x + dx - 1:x + dx + 2].reshape(4, -1)
        d = ref @ win
        if (np.abs(np.abs(d) - c) < 1e-10).any():
            return None
        keep = np.abs(d) > c
        av = (win * np.sign(d))[:, keep].sum(axis=1)
        out.append((np.abs(d)[keep].mean(), av / np.sqrt((av ** 2).sum())))
    return out


def quats_of(m):
    return np.moveaxis(np.array([[p.quat_coef for p in row] for row in m.data.orientation]), -1, 0)


@sub(st.tuples(st.one_of(M.ebsd_specs(hmin=1, hmax=6, wmin=1, wmax=6, nmax=3, spread=(0, 6)),
                         M.ebsd_specs(hmin=5, hmax=9, wmin=5, wmax=9, nmax=3, spread=(.5, 12)),
                         M.ebsd_specs(hmin=5, hmax=9, wmin=5, wmax=9, nmax=4, spread=(2, 6))),
               st.one_of(st.none(), S.fl(0.5, 20))), quick=800, thorough=25000)
def neighbourhoods(case):
    """Non-trivial: some pixel changes."""
    spec, tol = case
    b = M.Built(spec)
    m = b.map()
    kw = {} if tol is None else {'misori_tol': tol}
    m.filter_data(**kw)
    tol = 5. if tol is None else tol
    got = quats_of(m)
    h, w = b.shape
    check(got.shape == b.quats.shape, 'shape')
    close((got ** 2).sum(axis=0), np.ones((h, w)), 1e-9, 'not unit quaternions')
    check((got[0] >= 0).all(), 'not in the northern hemisphere')
    changed = False
    for y in range(h):
        for x in range(w):
            g = got[:, y, x]
            if y < 2 or x < 2 or y >= h - 2 or x >= w - 2:
                check(abs(g @ b.quats[:, y, x]) > 1 - 1e-9, f'border pixel {(y, x)} changed')
                continue
            cand = candidates(b.quats, y, x, tol)
            if cand is None:
                continue
            best = max(c[0] for c in cand)
            ok = any(c[0] > best - 1e-9 and np.abs(abs(c[1] @ g) - 1) < 1e-9 for c in cand)
            check(ok, lambda: f'pixel {(y, x)}: {g} is not the average of the most uniform '
                              f'neighbourhood {cand}')
            changed |= abs(g @ b.quats[:, y, x]) < 1 - 1e-9
    same(m.data.phase, b.phase, 'phase changed')
    same(m.data.band_contrast, b.bc, 'band contrast changed')
    return bool(changed)


@sub(st.tuples(st.integers(3, 9), st.integers(3, 9), S.euler, S.euler, st.integers(0, 9),
               st.booleans(), S.fl(1, 10)), quick=150, thorough=3000)
def straight_boundary(case):
    """Two uniform halves (or one) are unchanged. Non-trivial: both halves have pixels."""
    h, w, e1, e2, cut, vertical, tol = case
    b = M.Built({'shape': (h, w), 'layout': 'single', 'n': 1, 'seed': 1, 'phases': ['FCC'],
                 'oris': [e1], 'pid': [1], 'spread': 0., 'step': 1., 'specks': 0.})
    q2 = S.mat_to_quat(S.rot_euler(*e2))
    q1 = b.quats[:, 0, 0].copy()
    if abs(abs(q1 @ q2) - np.cos(np.deg2rad(tol) / 2)) < 1e-4:
        return False
    sel = np.zeros((h, w), bool)
    sel[(slice(None), slice(cut, None)) if vertical else slice(cut, None)] = True
    b.quats[:, sel] = q2[:, None]
    apart = abs(q1 @ q2) < np.cos(np.deg2rad(tol) / 2)
    b.euler = M.euler_from_quats(b.quats)
    m = b.map()
    m.filter_data(misori_tol=tol)
    dots = np.abs((quats_of(m) * b.quats).sum(axis=0))
    # the half planes are kept: each pixel has a neighbourhood inside its own half, unless the
    # half is thinner than a neighbourhood
    thick = min(cut, (w if vertical else h) - cut)
    if apart or thick >= 3 or thick <= 0:
        check((dots > 1 - 1e-9).all(), lambda: f'uniform halves changed: {dots}')
    return bool(sel.any() and not sel.all())


@sub(st.tuples(M.large_specs(30, kinds=('square', 'tiles')), st.one_of(st.none(), S.fl(0.5, 20))),
     quick=12, thorough=400)
def large(case):
    """Larger maps. Non-trivial: some pixel changes."""
    return neighbourhoods(case)
