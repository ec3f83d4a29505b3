import numpy as np
from hypothesis import strategies as st
from defdap.crystal import crystalStructures
from defdap.plotting import CrystalPlot
from defdap.quat import Quat
from lib.framework import sub, check, close
from lib import strats as S
from lib import maps as M
from lib import plot as P
from lib.cell import judge


def view(plot):
    """Looking down the sample normal with x to the right and y up."""
    check((plot.ax.elev, plot.ax.azim) == (90, 270), 'direction of view')
    lims = [plot.ax.get_xlim3d(), plot.ax.get_ylim3d(), plot.ax.get_zlim3d()]
    check(all(np.allclose(l, lims[0]) for l in lims) and lims[0][0] < 0 < lims[0][1], 'same scale along every axis')


@sub(st.tuples(S.sym_name, S.quat4, st.sampled_from([None, True, False]), st.integers(0, 23), st.booleans(),
               st.sampled_from([{}, {'alpha': 0.25}, {'facecolor': 'r'}])), 150, 6000)
def cells(case):
    """Cells of single orientations, and of symmetric equivalents on the same plot. Non-trivial: cell tilted."""
    sym, q, oi, k, again, kw = case
    okw = {} if oi is None else {'OI': oi}
    oi = oi is not False
    with P.headless():
        o = Quat(*q)
        plot = o.plot_unit_cell(crystalStructures[sym], **okw, **kw)
        check(isinstance(plot, CrystalPlot) and len(plot.ax.collections) == 1, 'one cell')
        pts, size = judge(plot.ax.collections[0], sym, q, oi)
        view(plot)
        close(abs(np.dot(o.quat_coef, q)), 1, 1e-12, 'orientation changed')
        if again:
            sq = S.SYMQ[sym]
            q2 = S.qmul(sq[k % len(sq)], q)
            back = Quat(*q2).plot_unit_cell(crystalStructures[sym], plot=plot, **okw)
            check(back is plot and len(plot.ax.collections) == 2, 'added to the plot given')
            p2, s2 = judge(plot.ax.collections[1], sym, q2, oi)
            close(s2, size, 1e-9, 'size of the cell')
            d = np.linalg.norm(p2[:, None] - pts[None], axis=2)
            check(d.min(axis=1).max() < 1e-6, 'equivalent orientations have the same cell')
            judge(plot.ax.collections[0], sym, q, oi)
    return abs(S.rot_quat(q)[2, 2]) < 0.99


@sub(st.tuples(M.ebsd_specs(hmin=2, wmin=2, hmax=7, wmax=7), st.integers(0, 99)), 40, 1500)
def grains(case):
    """Cells of grains of a map, each with its own structure. Non-trivial: several grains."""
    spec, pick = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=1)
    m.calc_grain_av_oris()
    if not len(m):
        return None
    with P.headless():
        for i in {pick % len(m), 0, len(m) - 1}:
            g = m[i]
            x, y = g.data.point[0]
            sym = M.SYM_OF[spec['phases'][int(b.phase[y, x]) - 1]]
            plot = g.plot_unit_cell() if pick % 2 else g.plot_default()
            judge(plot.ax.collections[0], sym, g.ref_ori.quat_coef, True)
            view(plot)
    return len(m) > 1
