import contextlib
import io
import re
import numpy as np
from hypothesis import strategies as st
from defdap import ebsd, hrdic        # noqa: F401
from defdap.crystal import SlipSystem, crystalStructures
from defdap.quat import Quat
from lib.framework import sub, check, close
from lib import strats as S, maps as M

FILES = {'FCC': ['cubic_fcc', 'cubic_fcc_damask'], 'BCC': ['cubic_bcc', 'cubic_bcc_110only'],
         'HEX': ['hexagonal_withca', 'hexagonal_noca']}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['FCC', 'BCC', 'HEX']))
    q = draw(st.one_of(S.quat4, S.euler.map(
        lambda e: tuple(map(float, S._unit4(S.mat_to_quat(S.rot_euler(*e))))))))
    return {'kind': kind, 'q': q, 'load': draw(st.one_of(
        S.vec3, st.sampled_from([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -2)]))),
        'file': draw(st.sampled_from([None] + FILES[kind])),
        'form': draw(st.sampled_from(['array', 'list', 'tuple', 'int']))}


def grain(kind, q):
    e = M.euler_from_quats(np.array(q).reshape(4, 1, 1))
    m = ebsd.Map({'step_size': 1., 'phases': [M.make_phase(kind)],
                  'phase': np.ones((1, 1), np.uint8), 'euler_angle': e,
                  'band_contrast': np.zeros((1, 1))}, data_type='pythondict')
    m.data.generate('grains', min_grain_size=1)
    return m, m.grains[0]


def systems(c):
    if c['file'] is None:
        return None, M.make_phase(c['kind']).slip_systems
    ca = 4.683 / 2.95 if c['kind'] == 'HEX' else None
    ss, _ = SlipSystem.load(c['file'], crystalStructures[M.SYM_OF[c['kind']]], c_over_a=ca)
    return ss, ss


def vec(load, form):
    return {'array': np.array(load, float), 'list': list(load), 'tuple': tuple(load),
            'int': np.array(load, int) if np.allclose(load, np.round(load)) and any(
                int(x) for x in load) else np.array(load, float)}[form]


def ref_sf(q, load, ss):
    v = S.rot_quat(q) @ S.uvec(load)
    return [[abs((v @ S.uvec(s.slip_plane)) * (v @ S.uvec(s.slip_dir))) for s in g] for g in ss]


def judge_sf(got, want, msg):
    check([len(g) for g in got] == [len(g) for g in want], f'{msg}: groups')
    a, b = [np.array([x for g in y for x in g], float) for y in (got, want)]
    close(a, b, 1e-6, f'{msg}: Schmid factors')
    check((a >= 0).all() and (a <= .5 + 1e-9).all(), f'{msg}: outside [0, 0.5]')
    return a


@sub(st.tuples(cases(), st.tuples(S.fl(0.01, 300), st.booleans()), S.quat4,
               st.integers(0, 23)), quick=300, thorough=8000)
def schmid(case):
    """Formula; scaling and reversing the load; rotating grain and load; equivalents.
    Non-trivial: always."""
    c, (scale, neg), r, k = case
    m, g = grain(c['kind'], c['q'])
    arg, ss = systems(c)
    load = vec(c['load'], c['form'])
    keep = np.array(load, float)
    kw = {} if arg is None else {'slip_systems': arg}
    m.calc_average_grain_schmid_factors(load, **kw)
    base = judge_sf(g.average_schmid_factors, ref_sf(c['q'], keep, ss), 'map')
    check((np.array(load, float) == keep).all(), 'load changed')
    g.calc_average_schmid_factors(keep * (-scale if neg else scale), **kw)
    judge_sf(g.average_schmid_factors, ref_sf(c['q'], keep, ss), 'scaled load')
    # rotate the sample: load and grain together
    rot = S.rot_quat(r)
    q2 = S.qmul(c['q'], np.array([r[0], -r[1], -r[2], -r[3]]))
    _, g2 = grain(c['kind'], q2)
    g2.calc_average_schmid_factors(rot @ keep, **kw)
    judge_sf(g2.average_schmid_factors, ref_sf(c['q'], keep, ss), 'sample rotated')
    # an equivalent description permutes the systems
    sq = S.SYMQ[M.SYM_OF[c['kind']]]
    _, g3 = grain(c['kind'], S.qmul(sq[k % len(sq)], c['q']))
    g3.calc_average_schmid_factors(keep, **kw)
    got = np.sort([x for y in g3.average_schmid_factors for x in y])
    close(got, np.sort(base), 1e-6, 'Schmid factors of a symmetric equivalent')
    return True


def judge_traces(g, q, ss, msg):
    """Each trace lies in the surface and in its plane."""
    ang, inc = g.slip_trace_angles, g.slip_trace_inclinations
    check(len(ang) == len(ss) == len(inc), f'{msg}: number of traces')
    lines = []
    for a, i, grp in zip(ang, inc, ss):
        n = S.rot_quat(q).T @ S.uvec(grp[0].slip_plane)
        tilt = np.arctan2(np.hypot(n[0], n[1]), abs(n[2]))
        close(i, tilt, 2e-7, f'{msg}: inclination of {grp[0]}')
        if tilt < 1e-5:
            continue                # plane parallel to the surface: no trace
        check(np.isfinite(a) and -1e-9 <= a <= np.pi + 1e-9, f'{msg}: trace angle {a}')
        t = np.array([-np.sin(a), np.cos(a), 0])
        close(t @ n / np.sin(tilt), 0, 1e-6, f'{msg}: trace of {grp[0]} not in its plane')
        lines.append((tilt, a % np.pi))
    return lines


@sub(st.tuples(cases(), st.integers(0, 23), st.booleans()), quick=400, thorough=12000)
def traces(case):
    """Non-trivial: at least one plane cuts the surface."""
    c, k, direct = case
    m, g = grain(c['kind'], c['q'])
    arg, ss = systems(c)
    if arg is None and not direct:
        ang = g.slip_traces
        check(ang is g.slip_trace_angles or list(ang) == list(g.slip_trace_angles), 'property')
    else:
        g.calc_slip_traces(slip_systems=arg)
        kept = list(g.slip_trace_angles)
        check(list(g.slip_traces) == kept and list(g.slip_trace_angles) == kept, 'traces of the systems given')
    lines = judge_traces(g, c['q'], ss, 'grain')
    sq = S.SYMQ[M.SYM_OF[c['kind']]]
    q3 = S.qmul(sq[k % len(sq)], c['q'])
    m3, g3 = grain(c['kind'], q3)
    g3.calc_slip_traces(slip_systems=arg)
    other = judge_traces(g3, q3, ss, 'equivalent')
    # same set of lines and inclinations
    left = list(other)
    for t, a in lines:
        if t < 2e-5:
            continue            # may count as parallel for the other
        hit = [i for i, (u, b) in enumerate(left)
               if abs(u - t) < 1e-5 and min(abs(a - b), np.pi - abs(a - b)) * np.sin(t) < 1e-5]
        check(hit, lambda: f'trace {np.rad2deg([t, a])} missing for an equivalent orientation')
        left.pop(hit[0])
    return bool(lines)


@sub(st.tuples(M.ebsd_specs(hmin=2, hmax=7, wmin=2, wmax=7, spread=(0, 2)), S.vec3, st.integers(0, 2**31)),
     quick=60, thorough=1500)
def whole_map(case):
    """Every grain of a map from its own phase and average orientation, and the plotted maximum.
    Non-trivial: more than one grain."""
    import matplotlib.pyplot as plt
    spec, load, pick = case
    b = M.Built(spec)
    m = b.map()
    m.data.generate('grains', min_grain_size=1)
    if len(m.grains) == 0:
        return False
    m.calc_average_grain_schmid_factors(np.array(load))
    lab = np.asarray(m.data.grains)
    want = np.full(b.shape, 0.5)
    for i, g in enumerate(m.grains):
        y, x = np.argwhere(lab == i + 1)[0]
        ss = m.phases[int(b.phase[y, x]) - 1].slip_systems
        g.calc_slip_traces()
        q = tuple(float(v) for v in g.ref_ori.quat_coef)
        sf = judge_sf(g.average_schmid_factors, ref_sf(q, load, ss), f'grain {i}')
        judge_traces(g, q, ss, f'grain {i}')
        want[lab == i + 1] = sf.max()
        # printed list: planes with colour and angle, each direction with its factor
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            g.print_slip_traces()
        lines = iter(out.getvalue().splitlines())
        cols = g.phase.slip_trace_colours
        for k, (grp, t, fs) in enumerate(zip(ss, g.slip_traces, g.average_schmid_factors)):
            line = next(lines, '')
            num = [float(x) for x in re.findall(r'-?[\d.]+|nan', line.split('Angle')[-1])]
            check(grp[0].slip_plane_label in line and f'Colour: {cols[min(k, len(cols) - 1)]}'
                  in line and len(num) == 1 and (not np.isfinite(t) or abs(num[0] - np.rad2deg(t))
                                                 < .00501),
                  lambda: f'printed {line!r} for {grp[0]}, trace at {np.rad2deg(t)}')
            for s, f in zip(grp, fs):
                line = next(lines, '')
                check(s.slip_dir_label in line and line.strip().endswith(f'{f:.3f}'),
                      lambda: f'printed {line!r} for {s}, Schmid factor {f}')
        check(next(lines, None) is None, 'more lines printed')
    plot = m.plot_average_grain_schmid_factors_map()
    check(any(ax.get_ylabel() == 'Schmid factor' for ax in plot.fig.axes if ax is not plot.ax), 'colour bar')
    got = np.asarray(plot.img_layers[0].get_array())
    plt.close(plot.fig)
    close(got, want, 1e-6, 'map of largest Schmid factors')
    # chosen planes and directions
    rng = np.random.default_rng(pick)
    n = min(len(g.average_schmid_factors) for g in m.grains)
    planes = [int(i) for i in rng.choice(n, rng.integers(1, n + 1), replace=False)] if pick % 3 else None
    n = min(len(x) for g in m.grains for x in (
        g.average_schmid_factors if planes is None else [g.average_schmid_factors[p] for p in planes]))
    dirs = [int(i) for i in rng.choice(n, rng.integers(1, n + 1), replace=False)] if pick % 2 else None
    plot = m.plot_average_grain_schmid_factors_map(planes=planes, directions=dirs)
    got = np.asarray(plot.img_layers[0].get_array())
    plt.close(plot.fig)
    for i, g in enumerate(m.grains):
        groups = g.average_schmid_factors if planes is None else [g.average_schmid_factors[p] for p in planes]
        want[lab == i + 1] = max(x for gr in groups for x in (gr if dirs is None else [gr[d] for d in dirs]))
    close(got, want, 1e-9, f'map of largest Schmid factors of planes {planes}, directions {dirs}')
    return len(m.grains) > 1
