"""Builders of in-memory EBSD and DIC maps from plain, shrinkable descriptions."""
import copy
import itertools
import os
import pathlib

import numpy as np
from hypothesis import strategies as st

from lib import strats as S

SCRATCH = pathlib.Path(os.environ.get('VERIF_SCRATCH', '/tmp'))
_count = itertools.count()

PHASES = {
    'FCC': ('Nickel', 11, 225, (3.524, 3.524, 3.524, np.pi / 2, np.pi / 2, np.pi / 2)),
    'BCC': ('Iron', 11, 229, (2.866, 2.866, 2.866, np.pi / 2, np.pi / 2, np.pi / 2)),
    'HEX': ('Titanium', 9, 194, (2.95, 2.95, 4.683, np.pi / 2, np.pi / 2, 2 * np.pi / 3)),
}
SYM_OF = {'FCC': 'cubic', 'BCC': 'cubic', 'HEX': 'hexagonal'}


def scratch(suffix):
    return SCRATCH / f'f{next(_count)}{suffix}'


def make_phase(kind):
    from defdap.crystal import Phase
    return Phase(*PHASES[kind])


# ------------------------------------------------------------------ region layouts
def layout(kind, h, w, n, seed):
    """Integer label image (0..n-1) of the given kind."""
    rng = np.random.RandomState(seed)
    if kind == 'single' or n == 1:
        return np.zeros((h, w), int)
    if kind == 'random':
        return rng.randint(0, n, (h, w))
    if kind == 'rows':
        return np.repeat(rng.randint(0, n, h)[:, None], w, axis=1)
    if kind == 'cols':
        return np.repeat(rng.randint(0, n, w)[None, :], h, axis=0)
    if kind == 'checker':
        return (np.add.outer(np.arange(h), np.arange(w)) % n)
    if kind == 'blocks':
        by, bx = rng.randint(1, max(2, h // 2 + 1)), rng.randint(1, max(2, w // 2 + 1))
        lab = rng.randint(0, n, ((h - 1) // by + 1, (w - 1) // bx + 1))
        return np.kron(lab, np.ones((by, bx), int))[:h, :w]
    if kind.startswith('tiles'):
        t = int(kind[5:])
        nx = -(-w // t)
        return (np.arange(h)[:, None] // t * nx + np.arange(w)[None] // t) % n
    if kind == 'bands':
        # wide straight grains crossing the whole map
        m, horizontal = (h, True) if rng.rand() < 0.5 else (w, False)
        edges = np.cumsum(rng.randint(5, 9, n))
        line = np.searchsorted(edges, np.arange(m), side='right') % n
        return np.tile(line[:, None], (1, w)) if horizontal else np.tile(line[None], (h, 1))
    # voronoi
    py, px = rng.uniform(-1, h, n), rng.uniform(-1, w, n)
    y, x = np.mgrid[:h, :w]
    return np.argmin((y[..., None] - py) ** 2 + (x[..., None] - px) ** 2, axis=-1)


layouts = st.sampled_from(['single', 'voronoi', 'voronoi', 'voronoi', 'random', 'rows', 'cols',
                           'blocks', 'blocks', 'checker'])


@st.composite
def ebsd_specs(draw, hmin=1, hmax=10, wmin=1, wmax=10, nmax=6, phases=None, spread=(0., 3.),
               nonindexed=True, kinds=layouts, single_phase=False, nmin=1):
    """Plain description of an EBSD map."""
    h, w = draw(st.integers(hmin, hmax)), draw(st.integers(wmin, wmax))
    n = draw(st.integers(nmin, nmax))
    kind = draw(kinds)
    if phases is None:
        plist = draw(st.sampled_from([('FCC',), ('HEX',), ('BCC',), ('FCC', 'BCC'),
                                      ('HEX', 'BCC'), ('FCC', 'HEX'), ('HEX', 'FCC', 'BCC'),
                                      ('FCC', 'HEX', 'BCC', 'HEX', 'FCC', 'BCC', 'HEX')]))
    else:
        plist = draw(phases)
    if single_phase:
        plist = plist[:1]
    lo = 0 if nonindexed and draw(st.booleans()) else 1
    base = draw(S.euler_plain)
    rel = draw(st.sampled_from(['any', 'any', 'near', 'sym']))
    oris = []
    for i in range(n):
        if rel == 'any':
            oris.append(draw(S.euler_plain))
        else:
            # small rotations from a common base (misorientations around typical tolerances)
            oris.append((base, draw(S.vec3), draw(S.fl(0, 0.5)),
                         draw(st.integers(0, 23)) if rel == 'sym' else 0))
    pid = [draw(st.integers(lo, len(plist))) for _ in range(n)]
    return {
        'shape': (h, w), 'layout': kind, 'n': n, 'seed': draw(st.integers(0, 2 ** 31 - 1)),
        'phases': list(plist), 'oris': oris, 'pid': pid,
        'spread': draw(st.one_of(st.just(0.), S.fl(*spread))),
        'step': draw(st.sampled_from([1., 0.1, 2.5, 0.37])),
        'specks': draw(st.sampled_from([0., 0., 0.1])) if nonindexed else 0.,
    }


def _large(t):
    kind, seed, phases, spread, size = t
    rng = np.random.RandomState(seed)
    if kind == 'strip':
        h, w = int(rng.randint(1, 4)), int(rng.randint(260, 700))
    elif kind == 'square':
        h, w = (int(x) for x in rng.randint(17, size + 1, 2))
    else:                       # tiles: hundreds of grains
        h, w = (int(x) for x in rng.randint(size // 2, size + 1, 2))
    if kind == 'tiles':
        t = int(rng.randint(2, 4))
        n = -(-h // t) * -(-w // t)
        lay = 'tiles%d' % t
    else:
        n = int(rng.randint(1, 8))
        lay = str(rng.choice(['voronoi', 'blocks', 'single']))
        n = 1 if lay == 'single' else n
    if rng.rand() < .5:
        h, w = w, h
    oris = [tuple(float(x) for x in rng.uniform(0, 1, 3) * [6.28, 3.14, 6.28]) for _ in range(n)]
    return {'shape': (h, w), 'layout': lay, 'n': n, 'seed': seed, 'phases': list(phases),
            'oris': oris, 'pid': [int(x) for x in rng.randint(1, len(phases) + 1, n)],
            'spread': spread, 'step': 0.5, 'specks': float(rng.choice([0., 0., .05]))}


def large_specs(size=60, spread=(0., 3.), kinds=('strip', 'square', 'tiles')):
    """Large maps: more than 256 rows or columns, more than 256 grains or large grains."""
    return st.tuples(st.sampled_from(kinds), st.integers(0, 2 ** 31 - 1),
                     st.sampled_from([('FCC',), ('HEX',), ('FCC', 'BCC'), ('HEX', 'BCC')]),
                     S.fl(*spread), st.just(size)).map(_large)


def ori_quat(o, sym):
    """Quaternion (w>=0) of an orientation description."""
    if len(o) == 3:
        return S.mat_to_quat(S.rot_euler(*o))
    base, ax, d, k = o
    q = S.mat_to_quat(S.rot_euler(*base))
    r = np.concatenate([[np.cos(d / 2)], np.sin(d / 2) * S.uvec(ax)])
    q = S.qmul(r, q)
    if k:
        ops = S.SYMQ[sym]
        q = S.qmul(ops[k % len(ops)], q)
    return q if q[0] >= 0 else -q


class Built:
    """Arrays of a described map: everything an oracle needs."""

    def __init__(self, spec):
        self.spec = spec
        h, w = spec['shape']
        rng = np.random.RandomState(spec['seed'] ^ 0x5bd1)
        self.label = layout(spec['layout'], h, w, spec['n'], spec['seed'])
        pid = np.array(spec['pid'])
        self.phase = pid[self.label].astype(np.uint8)
        if spec['specks']:
            self.phase[rng.rand(h, w) < spec['specks']] = 0
        quats = np.empty((4, h, w))
        syms = [SYM_OF[p] for p in spec['phases']]
        for lab in range(spec['n']):
            sym = syms[max(0, spec['pid'][lab] - 1)]
            sel = self.label == lab
            quats[:, sel] = ori_quat(spec['oris'][lab], sym)[:, None]
        if spec['spread']:
            ax = rng.randn(3, h, w)
            ax /= np.sqrt((ax ** 2).sum(axis=0))
            a = np.deg2rad(spec['spread']) * rng.rand(h, w)
            r = np.concatenate([np.cos(a / 2)[None], np.sin(a / 2) * ax])
            quats = S.qmul(r, quats)
        self.quats = np.where(quats[0] < 0, -quats, quats)
        self.euler = euler_from_quats(self.quats)
        self.bc = rng.randint(0, 255, (h, w)).astype(np.uint8)
        self.shape = (h, w)
        self.step = spec['step']
        self.syms = syms

    def dict(self):
        return {
            'step_size': self.step,
            'phases': [make_phase(p) for p in self.spec['phases']],
            'phase': self.phase.copy(),
            'euler_angle': self.euler.copy(),
            'band_contrast': self.bc.copy(),
        }

    def map(self, **kwargs):
        from defdap import ebsd
        return ebsd.Map(self.dict(), data_type='pythondict', **kwargs)


def euler_from_quats(q):
    """(3, ...) Bunge angles whose passive rotation matrix is that of the quaternions.

    S.rot_euler(e) == S.rot_quat(q): solved from the matrix elements."""
    w, x, y, z = np.asarray(q, float)
    r33 = 1 - 2 * (x * x + y * y)
    r31, r32 = 2 * (x * z - w * y), 2 * (y * z + w * x)
    r13, r23 = 2 * (x * z + w * y), 2 * (y * z - w * x)
    r11, r12 = 1 - 2 * (y * y + z * z), 2 * (x * y - w * z)
    sphi = np.sqrt(r31 ** 2 + r32 ** 2)
    phi = np.arctan2(sphi, r33)
    # g = Z2 X Z1: g31 = s1 sPHI, g32 = -c1 sPHI, g13 = s2 sPHI, g23 = c2 sPHI
    gim = sphi < 1e-9
    ph1 = np.where(gim, np.arctan2(r12, r11), np.arctan2(r31, -r32))
    ph2 = np.where(gim, 0., np.arctan2(r13, r23))
    return np.array([ph1 % (2 * np.pi), phi, ph2 % (2 * np.pi)])


# ------------------------------------------------------------------ reference results
def misori_to(qa, qb, sym):
    """Smallest angle over left symmetry between two quaternion arrays (4, ...)."""
    out = np.zeros(qa.shape[1:])
    for s in S.SYMQ[sym]:
        out = np.maximum(out, np.abs(np.einsum('i...,i...->...', qa, S.qmul(s, qb))))
    return 2 * np.arccos(np.clip(out, 0, 1))


def ref_edges(built, tol_deg, sym=None):
    """(edge_x, edge_y, phase_x, phase_y, unsure): edges to the right / below neighbour."""
    sym = built.syms[0] if sym is None else sym
    q, ph = built.quats, built.phase
    h, w = built.shape
    ex, ey = np.zeros((h, w), bool), np.zeros((h, w), bool)
    px, py = ex.copy(), ey.copy()
    mx, my = np.zeros((h, w)), np.zeros((h, w))
    mx[:, :-1] = misori_to(q[:, :, :-1], q[:, :, 1:], sym)
    my[:-1] = misori_to(q[:, :-1], q[:, 1:], sym)
    px[:, :-1] = ph[:, :-1] != ph[:, 1:]
    py[:-1] = ph[:-1] != ph[1:]
    tol = np.deg2rad(tol_deg)
    unsure = bool((np.abs(mx - tol) < 1e-6).any() or (np.abs(my - tol) < 1e-6).any())
    return (mx > tol) | px, (my > tol) | py, px, py, unsure


def components(valid, ex, ey):
    """Label image of 4-connected regions of valid pixels not cut by edges (raster order,
    from 1)."""
    h, w = valid.shape
    lab = np.zeros((h, w), int)
    n = 0
    for y in range(h):
        for x in range(w):
            if not valid[y, x] or lab[y, x]:
                continue
            n += 1
            lab[y, x] = n
            todo = [(y, x)]
            while todo:
                b, a = todo.pop()
                for d, c, cut in ((b, a + 1, a + 1 < w and ex[b, a]),
                                  (b, a - 1, a > 0 and ex[b, a - 1]),
                                  (b + 1, a, b + 1 < h and ey[b, a]),
                                  (b - 1, a, b > 0 and ey[b - 1, a])):
                    if 0 <= d < h and 0 <= c < w and not cut and valid[d, c] and not lab[d, c]:
                        lab[d, c] = n
                        todo.append((d, c))
    return lab


def ref_grains(built, tol_deg, min_size, sym=None):
    """Expected label map (0 non-indexed, -2 removed) with grains numbered in raster order."""
    ex, ey, _, _, unsure = ref_edges(built, tol_deg, sym)
    lab = components(built.phase != 0, ex, ey)
    out = np.zeros_like(lab)
    n = 0
    for i in range(1, lab.max() + 1 if lab.size else 1):
        sel = lab == i
        if sel.sum() < min_size:
            out[sel] = -2
        else:
            n += 1
            out[sel] = n
    return out, n, unsure


def ref_kam(q):
    _, h, w = q.shape
    out = np.zeros((h, w))
    for y in range(h):
        for x in range(w):
            dirs = []
            for nb in (((y - 1, x), (y + 1, x)), ((y, x - 1), (y, x + 1))):
                d = [abs(float(q[:, y, x] @ q[:, b, a])) for b, a in nb
                     if 0 <= b < h and 0 <= a < w]
                dirs.append(sum(d) / len(d))
            out[y, x] = 2 * np.arccos(min(1., sum(dirs) / 2))
    return out


# ------------------------------------------------------------------ DIC maps
PYVALE = np.dtype([('x', 'int32'), ('y', 'int32'), ('u', 'double'), ('v', 'double'),
                   ('displacement_mag', 'double'), ('converged', 'uint8'), ('cost', 'double'),
                   ('ftol', 'double'), ('xtol', 'double'), ('num_iterations', 'int32')])


def write_pyvale(path, disp, binning, origin=(0, 0), order=None, keep=None):
    """disp (2, h, w) to a PyVale binary file."""
    _, h, w = disp.shape
    yy, xx = np.mgrid[:h, :w]
    rec = np.zeros(h * w, PYVALE)
    rec['x'], rec['y'] = xx.ravel() * binning + origin[0], yy.ravel() * binning + origin[1]
    rec['u'], rec['v'] = disp[0].ravel(), disp[1].ravel()
    rec['displacement_mag'] = np.hypot(rec['u'], rec['v'])
    rec['converged'] = 1
    rec['num_iterations'] = 7
    if keep is not None:
        rec = rec[keep.ravel()]
    if order is not None:
        rec = rec[order]
    rec.tofile(path)
    return rec


def dic_map(disp, binning=4, origin=(0, 0), **kwargs):
    """A DIC map of the displacement field disp (2, h, w), exact doubles."""
    from defdap import hrdic
    path = scratch('.bin')
    try:
        write_pyvale(path, np.asarray(disp, float), binning, origin)
        return hrdic.Map(path, data_type='pyvale-binary', **kwargs)
    finally:
        path.unlink(missing_ok=True)


def smooth_disp(seed, h, w, scale=0.2):
    rng = np.random.RandomState(seed)
    return rng.uniform(-scale, scale, (2, h, w))


def fresh_experiment():
    from defdap.experiment import Experiment
    return Experiment()
