import contextlib
import io
import re
import numpy as np
from hypothesis import strategies as st
from skimage.io import imsave
from defdap import hrdic
from lib.framework import sub, check, close, same, raises, fail
from lib import maps as M

QUANT = ['displacement', 'coordinate', 'f', 'e', 'max_shear', 'user', 'user3']
fr = st.integers(0, 99)
side = st.one_of(st.none(), fr, fr)
op = st.one_of(
    st.tuples(st.just('crop'), side, side, side, side, st.booleans()),
    st.tuples(st.just('crop'), side, side, side, side, st.booleans()),
    st.tuples(st.just('uncrop'), st.booleans()),
    st.tuples(st.just('shift'), st.integers(-3, 3), st.integers(-3, 3), st.booleans()),
    st.tuples(st.just('mask'), st.integers(0, 2 ** 31 - 1), st.sampled_from([0., 0.1, 0.3, 1.]),
              st.sampled_from([0, 0, 1, 2, 3, 5])),
    st.tuples(st.just('unmask')),
    st.tuples(st.just('badmask'), st.integers(0, 5)),
    st.tuples(st.just('read'), st.sampled_from(QUANT + ['mask', 'pattern'])),
    st.tuples(st.just('points'), st.lists(st.tuples(fr, fr), max_size=4)),
    st.tuples(st.just('pattern'), st.integers(1, 3)),
    st.tuples(st.just('stats')),
)
# a mask on part of the map, seen from elsewhere
macro = st.tuples(st.tuples(st.just('crop'), *[st.integers(0, 3)] * 4, st.booleans()),
                  st.tuples(st.just('mask'), st.integers(0, 2 ** 31 - 1), st.sampled_from([0.1, 0.3]), st.just(0)),
                  st.tuples(st.just('shift'), st.integers(-3, 3), st.integers(-3, 3), st.booleans())).map(list)
cases = st.tuples(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 9, 17]), st.integers(2, 9), st.integers(1, 5),
                  st.integers(0, 2 ** 31 - 1), st.lists(st.one_of(op.map(lambda o: [o]), op.map(lambda o: [o]), macro),
                                                        min_size=2, max_size=12).map(lambda x: sum(x, [])))


def dilate(m, n):
    """4-connected dilation, n times."""
    for _ in range(n):
        o = m.copy()
        o[1:] |= m[:-1]
        o[:-1] |= m[1:]
        o[:, 1:] |= m[:, :-1]
        o[:, :-1] |= m[:, 1:]
        m = o
    return m


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        r = fn(*a, **k)
    return r, out.getvalue()


class State:
    def __init__(self, case):
        self.h, self.w, self.b, seed, self.ops = case
        rng = np.random.RandomState(seed)
        self.u = rng.uniform(-0.3 * self.b, 0.3 * self.b, (2, self.h, self.w))
        work = M.scratch('')
        work.mkdir()
        self.work = work
        M.write_pyvale(work / 'd.bin', self.u, self.b)
        self.m = hrdic.Map(work / 'd.bin', data_type='pyvale-binary')
        g = np.array([np.stack(np.gradient(self.u[i], self.b)[::-1]) for i in range(2)])
        f = g + np.eye(2)[..., None, None]
        e = 0.5 * (np.einsum('kiyx,kjyx->ijyx', f, f) - np.eye(2)[..., None, None])
        y, x = np.mgrid[:self.h, :self.w] * self.b
        self.full = {
            'displacement': self.u, 'coordinate': np.array([x, y]), 'f': f, 'e': e,
            'max_shear': np.sqrt(((e[0, 0] - e[1, 1]) / 2) ** 2 + e[0, 1] ** 2),
            'user': rng.rand(self.h, self.w), 'user3': rng.rand(3, self.h, self.w)}
        self.m.data.add('user', self.full['user'], type='map', order=0)
        self.m.data.add('user3', self.full['user3'], type='map', order=1)
        self.img = {k: rng.randint(0, 256, (self.h * k, self.w * k)).astype(np.uint8)
                    for k in (1, 2, 3)}
        for k, im in self.img.items():
            imsave(work / f'p{k}.bmp', im, check_contrast=False)
        self.crop = [0, 0, 0, 0]            # left right top bottom
        self.mask = None                    # full field
        self.k = None
        self.points = []

    def box(self, k=1):
        le, r, t, b = self.crop
        return (slice(t * k, (self.h - b) * k), slice(le * k, (self.w - r) * k))

    def shape(self):
        le, r, t, b = self.crop
        return (self.h - t - b, self.w - le - r)

    def set_crop(self, le, r, t, b, follow):
        """Fractions (None: unchanged) -> a crop leaving at least one point."""
        new = list(self.crop)
        if None in (le, r, t, b) or le + r >= self.w or t + b >= self.h:
            for i, v in enumerate((le, r, t, b)):
                if v is None:
                    continue
                n = (self.w, self.h)[i // 2]
                new[i] = v % (n - new[i ^ 1])
        else:
            new = [le, r, t, b]
        kw = {n: new[i] for i, (n, v) in enumerate(zip(('left', 'right', 'top', 'bottom'),
                                                        (le, r, t, b))) if v is not None}
        quiet(self.m.set_crop, update_homog_points=follow, **kw)
        if follow:
            dx, dy = self.crop[0] - new[0], self.crop[2] - new[2]
            self.points = [(x + dx, y + dy) for x, y in self.points]
        if new != self.crop and self.mask is not None:
            old = np.zeros((self.h, self.w), bool)
            old[self.box()] = self.mask[self.box()]
            self.crop = new
            keep = np.zeros((self.h, self.w), bool)
            keep[self.box()] = old[self.box()]
            self.mask = keep
        self.crop = new

    def verify_dims(self):
        m = self.m
        check(tuple(m.shape) == self.shape(), f'shape {m.shape}, expected {self.shape()}')
        check((m.y_dim, m.x_dim) == self.shape(), 'x_dim, y_dim')
        check(tuple(m.original_shape) == (self.h, self.w), f'original shape {m.original_shape}')
        check([tuple(int(v) for v in p) for p in m.frame.homog_points] == self.points,
              lambda: f'homologous points {m.frame.homog_points}, expected {self.points}')

    def verify(self, key):
        m = self.m
        if key == 'mask':
            got = m.data.mask
            if self.mask is None:
                check(got is None, f'mask {got!r}, expected none')
            else:
                same(got, self.mask[self.box()], 'mask')
            return
        if key == 'pattern':
            if self.k is None:
                raises(FileNotFoundError, lambda: quiet(lambda: m.data.pattern),
                       'pattern without image')
            else:
                got = quiet(lambda: m.data.pattern)[0]
                same(got, self.img[self.k][self.box(self.k)], 'pattern')
            return
        got = m.data[key]
        want = self.full[key][(Ellipsis,) + self.box()]
        check(got.shape == want.shape, f'{key}: shape {got.shape}, expected {want.shape}')
        close(np.ma.getdata(got), want, 1e-12, f'{key}: values')
        if self.mask is None:
            check(not np.ma.getmaskarray(got).any(), f'{key}: masked points, expected none')
        else:
            same(np.ma.getmaskarray(got), np.broadcast_to(self.mask[self.box()], want.shape),
                 f'{key}: masked points')

    def stats(self):
        pct = [0, 25, 50, 100]
        _, text = quiet(self.m.print_stats_table, pct, ['max_shear', 'e', 'f', 'displacement'])
        rows = {}
        for line in text.replace('\033[0m', '').splitlines():
            t = line.split()
            if len(t) == 5 and re.fullmatch(r'(max_shear|[ef]\d\d|displacement\d)', t[0]):
                rows[t[0]] = [float(v) for v in t[1:]]
        sel = np.ones(self.shape(), bool) if self.mask is None else ~self.mask[self.box()]
        want = {'max_shear': self.full['max_shear']}
        for i in range(2):
            want[f'displacement{i + 1}'] = self.u[i]
            for j in range(2):
                want[f'e{i + 1}{j + 1}'] = self.full['e'][i, j]
                want[f'f{i + 1}{j + 1}'] = self.full['f'][i, j]
        check(set(rows) == set(want), f'rows of the table {sorted(rows)}')
        for n, v in want.items():
            v = v[self.box()][sel]
            close(rows[n], np.percentile(v, pct), 6e-5, f'percentiles of {n}')
        h, w = self.shape()
        check(f'dimensions: {w} x {h} pixels' in text and f'points: {w * h}' in text,
              f'header of the table: {text[:200]!r}')


@sub(cases, 250, 8000)
def histories(case):
    """History that crops or masks at least twice and changes the result."""
    s = State(case)
    m = s.m
    changes = 0
    try:
        for o in s.ops:
            if o[0] == 'crop':
                before = list(s.crop)
                s.set_crop(*o[1:])
                changes += before != s.crop
            elif o[0] == 'uncrop':
                s.set_crop(0, 0, 0, 0, o[1])
            elif o[0] == 'shift':
                # same size elsewhere
                le, r, t, b = s.crop
                x, y = min(max(o[1], -le), r), min(max(o[2], -t), b)
                s.set_crop(le + x, r - x, t + y, b - y, o[3])
                changes += bool(x or y)
            elif o[0] == 'mask':
                _, seed, p, n = o
                rng = np.random.RandomState(seed)
                mask = rng.rand(*s.shape()) < p
                arg = mask.copy()
                kw = {} if n == 0 else {'dilation': n}
                # through the data or straight from the map
                r, text = quiet(m.data.generate, 'mask', mask=arg, **kw) if seed % 2 else \
                    quiet(m.calc_mask, arg, **kw)
                same(arg, mask, 'mask argument changed')
                want = dilate(mask, n)
                full = np.zeros((s.h, s.w), bool)
                full[s.box()] = want
                s.mask = full
                t = re.search(r'mask (\d+) out of (\d+)', text)
                check(t and int(t[1]) == want.sum() and int(t[2]) == want.size,
                      f'reported {text!r}, expected {want.sum()} out of {want.size}')
                changes += 1
            elif o[0] == 'unmask':
                if changes % 2:
                    quiet(m.data.generate, 'mask', mask=None)
                else:
                    quiet(m.calc_mask)
                s.mask = None
            elif o[0] == 'badmask':
                h, w = s.shape()
                bad = [np.zeros((h + 1, w), bool), np.zeros((h, w + 1), bool),
                       np.zeros((h * w + 1,), bool), [[False] * w] * h, 'x', 0][o[1]]
                raises(ValueError, lambda: quiet(m.data.generate, 'mask', mask=bad),
                       f'mask {type(bad)} accepted')
            elif o[0] == 'read':
                s.verify(o[1])
            elif o[0] == 'points':
                s.points = [(x % s.w, y % s.h) for x, y in o[1]]
                m.frame.set_homog_points([tuple(p) for p in s.points])
            elif o[0] == 'pattern':
                s.k = o[1]
                m.set_pattern(f'p{s.k}.bmp', s.k)
            elif o[0] == 'stats':
                if s.mask is None or not s.mask[s.box()].all():
                    s.stats()
            s.verify_dims()
        for k in QUANT + ['mask', 'pattern']:
            s.verify(k)
            s.verify_dims()
        for k in QUANT:
            full = m.crop(s.full[k])
            same(full, s.full[k][(Ellipsis,) + s.box()], f'crop() of {k}')
        # everything can be undone
        quiet(m.data.generate, 'mask', mask=None)
        s.mask = None
        s.set_crop(0, 0, 0, 0, True)
        for k in QUANT + ['pattern']:
            s.verify(k)
        s.verify_dims()
        s.k = 1 + (s.k or 2) % 3
        m.set_pattern(f'p{s.k}.bmp', s.k)
        s.verify('pattern')
    finally:
        import shutil
        shutil.rmtree(s.work)
    return changes >= 2


@sub(st.tuples(st.integers(2, 6), st.integers(2, 6), st.integers(1, 3), st.integers(-2, 2),
               st.integers(-2, 2)), 60, 1500)
def wrong_pattern(case):
    """Pattern image whose size does not match the map is refused, and a right one after it is
    not."""
    h, w, k, dh, dw = case
    m = M.dic_map(np.zeros((2, h, w)))
    shape = (max(1, h * k + dh), max(1, w * k + dw))
    img = np.random.RandomState(h).randint(0, 256, shape).astype(np.uint8)
    path = M.scratch('.bmp')
    try:
        imsave(path, img, check_contrast=False)
        m.set_pattern(path, k)
        if shape == (h * k, w * k):
            same(quiet(lambda: m.data.pattern)[0], img, 'pattern')
            return False
        raises(ValueError, lambda: quiet(lambda: m.data.pattern), 'pattern of wrong size')
        good = np.random.RandomState(w).randint(0, 256, (h, w)).astype(np.uint8)
        imsave(path, good, check_contrast=False)
        m.set_pattern(path, 1)
        same(quiet(lambda: m.data.pattern)[0], good, 'pattern after a refusal')
    finally:
        path.unlink(missing_ok=True)
    return True


@sub(st.tuples(st.integers(2, 7), st.integers(2, 7), st.integers(0, 2 ** 31 - 1),
               st.tuples(fr, fr, fr, fr), st.booleans()), 60, 2000)
def correlation_values(case):
    """A correlation map loaded beside the displacements keeps its size and can make the mask."""
    h, w, seed, cr, bad = case
    rng = np.random.RandomState(seed)
    m = M.dic_map(np.zeros((2, h, w)))
    cv = np.round(rng.rand(h + bad, w), 4)
    path = M.scratch('.txt')
    try:
        path.write_text('#DaVis 8.4.0\n' + '\n'.join('\t'.join(map(str, r)) for r in cv) + '\n')
        if bad:
            raises(Exception, lambda: m.load_corr_val_data(path), 'correlation map of other size')
            return False
        m.load_corr_val_data(path)
    finally:
        path.unlink(missing_ok=True)
    close(m.corr_val, cv, 1e-12, 'correlation values')
    quiet(m.data.generate, 'mask', mask=m.corr_val < 0.4)
    same(np.ma.getmaskarray(m.data.max_shear), cv < 0.4, 'points masked by correlation')
    le, t = cr[0] % w, cr[2] % h
    quiet(m.set_crop, left=le, top=t)
    same(np.ma.getmaskarray(m.data.max_shear), (cv < 0.4)[t:, le:], 'masked points after a crop')
    if m.data.mask is None:
        fail('mask lost')
    return bool((cv < 0.4).any())
