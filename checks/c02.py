import math

import numpy as np
from hypothesis import strategies as st
import defdap
from defdap.crystal import crystalStructures
from defdap.crystal_utils import (convert_idc, equavlent_indicies, idc_to_string, pos_idc,
                                  reduce_idc, safe_int_cast, str_idx)
from lib.framework import sub, check, close, raises, fail
from lib import strats as S

i9 = st.integers(-9, 9)
big = st.integers(-2000, 2000)
idx3 = st.one_of(st.tuples(i9, i9, i9), st.tuples(i9, i9, i9), st.tuples(big, i9, big))
idx3nz = idx3.filter(any)
form = st.sampled_from(['tuple', 'list', 'array', 'int8'])


def shape_of(v, f):
    if f == 'int8' and max(map(abs, v)) > 30:
        f = 'array'
    return {'tuple': tuple(v), 'list': list(v), 'array': np.array(v),
            'int8': np.array(v, dtype=np.int8 if f == 'int8' else int)}[f]


def ints(v, msg):
    v = list(v)
    check(all(float(x) == int(x) for x in v), lambda: f'{msg}: {v} not integers')
    return tuple(int(x) for x in v)


def floats(v):
    return np.array([float(x) for x in v])


@sub(st.tuples(idx3, form), quick=1500, thorough=40000)
def conversion(case):
    """Non-trivial: an index other than 0."""
    v, f = case
    src = shape_of(v, f)
    keep = np.array(v)
    # planes
    mb = ints(convert_idc('m', plane=src), 'plane to Miller-Bravais')
    check(mb == (v[0], v[1], -v[0] - v[1], v[2]), f'plane {v} -> {mb}')
    back = ints(convert_idc('mb', plane=shape_of(mb, f)), 'plane to Miller')
    check(back == v, f'plane {v} -> {mb} -> {back}')
    # directions
    mbd = floats(convert_idc('m', dir=src))
    check(len(mbd) == 4, 'four indices')
    close(mbd, np.array([2 * v[0] - v[1], 2 * v[1] - v[0], -v[0] - v[1], 3 * v[2]]) / 3, 1e-9,
          f'direction {v}')
    close(mbd[:3].sum(), 0, 1e-9, 'redundant index of a direction')
    close(floats(convert_idc('mb', dir=tuple(mbd))), keep, 1e-9, f'direction {v} -> {mbd}')
    u4 = (v[0], v[1], -v[0] - v[1], v[2])
    m = ints(convert_idc('mb', dir=shape_of(u4, f)), 'direction to Miller')
    check(m == (v[0] - u4[2], v[1] - u4[2], v[2]), f'direction {u4} -> {m}')
    back = ints(convert_idc('m', dir=shape_of(m, f)), 'direction back to Miller-Bravais')
    check(back == u4, f'direction {u4} -> {m} -> {back}')
    check((np.array(src) == keep).all(), 'argument changed')
    for t in ('M', 'MB'):
        arg = v if t == 'M' else u4
        check(floats(convert_idc(t, plane=arg)).tolist()
              == floats(convert_idc(t.lower(), plane=arg)).tolist(), 'upper case type')
    return any(v)


@sub(st.tuples(st.sampled_from(['m', 'mb', 'x', '']), st.integers(0, 6), st.integers(0, 6),
               st.sampled_from(['dir', 'plane', 'both', 'none'])), quick=200, thorough=2000)
def refused(case):
    """Wrong numbers of indices, or both or neither argument. Non-trivial: refused."""
    t, n, k, what = case
    v = tuple(range(1, n + 1))
    kw = {'dir': {'dir': v}, 'plane': {'plane': v}, 'both': {'dir': v, 'plane': v},
          'none': {}}[what]
    bad = t not in ('m', 'mb') or what in ('both', 'none') or n != {'m': 3, 'mb': 4}[t]
    if bad:
        raises(ValueError, lambda: convert_idc(t, **kw), f'convert_idc({t!r}, {kw}) accepted')
    else:
        convert_idc(t, **kw)
    return bad


@sub(st.tuples(st.lists(st.one_of(st.integers(-20, 20), big), min_size=2, max_size=4).filter(any),
               st.integers(1, 6), form), quick=1000, thorough=30000)
def reduction(case):
    """Non-trivial: a common factor or a leading negative or zero index."""
    v, k, f = case
    g = math.gcd(*v)
    want = tuple(x // g for x in v)
    src = shape_of([x * k for x in v], f)
    got = ints(reduce_idc(src), 'reduced indices')
    check(got == want, f'{v} times {k} reduced to {got}, expected {want}')
    first = next(x for x in v if x)
    pos = ints(pos_idc(shape_of(v, f)), 'positive indices')
    check(pos == (tuple(v) if first > 0 else tuple(-x for x in v)), f'{v} -> positive {pos}')
    check(ints(pos_idc(shape_of([-x for x in v], f)), 'positive') == pos, 'sign matters')
    return g * k > 1 or first < 0 or v[0] == 0


@sub(st.tuples(st.lists(st.one_of(i9, i9, big), min_size=1, max_size=4), st.integers(0, 3),
               st.one_of(st.sampled_from([0., 1e-9, -1e-9, 9e-4, -9e-4, 2e-3, -2e-3]),
                         S.fl(-.49, .49)), st.sampled_from([None, 1e-3, 0.01, 0.3, 1e-6])),
     quick=600, thorough=10000)
def casting(case):
    """Rounding within a tolerance. Non-trivial: not exact."""
    v, k, e, tol = case
    x = [float(c) for c in v]
    x[k % len(x)] += e
    t = 1e-3 if tol is None else tol
    if abs(abs(e) - t) < 1e-12:
        return False
    kw = {} if tol is None else {'tol': tol}
    if abs(e) > t:
        raises(ValueError, lambda: safe_int_cast(x, **kw), f'{x} cast with tolerance {t}')
    else:
        check(ints(safe_int_cast(x, **kw), 'cast') == tuple(v), f'{x} cast to another value')
    return e != 0


def cart(sym, ca, conv, v, plane):
    """Cartesian direction of Miller indices."""
    v = np.array(v, float)
    if sym == 'cubic':
        return v
    s3 = np.sqrt(3) / 2
    a = {'hkl': [[s3, -.5, 0], [0, 1., 0]], 'tsl': [[1., 0, 0], [-.5, s3, 0]]}[conv]
    l = np.array(a + [[0, 0, ca]]).T
    return np.linalg.inv(l).T @ v if plane else l @ v


def miller(v, plane):
    if len(v) == 3:
        return v
    return (v[0], v[1], v[3]) if plane else (v[0] - v[2], v[1] - v[2], v[3])


@sub(st.tuples(S.sym_name, idx3nz, st.booleans(), st.booleans(), S.fl(0.8, 2.5),
               st.sampled_from(['hkl', 'tsl']), st.booleans()), quick=700, thorough=20000)
def equivalents(case):
    """The list is the orbit. Non-trivial: more than two different members."""
    sym, v, plane, miller_in, ca, conv, explicit = case
    cs = crystalStructures[sym]
    if sym == 'cubic':
        arg, kw = v, {}
        if explicit:
            kw['in_type'] = 'm'
    elif miller_in:
        arg, kw = v, {'in_type': 'm', 'c_over_a': ca}
    else:
        arg = (v[0], v[1], -v[0] - v[1], v[2])
        kw = {'c_over_a': ca}
        if explicit:
            kw['in_type'] = 'mb'
    old = defdap.defaults['crystal_ortho_conv']
    defdap.defaults['crystal_ortho_conv'] = conv
    try:
        got = equavlent_indicies(sym, cs.symmetries, **{'plane' if plane else 'dir': arg}, **kw)
    finally:
        defdap.defaults['crystal_ortho_conv'] = old
    check(len(got) == len(cs.symmetries), f'{len(got)} equivalents')
    base = cart(sym, ca, conv, miller(arg, plane), plane)
    orbit = np.array([m @ base for m in S.SYM[sym]])
    orbit /= np.linalg.norm(base)
    found = []
    for g in got:
        g = ints(g, 'equivalent')
        if sym == 'hexagonal':
            check(len(g) == 4 and g[0] + g[1] + g[2] == 0, f'{g}: redundant index')
            check(math.gcd(*g) == 1, f'{g} not reduced')
        else:
            check(sum(x * x for x in g) == sum(x * x for x in v), f'{g} has another length')
        c = cart(sym, ca, conv, miller(g, plane), plane)
        c = c / np.linalg.norm(c)
        check(c[2] > -1e-9, f'{g} points down')
        d = np.minimum(np.abs(orbit - c).max(axis=1), np.abs(orbit + c).max(axis=1))
        check(d.min() < 1e-6, f'{g} is not equivalent to {arg}')
        found.append(c)
    found = np.array(found)
    for o in orbit:
        d = np.minimum(np.abs(found - o).max(axis=1), np.abs(found + o).max(axis=1))
        check(d.min() < 1e-6, f'an equivalent of {arg} is missing')
    return len(set(map(tuple, np.round(np.abs(found), 6)))) > 1


def read_label(s, kind):
    out, i = [], 0
    while i < len(s):
        if kind == 'tex' and s.startswith('$\\bar{', i):
            j = s.index('}$', i)
            out.append(-int(s[i + 6:j]))
            i = j + 2
        elif i + 1 < len(s) and s[i + 1] == '\u0305':
            out.append(-int(s[i]))
            i += 2
        else:
            out.append(int(s[i]))
            i += 1
    return tuple(out)


@sub(st.tuples(st.lists(i9, min_size=3, max_size=4), st.sampled_from([None, '()', '[]', '{}', '<>']),
               st.sampled_from(['unicode', 'tex', None]), form), quick=500, thorough=5000)
def labels(case):
    """Labels read back to the indices. Non-trivial: a negative index."""
    v, br, kind, f = case
    kw = {} if kind is None else {'str_type': kind}
    text = idc_to_string(shape_of(v, f), br, **kw) if br else idc_to_string(shape_of(v, f), **kw)
    if br:
        check(text[0] == br[0] and text[-1] == br[1], f'brackets of {text!r}')
        text = text[1:-1]
    check(read_label(text, kind) == tuple(v), f'label {text!r} of {v}')
    check(''.join(str_idx(x, **kw) for x in v) == text, 'label is made of those of the indices')
    raises(ValueError, lambda: str_idx(1.5), 'label of a fraction')
    return any(x < 0 for x in v)
