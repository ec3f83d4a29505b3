import numpy as np
from hypothesis import strategies as st
from defdap.utils import DataGenerationError, Datastore
from lib.framework import sub, check, same, raises
from lib import strats as S        # noqa: F401

NAMES = ['a', 'b', 'c', 'd', 'e', 'grains']
name = st.sampled_from(NAMES)
ATTRS = ('unit', 'order', 'type', 'note', 'cropped', 'binning', 'apply_mask')
token = st.integers(0, 99)
attr = st.sampled_from(['unit', 'order', 'note'])
meta = st.fixed_dictionaries({}, optional={
    'type': st.sampled_from(['map', 'map', 'list']), 'cropped': st.booleans(),
    'binning': st.sampled_from([1, 2]), 'apply_mask': st.booleans(),
    'unit': st.sampled_from(['um', '']), 'order': st.integers(0, 2)})
names = st.lists(name, min_size=1, max_size=3, unique=True)

op = st.one_of(
    st.tuples(st.just('add'), name, st.one_of(token, token, token, st.none()), meta),
    st.tuples(st.just('gen'), names, st.lists(meta, min_size=3, max_size=3), meta,
              st.lists(st.booleans(), min_size=3, max_size=3), st.sampled_from(['ok', 'ok', 'wrong'])),
    st.tuples(st.just('gen'), names, st.none(), meta, st.just([True] * 3), st.just('ok')),
    st.tuples(st.just('set'), name, st.one_of(token, token, st.none()), st.booleans()),
    st.tuples(st.just('setmeta'), name,
              st.sampled_from(['unit', 'note', 'cropped', 'binning', 'apply_mask', 'type']),
              st.integers(1, 2)),
    st.tuples(st.just('get'), name, st.booleans()),
    st.tuples(st.just('get'), name, st.booleans()),
    st.tuples(st.just('getmeta'), name, attr),
    st.tuples(st.just('generate'), name, st.booleans(), st.integers(0, 3)),
    st.tuples(st.just('all')),
    st.tuples(st.just('update'), st.lists(st.tuples(name, token, meta), max_size=3),
              st.sampled_from([None, 'self', 'other'])),
    st.tuples(st.just('poke'), st.integers(0, 3), name, token),
)


def img(t):
    """Value stored for a token."""
    return None if t is None else np.arange(48.).reshape(6, 8) + 100 * t


def crop(x, binning=1, **kw):
    return None if x is None else x[..., binning:, 2 * binning:]


def mask(x, **kw):
    return None if x is None else -x


def out(gen, output, kwarg, call):
    return 1000 * (gen + 1) + 100 * output + 10 * kwarg + call % 10


class Model:
    def __init__(self):
        self.items, self.gens, self.calls = {}, [], []

    def gen_of(self, key):
        for i, g in enumerate(self.gens):
            if key in g['keys']:
                return i
        return None

    def generate(self, key, kwarg):
        """Token generated for key, storing all that are kept; None if there is no generator."""
        i = self.gen_of(key)
        if i is None:
            return 'none'
        g = self.gens[i]
        self.calls[i] += 1
        if g['wrong']:
            return 'wrong'
        for j, k in enumerate(g['keys']):
            if self.items[k].get('save', True):
                self.items[k]['data'] = out(i, j, kwarg, self.calls[i])
        return out(i, g['keys'].index(key), kwarg, self.calls[i])

    def view(self, key, t):
        v, it = img(t), self.items[key]
        if it.get('type') == 'map':
            if not it.get('cropped', False):
                v = crop(v, it.get('binning', 1))
            if it.get('apply_mask', True):
                v = mask(v)
        return v


def eq(got, want, msg):
    if want is None:
        check(got is None, lambda: f'{msg}: {got} instead of None')
    else:
        check(isinstance(got, np.ndarray), lambda: f'{msg}: got {type(got)}')
        same(got, want, msg)


@sub(st.lists(op, min_size=1, max_size=25), quick=2500, thorough=60000)
def history(ops):
    """Every operation against a dictionary model. Non-trivial: data was generated."""
    ds, m = Datastore(crop_func=crop, mask_func=mask), Model()
    counts, others = [], []

    def make(i, keys, wrong):
        def func(kwarg=0):
            counts[i] += 1
            outs = [img(out(i, j, kwarg, counts[i])) for j in range(len(keys))]
            if wrong:
                return tuple(outs) + (0,)
            return outs[0] if len(keys) == 1 else tuple(outs)
        return func

    def get(key, how):
        """Compare one access."""
        it = m.items.get(key)
        call = (lambda: getattr(ds, key)) if how else (lambda: ds[key])
        if it is None:
            raises((KeyError, AttributeError), call, f'access to missing {key}')
            return
        t = it['data']
        if t is None:
            t = m.generate(key, 0)
            if t == 'wrong':
                raises(ValueError, call, f'{key} from a generator of too many values')
                return
            if t == 'none':
                t = None
        eq(call(), m.view(key, t), f'value of {key}')

    for o in ops:
        kind = o[0]
        if kind == 'add':
            _, key, t, mt = o
            if key in m.items:
                raises(ValueError, lambda: ds.add(key, img(t), **mt), f'adding {key} twice')
            else:
                ds.add(key, img(t), **mt)
                m.items[key] = {'data': t, **mt}
        elif kind == 'gen':
            _, keys, metas, common, save, wrong = o
            wrong = wrong == 'wrong' and len(keys) > 1
            if metas is not None:
                metas = [dict(mm, save=s) for mm, s in zip(metas, save)][:len(keys)]
            i = len(m.gens)
            arg = keys[0] if len(keys) == 1 else tuple(keys)
            marg = metas if metas is None or len(keys) > 1 or i % 2 else metas[0]
            before = repr(marg)
            counts.append(0)
            fn = make(i, keys, wrong)
            if any(k in m.items for k in keys):
                raises(ValueError, lambda: ds.add_generator(arg, fn, metadatas=marg, **common),
                       f'generator of existing {keys}')
                counts.pop()
            else:
                ds.add_generator(arg, fn, metadatas=marg, **common)
                m.gens.append({'keys': list(keys), 'wrong': wrong})
                m.calls.append(0)
                for j, k in enumerate(keys):
                    m.items[k] = {'data': None, **(metas[j] if metas else {}), **common}
            check(repr(marg) == before, 'metadata argument changed')
        elif kind == 'set':
            _, key, t, how = o
            if key not in m.items:
                raises(ValueError, lambda: setattr(ds, key, img(t)) if how
                       else ds.__setitem__(key, img(t)), f'setting missing {key}')
            else:
                if how:
                    setattr(ds, key, img(t))
                else:
                    ds[key] = img(t)
                m.items[key]['data'] = t
        elif kind == 'setmeta':
            _, key, a, v = o
            v = {'type': ['map', 'list'][v - 1], 'unit': 'um'}.get(
                a, bool(v - 1) if a in ('cropped', 'apply_mask') else v)
            if key not in m.items:
                raises(ValueError, lambda: ds.__setitem__((key, a), v), 'metadata of missing')
            else:
                ds[key, a] = v
                m.items[key][a] = v
        elif kind == 'get':
            get(o[1], o[2])
        elif kind == 'getmeta':
            _, key, a = o
            it = m.items.get(key, {})
            if a in it:
                check(ds[key, a] == it[a], f'metadata {a} of {key}')
            else:
                raises(KeyError, lambda: ds[key, a], f'missing metadata {a} of {key}')
            check(ds.get_metadata(key, a) == it.get(a)
                  and ds.get_metadata(key, a, 'zz') == it.get(a, 'zz'), f'get_metadata {a}')
        elif kind == 'generate':
            _, key, ret, kw = o
            t = m.generate(key, kw)
            call = lambda: ds.generate(key, return_val=ret, kwarg=kw)     # noqa: E731
            if t == 'none':
                raises(DataGenerationError, call, f'generating {key} without a generator')
            elif t == 'wrong':
                raises(ValueError, call, f'{key} from a generator of too many values')
            else:
                eq(call(), img(t) if ret else None, f'generate {key}')
        elif kind == 'all':
            if any(g['wrong'] for g in m.gens):
                continue
            want = {}
            for k in list(ds.keys()):
                t = m.items[k]['data']
                if t is None:
                    t = m.generate(k, 0)
                    t = None if t == 'none' else t
                want[k] = m.view(k, t)
            # values are read in the order of the names
            got = dict(**ds)
            check(list(got) == list(want), lambda: f'mapping has {list(got)}')
            for k in want:
                eq(got[k], want[k], f'mapping value of {k}')
        elif kind == 'update':
            _, entries, prio = o
            other, rec = Datastore(), {}
            for k, t, mt in entries:
                if k not in rec:
                    other.add(k, img(t), **mt)
                    rec[k] = {'data': t, **mt}
            ds.update(other, **({} if prio is None else {'priority': prio}))
            for k, it in rec.items():
                if prio != 'self' or k not in m.items:
                    m.items[k] = dict(it)
            others.append((other, rec))
        elif kind == 'poke' and others:
            _, i, key, t = o
            other, rec = others[i % len(others)]
            if key in rec:
                other[key] = img(t)
                other[key, 'unit'] = f'u{t}'
                rec[key].update(data=t, unit=f'u{t}')
        # the names and counts agree after every operation
        check(counts == m.calls, lambda: f'{o[0]}: generators called {counts}, expected {m.calls}')
        keys = list(ds.keys())
        check(sorted(keys) == sorted(m.items) and keys == list(ds) and len(ds) == len(keys),
              lambda: f'names {keys}, expected {list(m.items)}')
        check(all((k in ds) == (k in m.items) for k in NAMES), 'membership')
        for other, rec in others:
            check(sorted(other.keys()) == sorted(rec), 'other store changed its names')
            for k, it in rec.items():
                same(other[k], img(it['data']), 'other store changed')
                check(all(other.get_metadata(k, a) == it.get(a) for a in ATTRS),
                      'other metadata changed')
        for k, it in m.items.items():
            for a in ATTRS:
                check(ds.get_metadata(k, a) == it.get(a), f'metadata {a} of {k} after {o[0]}')
    # final values: nothing stored is generated again
    for k in list(m.items):
        get(k, False)
    check(counts == m.calls, 'generator calls at the end')
    return sum(counts) > 0


@sub(st.tuples(st.lists(st.tuples(name, token), min_size=2, max_size=5,
                        unique_by=lambda t: t[0])), quick=100, thorough=1000)
def separate(case):
    """Two stores share nothing. Non-trivial: always."""
    (items,) = case
    a, b = Datastore(), Datastore()
    for k, t in items:
        a.add(k, t, unit='x')
    check(len(b) == 0 and not any(k in b for k in NAMES), 'stores share items')
    k, t = items[0]
    b.add(k, t + 1)
    check(a[k] == t and b[k] == t + 1 and a.get_metadata(k, 'unit') == 'x'
          and b.get_metadata(k, 'unit') is None, 'stores share an item')
    raises(ValueError, lambda: a.add(k, 1), 'duplicate')
    return True


@sub(st.lists(st.tuples(st.sampled_from(['x', 'y']), st.booleans()), min_size=1, max_size=10),
     quick=150, thorough=3000)
def failing_generator(case):
    """A generator that raises leaves the store as it was and is tried again. Non-trivial: it
    raised and later succeeded."""
    ds = Datastore()
    state = {'fail': True, 'n': 0}

    def func():
        if state['fail']:
            raise RuntimeError('no')
        state['n'] += 1
        return state['n'], -state['n']
    ds.add_generator(('x', 'y'), func)
    raised, done = False, None
    for key, fail in case:
        state['fail'] = fail
        if done is None and fail:
            raises(RuntimeError, lambda: ds[key], 'error of the generator')
            raised = True
            continue
        if done is None:
            done = 1
        check(ds[key] == (done if key == 'x' else -done), 'value')
    check(state['n'] == (0 if done is None else 1), 'calls')
    return raised and done is not None
