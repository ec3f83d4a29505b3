from hypothesis import strategies as st
from defdap.utils import Datastore
from lib.framework import sub, check, raises
from lib import strats as S        # noqa: F401

NAMES = ['a', 'b', 'c', 'd', 'e']
name = st.sampled_from(NAMES)
token = st.integers(0, 99)
prop = st.fixed_dictionaries({}, optional={
    'type': st.sampled_from(['map', 'list']), 'unit': st.sampled_from(['um', 'px', '']),
    'cropped': st.booleans(), 'order': st.sampled_from([0, 1, None])})
store = st.integers(0, 4)

op = st.one_of(
    st.tuples(st.just('add'), store, name, token, prop),
    st.tuples(st.just('add'), store, name, token, prop),
    st.tuples(st.just('link'), store, store, prop, prop, st.booleans()),
    st.tuples(st.just('link'), store, store, st.just({}), prop, st.booleans()),
    st.tuples(st.just('relink'), st.integers(0, 9), store, prop, prop, st.booleans()),
    st.tuples(st.just('set'), store, name, token),
    st.tuples(st.just('setmeta'), store, name, st.sampled_from(['map', 'list'])),
    st.tuples(st.just('get'), store, name),
    st.tuples(st.just('get'), store, name),
    st.tuples(st.just('lazy'), store, name, token, prop),
    st.tuples(st.just('boom'), store, name),
)


class Boom(Exception):
    pass


class Model:
    def __init__(self, n):
        self.items = [{} for _ in range(n)]
        self.links = [[] for _ in range(n)]

    def match(self, ln, key):
        return key in self.names(ln['source']) and all(
            self.meta(ln['source'], key, a) == v for a, v in ln['in'].items())

    def names(self, i):
        out = list(self.items[i])
        for ln in self.links[i]:
            out += [k for k in self.names(ln['source']) if self.match(ln, k) and k not in out]
        return out

    def via(self, i, key):
        for ln in self.links[i]:
            if self.match(ln, key):
                return ln
        return None

    def meta(self, i, key, a, default=None):
        if key in self.items[i]:
            return self.items[i][key].get(a, default)
        ln = self.via(i, key)
        if ln is None:
            return default
        return ln['out'][a] if a in ln['out'] else self.meta(ln['source'], key, a, default)

    def value(self, i, key):
        if key in self.items[i]:
            return self.items[i][key]['data']
        ln = self.via(i, key)
        if ln['ref']:
            return ('ref', ln['id'], key)
        return ('of', ln['id'], self.value(ln['source'], key))


add_op = st.tuples(st.just('add'), store, name, token, prop)
link_op = st.one_of(
    st.tuples(st.just('link'), store, store, prop, prop, st.booleans()),
    st.tuples(st.just('link'), store, store, st.just({}), prop, st.booleans()))
histories = st.tuples(
    st.permutations(list(range(2))), st.lists(add_op, min_size=1, max_size=5),
    st.lists(link_op, min_size=2, max_size=5), st.lists(op, max_size=20)).map(
        lambda t: [x for i in t[0] for x in t[1 + i]] + t[3])


@sub(st.tuples(st.integers(2, 5), histories), quick=1500, thorough=50000)
def graphs(case):
    """Chains, diamonds and several derivations per store (no cycles). Non-trivial: derived data
    is visible."""
    n, ops = case
    stores, m = [Datastore() for _ in range(n)], Model(n)
    failing = set()
    made, seen = [], False

    def func_for(ln):
        def func(v):
            if ln['id'] in failing:
                raise Boom()
            return ('ref' if ln['ref'] else 'of', ln['id'], v)
        return func

    def link(ln):
        stores[ln['child']].add_derivative(
            stores[ln['source']], ln['func'], in_props=dict(ln['in']),
            out_props=dict(ln['out']), pass_ref=ln['ref'])

    for step, o in enumerate(ops):
        kind = o[0]
        if kind in ('add', 'lazy'):
            _, i, key, t, mt = o
            i %= n
            if key in m.names(i):
                raises(ValueError, lambda: stores[i].add(key, t), 'adding a visible name')
            elif kind == 'add':
                stores[i].add(key, t, **mt)
                m.items[i][key] = {'data': t, **mt}
            else:
                stores[i].add_generator(key, lambda t=t: ('gen', t), **mt)
                m.items[i][key] = {'data': ('gen', t), **mt}
        elif kind == 'link':
            _, i, j, inp, outp, ref = o
            i, j = i % n, j % n
            if i == j:
                continue
            ln = {'id': len(made), 'child': max(i, j), 'source': min(i, j), 'in': inp, 'out': outp,
                  'ref': ref}
            ln['func'] = func_for(ln)
            made.append(ln)
            m.links[ln['child']].append(ln)
            link(ln)
        elif kind == 'relink' and made:
            _, k, j, inp, outp, ref = o
            ln = made[k % len(made)]
            if j % n < ln['child']:
                ln.update({'source': j % n, 'in': inp, 'out': outp, 'ref': ref})
                link(ln)
        elif kind == 'set':
            _, i, key, t = o
            i %= n
            if key in m.items[i]:
                stores[i][key] = t
                m.items[i][key]['data'] = t
            elif key not in m.names(i):
                raises(ValueError, lambda: stores[i].__setitem__(key, t), 'setting a missing name')
        elif kind == 'setmeta':
            _, i, key, t = o
            i %= n
            if key in m.items[i]:
                stores[i][key, 'type'] = t
                m.items[i][key]['type'] = t
        elif kind in ('get', 'boom'):
            _, i, key = o
            i %= n
            if key not in m.names(i):
                raises(KeyError, lambda: stores[i][key], f'missing {key}')
            elif kind == 'boom' and key not in m.items[i]:
                # a derivation that raises must not disturb later ones
                failing.add(m.via(i, key)['id'])
                raises(Boom, lambda: stores[i][key], 'error of a derivation')
                failing.clear()
        # derived data may be asked for before or after that it comes from
        for i in range(n) if step % 2 else reversed(range(n)):
            names = m.names(i)
            got = list(stores[i].keys())
            check(sorted(got) == sorted(names),
                  lambda: f'store {i} has {got}, expected {names} after {o}')
            check(len(stores[i]) == len(names) and list(stores[i]) == got, 'length')
            words = str(stores[i]).split()
            check(all(key in words for key in names), lambda: f'{words} printed for a store of {names}')
            for key in NAMES:
                check((key in stores[i]) == (key in names), f'membership of {key}')
                if key not in names:
                    check(stores[i].get_metadata(key, 'type', 7) == 7, 'metadata of missing')
                    continue
                val = stores[i][key]
                check(val == m.value(i, key),
                      lambda: f'{key} of store {i} is {val}, expected {m.value(i, key)}')
                for a in ('type', 'unit', 'cropped', 'order'):
                    check(stores[i].get_metadata(key, a, 7) == m.meta(i, key, a, 7),
                          lambda: f'{a} of {key} in store {i}')
                seen = seen or key not in m.items[i]
    return seen


cyc_op = st.one_of(
    st.tuples(st.just('map'), name, token), st.tuples(st.just('list'), name, token),
    st.tuples(st.just('bound'), name, token), st.tuples(st.just('set'), name, token),
    st.tuples(st.just('miss'), st.integers(0, 5)), st.tuples(st.just('boom'), name),
    st.tuples(st.just('unlinked'), name, token))


@sub(st.tuples(st.integers(1, 3), st.booleans(), st.lists(cyc_op, min_size=4, max_size=15)),
     quick=800, thorough=25000)
def mutual(case):
    """A map and its grains, each deriving from the other, and a second map deriving from the
    first. Non-trivial: something derived in both directions."""
    k, grains_first, ops = case
    gid = Datastore.generate_id()
    big, other = Datastore(), Datastore()
    small = [Datastore(group_id=gid) for _ in range(k)]
    state = {'fail': False}

    def derive(tag):
        def f(v):
            if state['fail']:
                raise Boom()
            return (tag, v)
        return f

    def link_small():
        for i, s in enumerate(small):
            s.add_derivative(big, derive(f'g{i}'), in_props={'type': 'map'},
                             out_props={'type': 'list'})

    def link_big():
        big.add_derivative(small[0], derive('m'), in_props={'type': 'list'},
                           out_props={'type': 'map'}, pass_ref=True)
    for f in ((link_small, link_big) if grains_first else (link_big, link_small)):
        f()
    other.add_derivative(big, derive('o'), in_props={'type': 'bound'})
    own = {'map': {}, 'list': {}, 'bound': {}, 'x': {}}
    for o in ops:
        taken = {key for v in own.values() for key in v}
        if o[0] in ('map', 'bound') and o[1] not in taken:
            big.add(o[1], o[2], type=o[0])
            own[o[0]][o[1]] = o[2]
        elif o[0] == 'list' and o[1] not in taken:
            for i, s in enumerate(small):
                s.add(o[1], (i, o[2]), type='list')
            own['list'][o[1]] = o[2]
        elif o[0] == 'unlinked' and o[1] not in taken:
            other.add(o[1], o[2], type='map')
            own['x'][o[1]] = o[2]
        elif o[0] == 'set':
            for kind in ('map', 'bound'):
                if o[1] in own[kind]:
                    big[o[1]] = o[2]
                    own[kind][o[1]] = o[2]
            if o[1] in own['list']:
                for i, s in enumerate(small):
                    s[o[1]] = (i, o[2])
                own['list'][o[1]] = o[2]
        elif o[0] == 'miss':
            st_ = ([big, other] + small)[o[1] % (k + 2)]
            raises(KeyError, lambda: st_['zz'], 'missing name')
            raises(KeyError, lambda: st_['zz', 'unit'], 'metadata of a missing name')
            check('zz' not in st_, 'membership')
        elif o[0] == 'boom' and (o[1] in own['map'] or o[1] in own['list']):
            state['fail'] = True
            tgt = small[-1] if o[1] in own['map'] else big
            raises(Boom, lambda: tgt[o[1]], 'error of a derivation')
            state['fail'] = False
        # expectations
        want = {**own['map'], **own['bound'], **{x: ('m', x) for x in own['list']}}
        check(sorted(big.keys()) == sorted(want), lambda: f'map has {big.keys()}, want {want}')
        for key, v in want.items():
            check(big[key] == v, lambda: f'{key} of the map: {big[key]}')
            check(big.get_metadata(key, 'type') == ('bound' if key in own['bound'] else 'map'),
                  f'type of {key}')
        for i, s in enumerate(small):
            want = {**{x: (i, t) for x, t in own['list'].items()},
                    **{x: (f'g{i}', t) for x, t in own['map'].items()}}
            check(sorted(s.keys()) == sorted(want), lambda: f'grain has {s.keys()}, want {want}')
            for key, v in want.items():
                check(s[key] == v and s.get_metadata(key, 'type') == 'list',
                      lambda: f'{key} of grain {i}: {s[key]}')
        want = {**own['x'], **{x: ('o', t) for x, t in own['bound'].items()}}
        check(sorted(other.keys()) == sorted(want), 'names of the other map')
        for key, v in want.items():
            check(other[key] == v, lambda: f'{key} of the other map: {other[key]}')
    return bool(own['map']) and bool(own['list'])
