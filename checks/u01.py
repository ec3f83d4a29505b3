import contextlib
import io
import re
import numpy as np
from hypothesis import strategies as st
from defdap.utils import report_progress
from lib.framework import sub, check, same, raises

word = st.text('abcdefgh XYZ(:)%,', min_size=1, max_size=12).map(lambda s: 'm' + s + 'm')
frac = st.one_of(st.floats(0, 1), st.integers(0, 1000).map(lambda v: v / 1000), st.integers(0, 1),
                 st.sampled_from([0., 1., 0.01, 0.02, 0.5, 1.5]))
step = st.one_of(
    st.tuples(st.just('prog'), frac), st.tuples(st.just('prog'), frac),
    st.tuples(st.just('np'), frac), st.tuples(st.just('text'), word),
    st.tuples(st.just('call'), st.integers(0, 3)),
    st.tuples(st.just('many'), st.integers(1, 400)),
)
END = st.one_of(st.tuples(st.just('return'), st.one_of(st.none(), st.integers(), st.lists(st.integers(), max_size=3), word)),
                st.tuples(st.just('raise'), st.sampled_from(['ValueError', 'KeyError', 'Exception', 'IndexError'])))
prog = st.tuples(word, st.lists(step, max_size=8), END)
EXC = {'ValueError': ValueError, 'KeyError': KeyError, 'Exception': Exception, 'IndexError': IndexError}


def build(progs, wrap):
    """The programs as (decorated) functions; a program calls only programs after it."""
    trace, funcs = [], {}

    def make(i):
        message, steps, (end, value) = progs[i]

        def run(*args, **kwargs):
            """Doc."""
            trace.append(('start', i, args, kwargs))
            total = 0
            for k, s in enumerate(steps):
                trace.append((i, k))
                if s[0] == 'prog':
                    yield s[1]
                elif s[0] == 'np':
                    yield np.float64(s[1])
                elif s[0] == 'text':
                    yield s[1]
                elif s[0] == 'many':
                    for n in range(s[1]):
                        total += n
                        yield n / s[1]
                else:
                    j = i + 1 + s[1]
                    if j in funcs:
                        try:
                            total += len(str(funcs[j](k, step=total)))
                        except Exception as e:
                            trace.append(('caught', type(e), e.args))
            trace.append(('end', i, total))
            if end == 'raise':
                raise EXC[value](message, total)
            return value

        run.__name__ = f'program{i}'
        return wrap(message, run)

    for i in reversed(range(len(progs))):
        funcs[i] = make(i)
    return funcs[0], trace


def plain(_, func):
    def wrapper(*args, **kwargs):
        gen = func(*args, **kwargs)
        while True:
            try:
                next(gen)
            except StopIteration as e:
                return e.value
    return wrapper


def outcome(func, args, kwargs):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            res = ('return', func(*args, **kwargs))
    except Exception as e:
        res = ('raise', type(e), e.args)
    return res, out.getvalue()


@sub(st.tuples(st.lists(prog, min_size=1, max_size=3), st.lists(st.integers(), max_size=2),
               st.dictionaries(st.sampled_from(['a', 'message', 'func']), st.integers(), max_size=2),
               st.integers(1, 3)), 300, 20000)
def transparent(case):
    """A computation run with its progress reported does, returns and raises the same as run on its
    own, however often. Non-trivial: reports something and then returns a value or raises."""
    progs, args, kwargs, times = case
    deco, trace = build(progs, lambda m, f: report_progress(m)(f))
    ref, want_trace = build(progs, plain)
    check(deco.__name__ == 'program0' and deco.__doc__ == 'Doc.', 'name and documentation')
    for _ in range(times):
        got, _ = outcome(deco, args, kwargs)
        want, _ = outcome(ref, args, kwargs)
        check(got == want, lambda: f'{got} instead of {want}')
        if want[0] == 'return':
            check(got[1] is want[1], 'another object is returned')
        check(trace == want_trace, 'steps of the computation')
    return bool(progs[0][1]) and progs[0][2] != ('return', None)


@sub(prog, 200, 10000)
def output(case):
    """What is printed: start, texts and increasing percentages in order, end. Non-trivial: texts
    and fractions are reported."""
    message, steps, end = case
    deco, _ = build([case], lambda m, f: report_progress(m)(f))
    got, out = outcome(deco, (), {})
    check(out.startswith(f'\rStarting {message}..'), 'start is not announced')
    # texts in order
    at = 0
    for s in steps:
        if s[0] == 'text':
            k = out.find(s[1], at)
            check(k >= 0, lambda: f'text {s[1]!r} is not in {out!r}')
            at = k + len(s[1])
    if not any(s[0] == 'text' for s in steps):
        done = f'Finished {message}' in out
        check(done == (end[0] == 'return'), lambda: f'end announced: {done}')
        shown = [int(v) for v in re.findall(r'(?<=\.\. )(\d+)(?= %)', out)]
        check(all(a <= b for a, b in zip(shown, shown[1:])), lambda: f'percentages {shown}')
        flat = [v for s in steps for v in ([n / s[1] for n in range(s[1])] if s[0] == 'many'
                                           else [s[1]] if s[0] in ('prog', 'np') else [])]
        top = max(flat, default=0)
        check(abs(max(shown, default=0) - 100 * top) <= 1.5 + 1e-9, lambda: f'{shown} for up to {top}')
    return any(s[0] == 'text' for s in steps) and any(s[0] in ('prog', 'np', 'many') for s in steps)


class Thing:
    def __init__(self, n):
        self.n = n

    @report_progress('working on the thing')
    def work(self, k, scale=1):
        total = 0
        for i in range(self.n):
            total += i * k
            yield i / self.n
        return total * scale

    @report_progress()
    def unnamed(self):
        yield 'text'


@sub(st.tuples(st.integers(0, 300), st.integers(0, 9), st.integers(1, 5)), 60, 3000)
def methods(case):
    """Decorated methods are bound to their object. Non-trivial: a sum that is not zero."""
    n, k, scale = case
    a, b = Thing(n), Thing(n + 1)
    with contextlib.redirect_stdout(io.StringIO()):
        check(a.work(k, scale=scale) == k * scale * n * (n - 1) // 2, 'sum')
        check(b.work(k) == k * (n + 1) * n // 2, 'sum of the other')
        check(a.unnamed() is None, 'no value')
    return n > 1 and k > 0
