"""C14: invalid arguments are rejected cleanly and change nothing."""
import datetime
import decimal
import itertools

from . import scale, spec
from .core import Family, Problem, builder, outcome, use
from .hist import expected, show
from .spec import BACKENDS
from .terms import C, D, Exists, F, Gen, Not, OD, Obj, Or, Q, R, Rel, T, Un, V, op, sel

ASSUMPTIONS = (
    'which arguments a method accepts is written down in mc/spec.py; arguments whose acceptance is not documented '
    '(e.g. dicts given to IN, empty names) are left out',
)

SUB = sel(op('columns', 'k'), op('from_', 's'))
DATE = datetime.date(2020, 1, 2)
ATOMS = [
    None, True, False, 0, 1, -1, 1.5, decimal.Decimal('2.5'), 'a', 'desc', 'sideways', b'x', DATE, datetime.datetime(2020, 1, 2, 3, 4, 5),
    datetime.time(1, 2), datetime.timedelta(1), 1j, Obj(), [], ['a'], [1], ('a',), ('a', 'b'), ('a', 1), (1, 'a'), ('a', True), ('a', 'desc'), ('a', 'sideways'), ('a', 'b', 'c'), [('a', 1), ('b', 2)], [('a', 1), ('b',)],
    D(('a', 1)), D(('a', 'b')), D((1, 'a')), D((None, 'a')), OD(('a', 'b'), ('c', Obj())), {1, 2}, range(2), Gen(1, 2), C('x'), V('v'), R('r'), SUB, F('count', 'a'),
    Q(a=1), Rel('EQ', 1), Rel('IN', [1]), ('a', Obj()), (Obj(), 'a'), ('a', 1.5), (1.5, 'a'), (True, 'a'), (b'a', 'b'), [Obj()], [1, Obj()], (C('x'), C('y')), ('a', None), (None, 'a'),
    (), ('a', 'b', None), ('a', None, None), ('a', 'desc', 'x'), ['a', 'b'], [('a', 1, 2)], [('a', 1, None)], [[]], [('a', 1), ()], (1, 2, 3, 4), D(), D(('a', 'b'), ('c', 'd')), (None,), (None, None), [None], 2 ** 70, -1.5, 'ascending',
]
SMALL = [None, True, 1, 1.5, 'a', 'desc', 'sideways', b'x', DATE, datetime.timedelta(1), Obj(), ['a'], ('a', 'b'), ('a', 'b', 'c'), ('a', True), (1, 'a'), (1.5, 'a'), D(('a', 'b')), C('x'), SUB, Gen(1), {1}, ('a', 'desc'), (True, 'b'),
         ('a', Obj()), [1, Obj()], Rel('LIKE', 'x'), V(Obj()), ('b', 2)]

VARIABLE = {   # methods taking any number of arguments
    'select': ['columns', 'from_', 'where', 'having', 'on', 'group_by', 'order_by'],
    'insert': ['values', 'on_duplicate_key_update'],
    'update': ['set', 'where', 'on'],
    'delete': ['delete', 'from_', 'where', 'on'],
}
ONE = {        # methods taking one argument
    'select': ['join', 'inner_join', 'left_join', 'right_join', 'full_join', 'offset', 'limit', 'into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by', 'from_table'],
    'insert': ['into'],
    'update': ['table', 'join', 'left_join'],
    'delete': ['join', 'right_join', 'from_table'],
}
TWO = {'select': ['limit', 'from_table'], 'delete': ['from_table']}
NO_KEYWORDS = {'delete'}

STATES = {
    'select': [
        T(('Query', 'select', (), (), ())),
        T(('Query', 'select_from', ('t',), (), (op('columns', 'a', ('b', 'x')), op('left_join', 'j'), op('on', 't.a', 'j.a'), op('where', 'a', 1), op('having', 'b', 2), op('group_by', 'a'), op('order_by', ('a', 'desc')), op('limit', 5, 6),
                                                  op('into_outfile', '/o'), op('distinct')))),
    ],
    'insert': [T(('Query', 'insert_into', ('t',), (), ())), T(('Query', 'insert_into', ('t',), (), (op('values', a=1, b='x'), op('ignore'))))],
    'update': [T(('Query', 'update', ('t',), (), ())), T(('Query', 'update', ('t',), (), (op('set', a=1), op('join', 'j'), op('on', 'a', 'b'), op('where', 'a', 1))))],
    'delete': [T(('Query', 'delete', (), (), ())), T(('Query', 'delete_from', ('t',), (), (op('join', 'j'), op('on', 'a', 'b'), op('where', 'a', 1))))],
}


def judge(ctx, case):
    b, kind, state, o = case
    use(b)
    start = STATES[kind][state]
    model = spec.build(start, b)
    real = builder.build(start)
    before = outcome(str, real)
    model_before = model.copy()
    want = expected(model.apply, o, b)
    args, kwds = builder.build(o[1]), builder.kwds(o[2])
    builder.calls += 1
    got = outcome(lambda: getattr(real, o[0])(*args, **kwds))
    after = outcome(str, real)
    ctx.state(b, kind, state, after)
    ctx.saw((got[0], after))
    if got[0] == 'exc':
        if not got[2]:
            return Problem('%s raised a foreign exception' % show(o), 'an exception of the library', got)
        if after != before:
            return Problem('the refused call %s changed the query' % show(o), before, after)
        if want[0] == 'ok' and expected(model.render, b)[0] == 'ok':
            return Problem('%s was refused' % show(o), 'accepted', got)
        if want[0] == 'ok' and kind in ('update', 'delete') and not model_before.where.is_set:
            model.consent = True
            if expected(model.render, b)[0] == 'ok':
                return Problem('%s was refused' % show(o), 'accepted', got)
        return None
    if want[0] != 'ok':
        return Problem('%s was accepted' % show(o), 'an exception of the library', (got[0], after))
    if kind in ('update', 'delete'):
        getattr(real, 'allow_%s_all' % kind)()
        model.consent = True
        after = outcome(str, real)
    rendered = expected(model.render, b)
    if after[0] == 'exc' and not after[2]:
        return Problem('rendering after %s raised a foreign exception' % show(o), rendered, after)
    if rendered[0] != after[0]:
        return Problem('rendering after %s' % show(o), rendered, after)
    if after[0] == 'ok' and ('OPAQUE' in after[1] or ' object at 0x' in after[1] or '<undefined' in after[1]):
        return Problem('an inexpressible value in the text', 'an exception', after)
    return None


CONSTRUCT = {
    'V': V, 'R': R,
    'EQ': lambda x: Rel('EQ', x), 'NE': lambda x: Rel('NE', x), 'GT': lambda x: Rel('GT', x), 'GE': lambda x: Rel('GE', x), 'LT': lambda x: Rel('LT', x), 'LE': lambda x: Rel('LE', x), 'LIKE': lambda x: Rel('LIKE', x),
    'NOT_LIKE': lambda x: Rel('NOT_LIKE', x), 'REGEXP': lambda x: Rel('REGEXP', x), 'IN': lambda x: Rel('IN', x), 'NOT_IN': lambda x: Rel('NOT_IN', x), 'IS': lambda x: Rel('IS', x), 'IS_NOT': lambda x: Rel('IS_NOT', x),
    'IN two': lambda x: Rel('IN', 1, x), 'NOT_IN two': lambda x: Rel('NOT_IN', x, 1),
}


def judge_value(ctx, case):
    """A value object or relation made of anything, used in a condition: SQL or an exception of the library."""
    b, name, x = case
    use(b)
    term = sel(op('from_', 't'), op('where', 'c', CONSTRUCT[name](x)))
    want = expected(spec.text_of, term, b)
    if name not in ('V', 'R'):
        made = outcome(builder.build, CONSTRUCT[name](x))
        allowed = expected(lambda: spec.relation(CONSTRUCT[name](x)[1], CONSTRUCT[name](x)[2]))
        if made[0] != allowed[0] or (made[0] == 'exc' and not made[2]):
            return Problem('making the relation %s' % name, allowed[0], made)
    got = outcome(lambda: str(builder.build(term)))
    ctx.state(b, name, got)
    ctx.saw(got)
    if got[0] == 'exc' and not got[2]:
        return Problem('a foreign exception', want, got)
    if got[0] != want[0]:
        return Problem('using %s' % name, want, got)
    if got[0] == 'ok' and ('OPAQUE' in got[1] or ' object at 0x' in got[1]):
        return Problem('an inexpressible value in the text', 'an exception', got)
    return None


def doubtful(o):
    """Arguments of which nothing says whether they are accepted."""
    method, args, kwds = o
    if method in ('where', 'having', 'on'):
        items = [i for a in args if type(a) is list for i in a if type(i) is tuple and i]
        return (args and is_rel(args[0])) or (len(args) != 2 and any(is_rel(a) for a in args)) or any(is_rel(i[0]) for i in items)
    if method == 'values' and len(args) == 2 and spec.is_sql(args[0]):
        return True         # conditions and the like as columns of a row
    if method == 'limit' and args[0] is None and len(args) > 1:
        return True
    return 'Rel' in repr((args, kwds))


def is_rel(a):
    return type(a) is T and a[0] == 'Rel'


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, gen, backends, bound):
        shards = [(b, kind, state, m) for b in backends for kind in STATES for state in range(len(STATES[kind])) for m in VARIABLE[kind] + ['1'] + ['2']]

        def cases(shard):
            b, kind, state, m = shard
            for o in gen(kind, m):
                if not doubtful(o):
                    yield (b, kind, state, o)
        fams.append(Family(name, shards, cases, judge, bound))

    def single(kind, m):
        if m == '1':
            for method in ONE[kind]:
                for x in ATOMS:
                    yield op(method, x)
        elif m == '2':
            for method in TWO.get(kind, ()):
                for x, y in itertools.product(ATOMS, repeat=2):
                    yield op(method, x, y)
        else:
            yield op(m)
            for x in ATOMS:
                yield op(m, x)
                if m not in NO_KEYWORDS:
                    yield op(m, a=x)
                    yield op(m, x, b='y')
                    yield op(m, D(('z', 'w')), b=x)

    family('one argument', single, BACKENDS, 'every method with each of %d arguments' % len(ATOMS))

    def double(kind, m):
        if m in ('1', '2'):
            return
        for x, y in itertools.product(ATOMS, repeat=2):
            yield op(m, x, y)

    family('two arguments', double, BACKENDS if deep else ('sql', 'postgresql'), 'every method with all pairs of arguments')

    def triple(kind, m):
        if m in ('1', '2'):
            return
        pool = SMALL if deep else SMALL[::1]
        for x, y, z in itertools.product(pool, repeat=3) if deep else itertools.product(('a', ('a', 'b'), ('c', 1)), pool, pool):
            yield op(m, x, y, z)
        for x, y in itertools.product(pool, repeat=2):
            yield op(m, [('a', 'desc'), (x, y), ('b', 'asc')])
            yield op(m, ('a', 'desc'), ('k', x), b=y) if m not in NO_KEYWORDS else op(m, ('a', 'desc'), ('k', x), ('l', y))
            yield op(m, OD(('a', 'asc'), ('b', x), ('c', y)))
            yield op(m, D(('a', 'asc'), ('b', x), ('c', y)))

    family('valid and invalid items', triple, BACKENDS if deep else ('mysql',), 'three items, the valid ones first, last or in between')

    def construct(b):
        for name in CONSTRUCT:
            for x in ATOMS:
                if name in ('IN', 'NOT_IN') and type(x) is T and x[0] in ('D', 'OD'):
                    continue        # not documented
                if is_rel(x):
                    continue
                yield (b, name, x)

    fams.append(Family('values and relations', BACKENDS, construct, judge_value, '%d relations and value objects with each argument' % len(CONSTRUCT)))

    # An invalid item at every place of a long call, and after many good calls.
    def long_calls(kind, m):
        if m in ('1', '2'):
            return
        strict = m in ('where', 'having', 'on', 'set', 'values', 'on_duplicate_key_update')
        second = 1 if strict else 'desc'
        bads = [1.5, True, None, ('a', Obj()) if not strict else (Obj(), 1), ('a', 'b', 'c'), (True, 'a'), b'x', Obj(), ('a', 'sideways')]
        for n in scale.sizes(tier):
            good = [(c, second) for c in scale.names(n)]
            for at in {0, n // 2, n} | (set(range(n + 1)) if n <= 12 or deep else set()):
                for bad in bads:
                    items = good[:at] + [bad] + good[at:]
                    if not (m == 'delete' and len(items) == 1):
                        yield op(m, *items)
                    yield op(m, items)
            if m not in NO_KEYWORDS:
                for bad in (Obj(), datetime.timedelta(1), [], [Obj()]):
                    yield op(m, **dict(good, zz=bad))
                    yield op(m, **dict([('a0', bad)] + good))
                    yield op(m, D(*(good + [('zz', bad)])))
                    yield op(m, OD(*([('zz', bad)] + good)))
            yield op(m, *good) if n else op(m)

    family('long calls', long_calls, BACKENDS if deep else ('sql', 'postgresql'), 'an invalid item among %d valid ones' % scale.sizes(tier)[-1])
    return fams
