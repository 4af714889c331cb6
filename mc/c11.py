"""C11: joins keep their type, table, order and ON conditions."""
import itertools

from . import scale
from .core import Family
from .hist import judge_query, query_term
from .spec import BACKENDS
from .terms import And, C, D, Exists, F, Not, OD, Or, Q, R, Rel, Un, V, op, sel

ASSUMPTIONS = (
    'custom SQL and Q objects in ON are compared by their text; sides count as swapped only for plain references',
)

SUB = sel(op('columns', 'k'), op('from_', 's'))
STARTS = {'select': ('select_from', ('t',)), 'update': ('update', ('t',)), 'delete': ('delete_from', ('t',))}
AFTER = {'select': (), 'update': (op('allow_update_all'),), 'delete': (op('allow_delete_all'),)}
TYPES = ('join', 'left_join', 'right_join')
PG_TYPES = TYPES + ('inner_join', 'full_join')
TABLES = ('j', ('j', 'x'), 'k')
MORE_TABLES = ('j', ('j', 'x'), ('j', 'y'), 'k', ['j', 'x'], D(('j', 'x')), OD(('k', 'x')), ('j', None), (SUB, 'x'), ('k', 'x'), 's.j')

# (name, calls): a set of ON conditions
EQ, EQ_SWAPPED = op('on', 't.a', 'j.b'), op('on', 'j.b', 't.a')
ONS = [
    (), (EQ,), (EQ_SWAPPED,), (op('on', 't.a', 'j.c'),), (EQ, op('on', 'x', 1)), (op('on', 'x', 1), EQ),
]
MORE_ONS = ONS + [
    (op('on', 't.a', Rel('GT', 'j.b')),), (op('on', 'j.b', Rel('LT', 't.a')),), (op('on', 'j.b', Rel('GT', 't.a')),), (op('on', 't.a', Rel('LT', 'j.b')),),
    (op('on', 't.a', Rel('GE', 'j.b')),), (op('on', 'j.b', Rel('LE', 't.a')),), (op('on', 't.a', Rel('NE', 'j.b')),), (op('on', 'j.b', Rel('NE', 't.a')),),
    (op('on', 't.a', Rel('LE', 'j.b')),), (op('on', 'j.b', Rel('GE', 't.a')),), (op('on', 't.a', Rel('LIKE', 'j.b')),), (op('on', 'j.b', Rel('LIKE', 't.a')),),
    (op('on', 't.a', V('j.b')),), (op('on', 't.a', R('j.b')),), (op('on', 'j.b', R('t.a')),), (op('on', C('t.a = j.b')),), (op('on', Q(a='x')),), (op('on', Or(Q(a=1), Q(b=2))),),
    (op('on', 't.a', 1),), (op('on', 't.a', '1'),), (op('on', 't.a', True),), (op('on', 't.a', None),), (op('on', 't.a', [1, 2]),), (op('on', 't.a', [1, None]),),
    (op('on', D(('t.a', 'j.b'), ('x', 1))),), (op('on', OD(('x', 1), ('t.a', 'j.b'))),), (op('on', [('x', 1), ('j.b', 't.a')]),), (op('on', ('t.a', 'j.b'), ('x', 1)),),
    (EQ, EQ), (EQ, EQ_SWAPPED), (op('on', a='b', c='d'),), (op('on', Not(a=1)),), (op('on', 't.a', SUB),), (op('on', 't.a', Rel('NOT_LIKE', 'j.b')),),
    (op('on', Q(a=1), Q(b=2)),), (op('on', Q(a=1), b='c'),), (op('on', 't.b', 'j.a'),), (op('on', 't.a', 'J.b'),), (op('on',),),
]


def unit(type_, table, on):
    return (op(type_, table),) + on


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, units, n, backends, kinds, bound, before=(), after=()):
        units = list(units)
        shards = [(b, k, m, first) for b in backends for k in kinds for m in range(1, n + 1) for first in range(len(units))]

        def cases(shard):
            b, kind, m, first = shard
            ctor, args = STARTS[kind]
            for rest in itertools.product(units, repeat=m - 1):
                ops = tuple(itertools.chain(before, units[first], *rest)) + tuple(after)
                yield (b, query_term(ctor, ops + AFTER[kind], args))
        fams.append(Family(name, shards, cases, judge_query, bound))

    kinds = ('select', 'update', 'delete')
    family('three joins', [unit(t, x, o) for t in TYPES for x in TABLES for o in ONS[:5]], 3, ('sql',), ('select',),
           'all sequences of <=3 joins: 3 types, 3 tables, 5 sets of ON conditions')
    family('two joins', [unit(t, x, o) for t in PG_TYPES for x in TABLES for o in ONS], 2, ('postgresql',), ('select',), 'all pairs with 5 types')
    family('two joins, other statements', [unit(t, x, o) for t in TYPES + ('inner_join',) for x in TABLES for o in ONS[:5]], 2, BACKENDS if deep else ('mysql',), ('update', 'delete'), 'all pairs')
    family('two tables', [unit(t, x, (EQ,)) for t in ('join', 'left_join') for x in MORE_TABLES], 2, BACKENDS, kinds, 'all pairs of %d kinds of tables' % len(MORE_TABLES))
    family('two conditions', [unit(t, 'j', o) for t in ('join', 'left_join') for o in MORE_ONS], 2, BACKENDS if deep else ('sql', 'postgresql'), ('select',),
           'all pairs of %d sets of ON conditions' % len(MORE_ONS))
    family('two conditions, other statements', [unit(t, 'j', o) for t in ('join', 'left_join') for o in MORE_ONS], 2, ('mysql',), ('update', 'delete') if deep else ('update',), 'all pairs of ON conditions')
    family('same condition, many joins', [unit(t, 'j', (o,)) for t in PG_TYPES for o in (EQ, EQ_SWAPPED)] + [unit('left_join', 'k', ())], 5 if deep else 4, ('postgresql',), ('select',),
           'all sequences of <=%d joins of the same table' % (5 if deep else 4))
    # Every relation with both orders of its sides.
    every = ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IN', 'NOT_IN', 'IS', 'IS_NOT', 'EQUAL_TO', 'NOT_EQUAL_TO', 'GRATHER_THAN', 'GRATHER_THAN_OR_EQUAL_TO', 'LESS_THAN', 'LESS_THAN_OR_EQUAL_TO')
    sides = [(x, Rel(r, y)) for r in every for x, y in (('t.a', 'j.b'), ('j.b', 't.a'), ('t.a', 't.a'))]
    sides += [(x, Rel(r, y)) for r in every for x, y in (('t.a', R('j.b')), ('j.b', R('t.a')), ('t.a', V('j.b')), ('j.b', V('t.a')), (R('t.a'), 'j.b'), (C('j.b'), C('t.a')))[:6 if deep else 4]]
    family('all relations', [unit(t, 'j', (op('on', *s),)) for t in ('left_join', 'join') for s in sides][:None if deep else len(sides)], 2, BACKENDS if deep else ('sql',), ('select',), 'all pairs of ON conditions with %d relations and both orders of the sides' % len(every))
    # Subselects that differ in one thing only.
    extra = [(), (op('limit', 1),), (op('limit', 2),), (op('limit', 2, 1),), (op('where', 'z', 1),), (op('where', 'z', '1'),), (op('where', 'z', [1]),), (op('having', 'z', 1),), (op('order_by', 'z'),),
             (op('order_by', ('z', 'desc')),), (op('group_by', 'z'),), (op('distinct'),), (op('columns', 'l'),), (op('columns', ('l', 'm')),), (op('from_', 'r'),), (op('for_update'),), (op('into_outfile', 'o'),),
             (op('join', 'r'),), (op('left_join', 'r'),), (op('join', 'r'), op('on', 'a', 'b')), (op('join', 'r'), op('on', 'b', 'c')), (op('sql_cache'),), (op('columns', C('l')),), (op('columns', V('l')),), (op('columns', F('count', 'l')),),
             (op('columns', F('count_distinct', 'l')),), (op('where', 'z', R('y')),), (op('where', 'z', 'y'),)]
    subs = [sel(op('columns', 'k'), op('from_', 's'), *e) for e in extra]
    subs += [Un(subs[0], '|', subs[1]), Un(subs[0], '&', subs[1]), Un(subs[1], '|', subs[0]), Un(subs[0], '|', subs[0])]
    family('two subselects', [unit(t, (x, 'x'), (EQ,)) for t in ('join', 'left_join') for x in subs], 2, BACKENDS if deep else ('sql', 'postgresql'), ('select',), 'all pairs of joins of %d subselects that differ in one thing' % len(subs))
    family('two subselects in ON', [unit('left_join', 'j', (op('on', 't.a', x),)) for x in subs] + [unit('left_join', 'j', (op('on', Exists(x)),)) for x in subs] + [
        unit('left_join', 'j', (op('on', 't.a', Rel('IN', x)),)) for x in subs], 2, BACKENDS if deep else ('sql',), ('select',), 'all pairs of ON conditions with %d subselects' % len(subs))
    family('two names', [unit('left_join', x, (op('on', y, z),)) for x in ('j', '"j"', 'J', 'j.j', '"j.j"', ' j', ('j', 'j'), ('j', 'J')) for y, z in (('a', 'b'), ('b', 'a'), ('"a"', 'b'), ('a', '"b"'), ('A', 'b'), ('a', ' b'), ('a', 'a'), ('a.b', 'b'))], 2, BACKENDS if deep else ('sql', 'mysql'), ('select',),
           'all pairs of joins whose names look alike')
    if deep:
        family('three conditions', [unit(t, 'j', o) for t in ('join', 'left_join') for o in MORE_ONS[::2]], 3, ('sql',), ('select',), 'all triples of ON conditions')
        family('four joins', [unit(t, x, o) for t in TYPES for x in TABLES[:2] for o in ONS[:3]], 4, ('sql',), ('select',), 'all sequences of 4 joins')

    # Single calls in any order, with tables and other clauses in between, refused calls included.
    calls = [op('join', 'j'), op('left_join', 'j'), op('right_join', ('j', 'x')), EQ, EQ_SWAPPED, op('on', 'x', 1), op('on', Q(y='z')), op('from_', 'u'), op('from_', ('t', 'v')), op('from_', 't'),
             op('where', 'w', 1), op('full_join', 'k'), op('on', 1, 2), op('join', 1)]

    def free(shard):
        b, ctor, n, first = shard
        for rest in itertools.product(calls, repeat=n - 1):
            yield (b, query_term(ctor, (first,) + rest, () if ctor == 'select' else ('t',)))

    depth = 5 if deep else 4
    fams.append(Family('single calls', [(b, c, n, first) for b in ('sql', 'postgresql') for c in ('select', 'select_from') for n in range(1, depth + 1) for first in calls], free, judge_query,
                       'all sequences of <=%d of %d calls, also without table or join' % (depth, len(calls))))

    # ON conditions given in several calls and styles, nested objects.
    on_calls = [EQ, EQ_SWAPPED, op('on', 'x', 1), op('on', Q(y=1, z=2)), op('on', Or(Q(a=1), Q(b='c'))), op('on', C('p > q')), op('on', D(('n', 'm'), ('d', 2))), op('on', k='l'), op('on'), op('on', And(Q(), Q())),
                op('on', 'i', [1, None]), op('on', 'x', True)]

    def on_cases(shard):
        b, kind, first = shard
        ctor, args = STARTS[kind]
        for n in (0, 1, 2, 3) if deep else (0, 1, 2):
            for rest in itertools.product(on_calls, repeat=n):
                yield (b, query_term(ctor, (op('left_join', 'j'), first) + rest + (op('join', 'k'), first) + AFTER[kind], args))

    fams.append(Family('on calls', [(b, k, f) for b in BACKENDS for k in kinds for f in on_calls], on_cases, judge_query, 'all sequences of <=%d ON calls after a join' % (4 if deep else 3)))
    fams.append(scale.family(tier, ('joins',), BACKENDS if deep else ('sql', 'postgresql')))
    return fams
