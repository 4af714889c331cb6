"""C17: subqueries, unions and functions compose without losing structure."""
import collections
import itertools
import sqlite3

from .core import Family, Problem, builder, outcome, use
from .hist import expected, judge_query, judge_term
from . import scale, spec
from .spec import BACKENDS
from .terms import And, C, D, Exists, F, Gen, Not, OD, Or, Q, Query, R, Rel, T, Un, V, op, sel

ASSUMPTIONS = (
    'what an operand of a union yields is asked from SQLite (executing the text of the operand alone); how operands combine '
    '(UNION removes duplicates, UNION ALL keeps them) is computed here',
    'order of rows of a union is not compared',
)

BASE = (op('from_', 't'),)

# ---------------------------------------------------------------- places for a subquery

PLACES = {
    'column': lambda h: sel(op('columns', 'a', h), *BASE),
    'column alias': lambda h: sel(op('columns', (h, 'x'), 'b'), *BASE),
    'column dict': lambda h: sel(op('columns', D((h, 'x')))),
    'table alias': lambda h: sel(op('from_', (h, 'x'))),
    'table': lambda h: sel(op('from_', h)),
    'two tables': lambda h: sel(op('from_', 't', (h, 'x'))),
    'table dict': lambda h: sel(op('from_', D((h, 'x')))),
    'from_table': lambda h: sel(op('from_table', h, 'x')),
    'join': lambda h: sel(*BASE, op('join', (h, 'x')), op('on', 'x.a', 't.a')),
    'left join': lambda h: sel(*BASE, op('left_join', (h, 'x'))),
    'join dict': lambda h: sel(*BASE, op('right_join', D((h, 'x'))), op('on', 'x.a', 1)),
    'on': lambda h: sel(*BASE, op('join', 'j'), op('on', 'a', h)),
    'on relation': lambda h: sel(*BASE, op('join', 'j'), op('on', 'a', Rel('IN', h))),
    'on column': lambda h: sel(*BASE, op('join', 'j'), op('on', h, 'a')),
    'value': lambda h: sel(*BASE, op('where', 'c', h)),
    'value keyword': lambda h: sel(*BASE, op('where', c=h, d=1)),
    'condition column': lambda h: sel(*BASE, op('where', h, 1)),
    'both sides': lambda h: sel(*BASE, op('where', h, h)),
    'in list': lambda h: sel(*BASE, op('where', 'c', [h, 1, h])),
    'in generator': lambda h: sel(*BASE, op('where', 'c', Gen(None, h))),
    'relation arguments': lambda h: sel(*BASE, op('where', 'c', Rel('NOT_IN', h, h))),
    'exists': lambda h: sel(*BASE, op('where', Exists(h))),
    'two exists': lambda h: sel(*BASE, op('where', Exists(h), Not(Exists(h)))),
    'not exists': lambda h: sel(*BASE, op('where', Not(Exists(h)))),
    'or exists': lambda h: sel(*BASE, op('where', Or(Q(Exists(h)), Q(a=1)))),
    'not': lambda h: sel(*BASE, op('where', Not(c=h))),
    'q': lambda h: sel(*BASE, op('where', Or(Q(c=h, d=1), Q(e=h)))),
    'having': lambda h: sel(*BASE, op('having', 'c', Rel('GT', h))),
    'order': lambda h: sel(*BASE, op('order_by', (h, 'desc'))),
    'group': lambda h: sel(*BASE, op('group_by', h, 'a')),
    'V': lambda h: sel(op('columns', V(h))),
    'R': lambda h: sel(op('columns', R(h))),
    'V list': lambda h: sel(op('columns', V([h, 1]))),
    'count': lambda h: sel(op('columns', F('count', h))),
    'distinct': lambda h: sel(op('columns', F('sum_distinct', h))),
    'function list': lambda h: sel(op('columns', F('count', ['a', h]))),
    'concat': lambda h: sel(op('columns', F('concat', 'a', h, h))),
    'group_concat': lambda h: sel(op('columns', F('group_concat', h, mods=(op('order_by', h),)))),
    'convert': lambda h: sel(op('columns', F('convert', h, 'unsigned'))),
    'insert': lambda h: Query('insert_into', op('values', a=h, b=1), op('values', b=h), args=('u',)),
    'update': lambda h: Query('update', op('set', a=h), op('where', 'b', h), args=('u',)),
    'update table': lambda h: Query('update', op('join', (h, 'x')), op('on', 'x.a', 'u.a'), op('set', 'u.a', R('x.a')), op('allow_update_all'), args=('u',)),
    'delete': lambda h: Query('delete_from', op('where', 'b', Rel('IN', h)), args=('u',)),
    'delete exists': lambda h: Query('delete_from', op('where', Exists(h)), args=('u',)),
    'union left': lambda h: Un(h, '&', sel(op('columns', 'l'))),
    'union right': lambda h: Un(sel(op('columns', 'r')), '|', h),
}
for _rel in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IN', 'NOT_IN', 'IS', 'IS_NOT'):
    PLACES[_rel] = lambda h, _rel=_rel: sel(*BASE, op('where', 'c', Rel(_rel, h)))
STATEMENTS = ('insert', 'update', 'update table', 'delete', 'delete exists')
NESTING = [p for p in PLACES if p not in STATEMENTS]
CORE = ['column alias', 'table alias', 'left join', 'value', 'condition column', 'in list', 'exists', 'IN', 'q', 'concat', 'union left', 'union right', 'V', 'group_concat']

INNER = [
    sel(op('columns', 'i'), op('from_', 's')),
    sel(),
    sel(op('columns', ('i', 'al')), op('from_', ('s', 'ss')), op('join', 'k'), op('on', 'ss.a', 'k.a'), op('where', i="it's", j=None), op('group_by', 'i'), op('having', 'n', Rel('GT', 1)), op('order_by', ('i', 'desc')), op('limit', 3, 2), op('distinct'), op('for_update')),
    Un(sel(op('columns', 'i'), op('from_', 's')), '&', sel(op('columns', 'j'), op('from_', 'z'))),
    Un(Un(sel(op('columns', 'i')), '|', sel(op('columns', 'j'))), '&', sel(op('columns', 'k'))),
    sel(op('columns', F('group_concat', 'i', 'i', mods=(op('order_by', ('i', 'desc')), op('separator', ', '))))),
    sel(op('from_', (sel(op('from_', 's')), 'q'))),
    sel(op('columns', C('SELECT'), V('(SELECT "x")'))),
]


def place_cases(shard):
    b, depth, first, places, inners = shard
    for rest in itertools.product(places, repeat=depth - 1):
        for i in inners:
            term = INNER[i]
            for p in rest:
                term = PLACES[p](term)
            yield (b, PLACES[first](term))


def judge_any(ctx, case):
    return judge_query(ctx, case) if case[1][0] == 'Query' else judge_term(ctx, case)


# ---------------------------------------------------------------- functions

SUB = INNER[0]
ONE = ['avg', 'avg_distinct', 'count', 'count_distinct', 'max', 'max_distinct', 'min', 'min_distinct', 'sum', 'sum_distinct']
ARGS = ['a', 't.a', '*', 't.*', V('v'), V(1), V(None), R('r'), C('x + y'), SUB, INNER[3], F('max', 'm'), F('concat', 'p', 'p'), F('group_concat', 'g', mods=(op('separator', ''),)), F('convert', 'c', 'unsigned'), F('count'), 5]
DISTINCT = [(), (op('distinct'),), (op('distinct', True),), (op('distinct', False),), (op('distinct'), op('distinct', False)), (op('distinct', False), op('distinct'))]
MODS = [op('order_by', 'o'), op('order_by', ('o', 'desc')), op('order_by', 'o', ('p', 'asc')), op('order_by', 'p'), op('order_by', F('max', 'm')), op('separator', '-'), op('separator', ''), op('separator', "'"), op('separator', '\\'), op('separator', C('x')), op('separator', V('v'))]


def function_cases(shard):
    b, kind, arg, deep = shard
    if kind == 'one':
        for f in ONE:
            for mods in DISTINCT:
                yield (b, F(f, *arg, mods=mods))
                yield (b, sel(op('columns', (F(f, *arg, mods=mods), 'x'), 'z'), *BASE))
                yield (b, sel(*BASE, op('having', F(f, *arg, mods=mods), Rel('GT', 1))))
                yield (b, sel(*BASE, op('order_by', (F(f, *arg, mods=mods), 'desc'))))
    elif kind == 'list':
        for f in ONE:
            for n in (1, 2, 3):
                for items in itertools.product([a for a in ARGS[:12] if a != '*'], repeat=n - 1):
                    yield (b, F(f, [arg[0]] + list(items)))
                    yield (b, F(f, (arg[0],) + items, mods=(op('distinct'),)))
    elif kind == 'many':
        for n in range(1, 4 if deep else 3):
            for items in itertools.product(ARGS, repeat=n - 1):
                for f in ('concat', 'group_concat'):
                    yield (b, F(f, *(arg + items)))
                    yield (b, sel(op('columns', F(f, *(arg + items)), F(f, *(arg + items[:1]))), *BASE))
    elif kind == 'mods':
        for n in range(1, 4 if deep else 3):
            for mods in itertools.product(MODS, repeat=n):
                yield (b, F('group_concat', *arg, mods=mods))
                yield (b, sel(op('columns', (F('group_concat', *arg, mods=mods), 'x')), op('order_by', 'z'), *BASE))
    elif kind == 'convert':
        for types in ([('unsigned',)], [('CHAR',)], [('decimal(1,2)',)], [(), 'signed'], [('unsigned',), 'signed'], [('a',), 'b', 'c']):
            yield (b, F('convert', *(arg + types[0]), mods=tuple(op('to', t) for t in types[1:])))
            yield (b, sel(op('columns', F('max', F('convert', *(arg + types[0]), mods=tuple(op('to', t) for t in types[1:]))))))
    elif kind == 'nested':
        wraps = [lambda x, f=f: F(f, x) for f in ('avg', 'count_distinct', 'max', 'min', 'sum')] + [
            lambda x: F('count', [x, 'k']), lambda x: F('concat', 'k', x, x), lambda x: F('group_concat', x, mods=(op('order_by', (x, 'desc')), op('separator', '-'))), lambda x: F('convert', x, 'char'), lambda x: R(x), lambda x: V(x),
        ]
        for n in range(1, 5 if deep else 4):
            for layers in itertools.product(wraps, repeat=n):
                term = arg[0]
                for w in layers:
                    term = w(term)
                yield (b, term)


# ---------------------------------------------------------------- unions: text and meaning

LEAVES = [
    sel(op('columns', 'a'), op('from_', 'p')),
    sel(op('columns', 'a'), op('from_', 'q')),
    sel(op('columns', 'b'), op('from_', 'p'), op('where', 'a', Rel('GT', 1))),
    sel(op('columns', 'a'), op('from_', 'r'), op('distinct')),
    sel(op('columns', V(1))),
]
LIMITED = [
    sel(op('columns', 'a'), op('from_', 'p'), op('limit', 1)),
    sel(op('columns', 'a'), op('from_', 'q'), op('order_by', ('a', 'desc')), op('limit', 2, 1)),
    sel(op('columns', 'a'), op('from_', 'p'), op('order_by', 'a')),
]
_DB = []


def database():
    if not _DB:
        db = sqlite3.connect(':memory:')
        for table, rows in (('p', [(1, 1), (2, 1), (2, 3), (3, None)]), ('q', [(1, 0), (1, 0), (4, 0)]), ('r', [(2, 9), (2, 9), (5, 9), (None, 9)])):
            db.execute('CREATE TABLE %s (a, b)' % table)
            db.executemany('INSERT INTO %s VALUES (?, ?)' % table, rows)
        _DB.append(db)
    return _DB[0]


def execute(text):
    try:
        return ('rows', collections.Counter(database().execute(text).fetchall()))
    except sqlite3.Error as exc:
        return ('error', str(exc))


def meaning(term):
    """Multiset of rows the caller composed."""
    if term[0] == 'Un':
        left, right = meaning(term[1]), meaning(term[3])
        both = left + right
        return both if term[2] == '&' else collections.Counter(set(both))
    return execute(spec.text_of(term, 'sqlite'))[1]


def trees(leaves, n):
    """All binary trees with n leaves from the given ones."""
    if n == 1:
        yield from leaves
        return
    for k in range(1, n):
        for left in trees(leaves, k):
            for right in trees(leaves, n - k):
                for o in '&|':
                    yield Un(left, o, right)


def mixed_right(term):
    """Does a right operand contain a union whose operator differs from the one it is joined with?"""
    if term[0] != 'Un':
        return False
    return mixed_right(term[1]) or mixed_right(term[3]) or any(o != term[2] for o in operators(term[3]))


def operators(term):
    return operators(term[1]) + [term[2]] + operators(term[3]) if term[0] == 'Un' else []


def leaves_of(term):
    return leaves_of(term[1]) + leaves_of(term[3]) if term[0] == 'Un' else [term]


def judge_union(ctx, case):
    b, term = case
    use(b)
    got = outcome(lambda: str(builder.build(term)))
    want = ('ok', spec.text_of(term, b))
    ctx.saw(got)
    ctx.state(b, got)
    if b != 'sqlite':
        return Problem('rendering', want, got) if got != want else None
    if got[0] != 'ok':
        return Problem('rendering', want, got)
    rows = execute(got[1])
    ctx.traces += 1
    composed = ('rows', meaning(term))
    if rows == composed:
        return Problem('rendering', want, got) if got != want and not findings(term) else None
    key = None
    if got == want:
        # The flattened text the library is known to render; any other wrong text is a new violation.
        keys = findings(term)
        key = keys[0] if keys else None
    return Problem('the union selects other rows than composed: %s' % got[1], sorted(composed[1].items(), key=str), rows, key=key)


def findings(term):
    found = []
    if mixed_right(term):
        found.append('mixed-union-on-the-right')
    if any(leaf in LIMITED for leaf in leaves_of(term)):
        found.append('ordered-or-limited-operand')
    return found


def long_chain(chain, right=False):
    """A chain of unions, the operands taken in turns."""
    term = LEAVES[0]
    for i, o in enumerate(chain):
        other = LEAVES[(i + 1) % len(LEAVES)]
        term = Un(other, o, term) if right else Un(term, o, other)
    return term


def union_cases(shard):
    b, n, first, pool = shard
    leaves = LEAVES[:pool]
    for term in trees(leaves, n):
        if leaves_of(term)[0] == leaves[first]:
            yield (b, term)


def limited_cases(shard):
    b, n, first = shard
    leaves = LEAVES[:2] + LIMITED
    for term in trees(leaves, n):
        if leaves_of(term)[0] == leaves[first] and any(leaf in LIMITED for leaf in leaves_of(term)):
            yield (b, term)


def families(tier):
    deep = tier == 'thorough'
    fams = []
    two = BACKENDS if deep else ('sql', 'mysql')
    n_inner = range(len(INNER))

    shards = [(b, 1, p, [], n_inner) for b in BACKENDS for p in PLACES]
    shards += [(b, 2, p, NESTING, n_inner) for b in two for p in PLACES]
    fams.append(Family('subqueries in all places', shards, place_cases, judge_any, 'all nestings of depth <=2 over %d places and %d innermost queries' % (len(PLACES), len(INNER))))
    shards = [(b, 3, p, NESTING if deep else CORE, (2,) if deep else (0, 3)) for b in (two if deep else ('sql',)) for p in (PLACES if deep else CORE)]
    fams.append(Family('deep subqueries', shards, place_cases, judge_any, 'all nestings of depth 3'))
    shards = [(b, 5 if deep else 4, p, ['column alias', 'table alias', 'left join', 'IN', 'exists', 'union left', 'union right'], (0, 4)) for b in ('sqlite',) for p in CORE]
    fams.append(Family('deeper subqueries', shards, place_cases, judge_any, 'all nestings of depth %d over 7 places' % (5 if deep else 4)))

    shards = [(b, 'one', (a,), deep) for b in BACKENDS for a in ARGS] + [(b, 'one', (), deep) for b in ()]
    shards += [(b, 'list', (a,), deep) for b in two for a in ARGS[:12] if a != '*']
    shards += [(b, 'many', (a,), deep) for b in two for a in ARGS]
    shards += [(b, 'mods', a, deep) for b in two for a in (('a',), ('a', 'a'), (V('v'), 'b'), (SUB,))]
    shards += [(b, 'convert', (a,), deep) for b in BACKENDS for a in ARGS]
    shards += [(b, 'nested', (a,), deep) for b in two for a in ('a', V('v'), SUB, C('x'))]
    fams.append(Family('functions', shards, function_cases, judge_any, 'all functions, all argument tuples of <=%d over %d arguments, all call chains of <=%d, nesting <=%d' % (3 if deep else 2, len(ARGS), 3 if deep else 2, 4 if deep else 3)))

    shards = [(b, n, f, len(LEAVES)) for b in ('sqlite', 'mysql') for n in (2, 3) for f in range(len(LEAVES))]
    shards += [(b, 4, f, 5 if deep else 3) for b in (BACKENDS if deep else ('sqlite',)) for f in range(5 if deep else 3)]
    shards += [('sqlite', 5, f, 3 if deep else 2) for f in range(3 if deep else 2)]
    if deep:
        shards += [('sqlite', 6, f, 2) for f in range(2)]
    fams.append(Family('unions', shards, union_cases, judge_union, 'all trees of unions with <=%d operands, executed on SQLite' % (6 if deep else 5)))
    def chain_cases(shard):
        b, o, p = shard
        for n in range(2, 41 if deep else 25):
            for k in range(n):
                yield (b, long_chain([o] * k + [p] * (n - k)))
                yield (b, long_chain([o] * k + [p] + [o] * (n - k - 1)))
            yield (b, long_chain([o, p] * n))
            if o == p:
                yield (b, long_chain([o] * n, right=True))

    fams.append(Family('long unions', [(b, o, p) for b in BACKENDS for o in '&|' for p in '&|'], chain_cases, judge_union, 'chains of up to %d operands, the operator changing anywhere' % (40 if deep else 24)))
    shards = [(b, n, f) for b in ('sqlite', 'mysql') for n in (2, 3) for f in range(5)]
    fams.append(Family('unions of ordered or limited operands', shards, limited_cases, judge_union, 'all trees of unions with <=3 operands, executed on SQLite'))
    fams.append(scale.family(tier, ('nested',), BACKENDS if deep else ('sql', 'postgresql'), judge_any))
    return fams
