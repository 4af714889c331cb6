"""C09: every sequence of SELECT builder calls renders the specified statement."""
import itertools

from . import scale
from .core import Family
from .hist import judge_query, query_term, seq_cases, seq_shards
from .spec import BACKENDS
from .terms import C, F, OD, Q, Rel, V, op, sel

SUB = sel(op('columns', 'id'), op('from_', 's'))

# One or more calls per clause, several per clause so that accumulation and replacement are visible.
CALLS = [
    op('columns', 'a'), op('columns', ('b', 'x')), op('columns', 'a', C('1+1')), op('columns', F('count', 'id'), ),
    op('columns', c='z'),
    op('from_', 't'), op('from_', ('u', 'v')), op('from_table', 'w', 'w2'), op('from_', (SUB, 'sub')),
    op('join', 'j'), op('left_join', ('k', 'kk')), op('right_join', 'j'), op('on', 't.id', 'j.t_id'), op('on', 'x', 1),
    op('where', 'a', 1), op('where', b=None), op('where', Q(c='q')),
    op('where', C('a > b')), op('where', a=[1, None]),
    op('having', 'h', Rel('GT', 5)), op('having', g='s'),
    op('group_by', 'a'), op('group_by', ('b', 'desc')), op('group_by', 'b', 'a'),
    op('order_by', 'a'), op('order_by', ('a', 'desc')), op('order_by', 'b', ('c', 'DESC')), op('order_by', 1),
    op('limit', 5), op('limit', 7, 3), op('limit', None), op('offset', 4), op('offset', 0),
    op('into_outfile', '/o'), op('fields_terminated_by', ','), op('lines_terminated_by', ';'),
    op('optionally_enclosed_by', '"'),
    op('for_update'), op('for_update', False),
    op('sql_cache'), op('sql_no_cache'), op('distinct'), op('distinct', False), op('all'), op('distinctrow'),
    op('high_priority'), op('straight_join'), op('sql_big_result'), op('sql_big_result', False),
]

# One representative per clause, for deep orderings.
CLAUSES = [
    op('distinct'), op('columns', 'a', ('b', 'x')), op('from_', 't'), op('where', 'w', 1), op('group_by', 'g'),
    op('having', 'h', 2), op('order_by', ('o', 'desc')), op('limit', 3, 4), op('into_outfile', '/o'),
    op('for_update'), op('high_priority'), op('fields_terminated_by', ','),
]

OPTION_METHODS = [
    'sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result',
    'sql_buffer_result', 'sql_calc_found_rows', 'straight_join', 'high_priority', 'for_update',
]
OPTION_CALLS = [op(m) for m in OPTION_METHODS] + [op(m, False) for m in OPTION_METHODS]
DUP = [op(m, *a) for m in ('all', 'distinct', 'distinctrow', 'sql_cache', 'sql_no_cache') for a in ((), (False,))]
LIMITS = [
    op('limit', 5), op('limit', 0), op('limit', 7, 3), op('limit', 7, 0), op('limit', 8, offset=9),
    op('limit', None), op('limit', None, 4), op('offset', 2), op('offset', 0), op('offset', None),
]
OUTFILE = [
    op('into_outfile', '/a'), op('into_outfile', '/b'), op('fields_terminated_by', ','),
    op('fields_terminated_by', ''), op('lines_terminated_by', ';'), op('optionally_enclosed_by', '"'),
    op('optionally_enclosed_by', V('q')),
]
ACCUMULATE = [
    op('columns', 'a'), op('columns', 'b'), op('columns', ('a', 'x')), op('columns', ('a', 'y')),
    op('columns', 'a', 'b'), op('columns', OD(('b', 'x'), ('a', 'x'))), op('columns', C('a')), op('columns', V('a')),
    op('columns', 1), op('columns', '*'),
]
ORDERS = [
    op(m, *a) for m in ('order_by', 'group_by') for a in (
        ('a',), ('b',), (('a', 'desc'),), (('a', 'ASC'),), ('b', ('a', 'DESC')), (1,), (C('a'),))
]
CONDITIONS = [
    op(m, *a, **k) for m in ('where', 'having') for a, k in (
        (('a', 1), {}), (('a', 2), {}), (('a', '1'), {}), ((), {'b': [1, 2]}), ((Q(a=1),), {}), ((Q(a=1, b=2),), {}),
        ((C('x OR y'),), {}), ((), {}))
]
# Lists of conditions given to both WHERE and HAVING, in two calls or in four.
SIMPLE = [('a', 1), ('a', 2), ('b', 1), ('b', None), ('c', [1, 2])]
FROM = [
    op('from_', 't'), op('from_', 'u'), op('from_', ('t', 'x')), op('from_', 't', 'u'), op('from_', t='y'),
    op('from_table', 't'), op('from_table', 'u', 'z'), op('from_tables', 'v', ('u', 'z')), op('from_', (SUB, 's')),
    op('join', 'j'), op('on', 't.a', 'j.b'),
]


def families(tier):
    deep = tier == 'thorough'
    others = ('mysql', 'postgresql', 'sqlite')
    fams = []

    def seqs(name, ops, depth, backends=('sql',), ctor='select', split=1, before=(), after=()):
        fams.append(Family(
            name, seq_shards(ops, depth, backends, split), seq_cases(ops, ctor, (), before, after), judge_query,
            'all sequences of <=%d of %d calls on %s' % (depth, len(ops), '/'.join(backends))))

    seqs('all calls', CALLS, 3)
    seqs('all calls, other backends', CALLS, 3 if deep else 2, others)
    seqs('options', OPTION_CALLS, 4 if deep else 3)
    seqs('exclusive options', DUP, 6 if deep else 4)
    seqs('limits', LIMITS, 6 if deep else 4)
    seqs('outfile', OUTFILE, 5 if deep else 4, after=(op('columns', 'a'),))
    seqs('columns', ACCUMULATE, 5 if deep else 4)
    seqs('orders', ORDERS, 4 if deep else 3)
    seqs('conditions', CONDITIONS, 4 if deep else 3)
    seqs('tables', FROM, 5 if deep else 4)

    def both_cases(shard):
        b, n = shard
        for left in itertools.product(SIMPLE, repeat=n):
            for k in range(n - 1 if n else 0, n + 1):
                for right in itertools.product(SIMPLE, repeat=k):
                    for ops in ((op('where', list(left)), op('having', list(right))), (op('having', list(left)), op('where', list(right))),
                                tuple(op('where', *x) for x in left) + tuple(op('having', *x) for x in right),
                                (op('where', **dict(left)), op('having', **dict(right))), (op('where', Q(*map(list, [left]))), op('having', Q(*map(list, [right]))))):
                        yield (b, query_term('select_from', ops, ('t',)))

    fams.append(Family('conditions of both kinds', [(b, n) for b in BACKENDS for n in range(1, 4 if deep or b == 'sql' else 3)], both_cases, judge_query,
                       'all pairs of lists of up to 3 of %d conditions in WHERE and HAVING' % len(SIMPLE)))
    if deep:
        seqs('all calls after all clauses', CALLS, 2, BACKENDS, before=tuple(CLAUSES))
        seqs('clauses', CLAUSES, 5, split=2)

    # All orders of setting many clauses: every permutation of 7 (8) of them around the others.
    def permutations(shard):
        b, fixed, free = shard
        for perm in itertools.permutations(free):
            yield (b, query_term('select', fixed + perm))
            yield (b, query_term('select', perm + fixed))

    k = 8 if deep else 6
    shards = []
    for first in range(len(CLAUSES)):
        rotated = CLAUSES[first:] + CLAUSES[:first]
        shards.append(('sql', tuple(rotated[k:]), tuple(rotated[:k])))
    fams.append(Family('clause orders', shards, permutations, judge_query,
                       'all orders of every window of %d of the %d clauses, before and after the others' % (
                           k, len(CLAUSES))))

    # Every subset of clauses: each is present exactly when it was set.
    def subsets(shard):
        b, n = shard
        for chosen in itertools.combinations(CLAUSES, n):
            yield (b, query_term('select', chosen))
            yield (b, query_term('select', tuple(reversed(chosen))))
            yield (b, query_term('select_from', chosen, ('zero',)))

    fams.append(Family('clause subsets', [(b, n) for b in BACKENDS for n in range(len(CLAUSES) + 1)], subsets,
                       judge_query, 'all subsets of the %d clauses in both orders, all backends' % len(CLAUSES)))
    # The values of limit and offset, and of the options of the outfile.
    numbers = [0, 1, 2, 9, 10, 99, 255, 256, 32767, 32768, 65535, 65536, 999999, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 30]
    numbers += [-1, -2 ** 63] if deep else [-1]
    texts = ['', ' ', ',', '\t', '\n', '\\t', '\\', "'", '"', '0', 'NULL', '%s', '{}', 'x' * 300, 'é']

    def number_cases(shard):
        b, n = shard
        for m in numbers:
            for ops in ((op('limit', n, m),), (op('limit', n), op('offset', m)), (op('offset', m), op('limit', n)), (op('limit', m, n), op('limit', n)), (op('limit', n), op('limit', m)), (op('offset', n), op('offset', m))):
                yield (b, query_term('select_from', ops, ('t',)))

    def text_cases(shard):
        b, x = shard
        methods = ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by')
        for y in texts:
            for m in methods:
                for k in methods:
                    yield (b, query_term('select_from', (op('into_outfile', 'o'), op(m, x), op(k, y)), ('t',)))
                    yield (b, query_term('select_from', (op(m, x), op(k, y), op('into_outfile', 'o')), ('t',)))

    given = [(), (True,), (False,), (0,), (1,), (None,), ('',), ('x',), ([],), ([0],), (0.0,), (2,)]

    def given_cases(shard):
        b, m = shard
        for x, y in itertools.product(given, repeat=2):
            yield (b, query_term('select_from', (op(m, *x), op(m, *y)), ('t',)))
            for n in OPTION_METHODS:
                yield (b, query_term('select_from', (op(m, *x), op(n, *y)), ('t',)))

    fams.append(Family('options given anything', [(b, m) for b in (BACKENDS if deep else ('sql', 'mysql')) for m in OPTION_METHODS], given_cases, judge_query,
                       'all pairs of options, each given one of %d true and false values' % len(given)))
    fams.append(Family('limits and offsets', [(b, n) for b in (BACKENDS if deep else ('sql', 'postgresql')) for n in numbers], number_cases, judge_query, 'all pairs of %d numbers' % len(numbers)))
    fams.append(Family('outfile texts', [(b, x) for b in BACKENDS for x in texts], text_cases, judge_query, 'all pairs of %d texts in two of the outfile options' % len(texts)))
    fams.append(scale.family(tier, ('select',), BACKENDS if deep else ('sql', 'mysql')))
    return fams
