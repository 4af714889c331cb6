"""C12: queries compare equal exactly as their SQL does."""
import decimal
import itertools

from . import scale
from .c18 import MARK, MARK2, TWICE, build_with, filled, twice_cases
from .core import Family, Problem, builder, outcome, use
from .spec import BACKENDS, QUOTE
from .terms import And, C, D, Exists, F, Not, OD, Or, Q, Query, R, Rel, T, Un, V, op, sel

SUB = sel(op('columns', 'k'), op('from_', 's'))
SUB2 = sel(op('columns', 'k'), op('from_', 's2'))
EQ, SWAPPED = op('on', 't.a', 'j.b'), op('on', 'j.b', 't.a')
GT, LT = op('on', 't.a', Rel('GT', 'j.b')), op('on', 'j.b', Rel('LT', 't.a'))
JOIN = op('join', 'j')

SELECT = [(o,) for o in [
    op('columns', 'a'), op('columns', 'a', 'b'), op('columns', 'b', 'a'), op('columns', ('a', 'x')), op('columns', ('a', 'y')), op('columns', C('a')), op('columns', V('a')), op('columns', R('a')),
    op('columns', 1), op('columns', '1'), op('columns', V(1)), op('columns', V('1')), op('columns', F('count', 'a')), op('columns', F('count_distinct', 'a')), op('columns', F('max', 'a')),
    op('columns', F('concat', 'a')), op('columns', F('group_concat', 'a')), op('columns', F('group_concat', 'a', mods=(op('separator', ','),))), op('columns', F('group_concat', 'a', mods=(op('order_by', 'b'),))),
    op('columns', F('convert', 'a', 'signed')), op('columns', C('COUNT("a")')), op('columns', (SUB, 'x')), op('columns', (SUB2, 'x')), op('columns', C("'a'")), op('columns', C('"a"')), op('columns', 'a.b'),
    op('columns', C('a'), C('b')), op('columns', C('a, b')),
    op('from_', 'u'), op('from_', ('t', 'x')), op('from_', (SUB, 'x')), op('from_', C('u')), op('from_', ('u', C('x'))), op('from_', 'u', 'v'),
    op('where', 'a', 1), op('where', 'a', 2), op('where', 'a', '1'), op('where', 'a', True), op('where', 'a', 1.0), op('where', 'a', decimal.Decimal(1)), op('where', 'a', None), op('where', 'a', [1]),
    op('where', 'a', (1,)), op('where', 'a', [1, 2]), op('where', 'a', [2, 1]), op('where', 'a', [True]), op('where', 'a', ['1']), op('where', 'a', [1, None]), op('where', 'a', Rel('IN', [1])), op('where', 'a', Rel('NOT_IN', [1])),
    op('where', 'a', Rel('IN', {1, 2})), op('where', 'a', Rel('NE', 1)), op('where', 'a', Rel('GT', 1)), op('where', 'a', Rel('GE', 1)), op('where', 'a', Rel('LIKE', 'x')), op('where', 'a', Rel('NOT_LIKE', 'x')),
    op('where', 'a', Rel('REGEXP', 'x')), op('where', 'a', 'x'), op('where', 'a', V('x')), op('where', 'a', R('x')), op('where', 'a', C('x')), op('where', 'a', '"x"'), op('where', 'a', '`x`'), op('where', 'a', Rel('IS', True)),
    op('where', 'a', Rel('IS_NOT', None)), op('where', C('a'), 1), op('where', Q(a=1)), op('where', Q(a=1, b=2)), op('where', ('a', 1), ('b', 2)), op('where', ('b', 2), ('a', 1)), op('where', And(Q(a=1), Q(b=2))),
    op('where', Or(Q(a=1), Q(b=2))), op('where', Or(Q(b=2), Q(a=1))), op('where', Not(a=1)), op('where', Not(a=2)), op('where', Not(Not(a=1))), op('where', Q()), op('where', Exists(SUB)), op('where', Exists(SUB2)),
    op('where', C('"a" = 1')), op('where', 'a', SUB), op('where', 'a', Rel('IN', SUB)), op('where', 'a', Rel('IN', SUB2)), op('where', 'a', V([1, 2])), op('where', Or(Or(Q(a=1), Q(b=2)), Q(c=3))),
    op('where', Or(Q(a=1), Or(Q(b=2), Q(c=3)))), op('where', And(Or(Q(a=1), Q(b=2)), Q(c=3))),
    op('having', 'a', 1), op('having', 'a', 2), op('having', Q(a=1)), op('group_by', 'a'), op('group_by', ('a', 'desc')), op('group_by', ('a', 'asc')), op('group_by', C('a')), op('group_by', 'a', 'b'), op('group_by', 1), op('group_by', '1'),
    op('order_by', 'a'), op('order_by', ('a', 'desc')), op('order_by', 'a', 'b'), op('order_by', 'b', 'a'), op('order_by', C('a')), op('order_by', 1),
    op('limit', 1), op('limit', 2), op('limit', 1, 2), op('limit', 2, 1), op('offset', 1), op('offset', 2), op('limit', 0), op('limit', 1, 0),
    op('into_outfile', '/a'), op('into_outfile', '/b'), op('into_outfile', V('/a')), op('fields_terminated_by', ','), op('lines_terminated_by', ','), op('optionally_enclosed_by', ','),
    op('distinct'), op('all'), op('distinctrow'), op('sql_cache'), op('sql_no_cache'), op('high_priority'), op('straight_join'), op('sql_small_result'), op('sql_big_result'), op('sql_buffer_result'),
    op('sql_calc_found_rows'), op('for_update'), op('distinct', False),
]] + [
    (JOIN,), (op('left_join', 'j'),), (op('right_join', 'j'),), (op('full_join', 'j'),), (op('join', ('j', 'x')),), (op('join', 'k'),), (JOIN, EQ), (JOIN, SWAPPED), (JOIN, GT), (JOIN, LT), (JOIN, op('on', 't.a', Rel('GE', 'j.b'))),
    (JOIN, op('on', 'j.b', Rel('GT', 't.a'))), (JOIN, op('on', 't.a', V('j.b'))), (JOIN, op('on', 't.a', 1)), (JOIN, op('on', 't.a', True)), (JOIN, op('on', 't.a', '1')), (JOIN, EQ, op('on', 'x', 1)), (JOIN, op('on', 'x', 1), EQ),
    (op('left_join', 'j'), EQ), (op('left_join', 'j'), SWAPPED), (JOIN, EQ, op('left_join', 'j'), EQ), (op('left_join', 'j'), EQ, JOIN, EQ), (JOIN, EQ, op('join', 'k')), (op('join', 'k'), JOIN, EQ), (JOIN, op('on', Q(a=1))), (JOIN, op('on', C('x'))),
    (JOIN, op('on', 't.a', Rel('LIKE', 'j.b'))), (JOIN, op('on', 'j.b', Rel('LIKE', 't.a'))), (op('join', (SUB, 'x')),), (op('join', (SUB2, 'x')),), (JOIN, op('on', 't.a', '"j"."b"')), (JOIN, op('on', 't.a', R('j.b'))),
    (op('into_outfile', '/a'), op('fields_terminated_by', ',')), (op('into_outfile', '/a'), op('lines_terminated_by', ',')), (op('into_outfile', '/a'), op('optionally_enclosed_by', ',')), (op('into_outfile', '/a'), op('fields_terminated_by', ';')),
    (op('distinct'), op('sql_cache')), (op('limit', 1), op('offset', 2)), (op('order_by', 'a'), op('order_by', 'b')), (op('where', 'a', 1), op('where', 'b', 2)), (op('where', 'b', 2), op('where', 'a', 1)),
    (op('limit', 1), op('limit', None)), (op('for_update'), op('for_update', False)),
]
INSERT = [(o,) for o in [
    op('values', a=1), op('values', a=2), op('values', a='1'), op('values', a=True), op('values', a=1.0), op('values', a=None), op('values', b=1), op('values', a=1, b=2), op('values', a=2, b=1), op('values', a=C('1')), op('values', a=V(1)), op('values', a='x'),
    op('values', a=C("'x'")), op('values', a=R('x')), op('values', a=SUB), op('values', a=SUB2), op('ignore'), op('into', 'u'), op('into', ('t', 'x')), op('on_duplicate_key_update', a=1), op('on_duplicate_key_update', 'a', 1), op('on_duplicate_key_update', 'a', b=1),
    op('on_duplicate_key_update', 'b', b=1), op('on_duplicate_key_update', 'a', b=2), op('on_duplicate_key_update', 'a', b=True), op('on_duplicate_key_update'), op('on_duplicate_key_update', 'a', [('b', 1), ('c', 2)]), op('on_duplicate_key_update', 'a', [('c', 2), ('b', 1)]),
]] + [
    (op('values', a=1), op('values', b=2)), (op('values', b=2), op('values', a=1)), (op('values', a=1), op('values', a=2)), (op('values', a=2), op('values', a=1)), (op('values', a=1, b=None),), (op('values', a=1), op('values', a=1)),
    (op('values', [('a', 1), ('b', 2)]),), (op('values', [('b', 2), ('a', 1)]),), (op('values', [('a', 0), ('a', 1)]),), (op('ignore'), op('ignore', False)),
]
UPDATE = [(o,) for o in [
    op('set', a=1), op('set', a=2), op('set', a='1'), op('set', a=True), op('set', a=1.0), op('set', a=None), op('set', b=1), op('set', [('a', 1), ('b', 2)]), op('set', [('b', 2), ('a', 1)]), op('set', a=C('1')), op('set', C('"a" = 1')), op('set', C('z')),
    op('set', a=SUB), op('set', a=SUB2), op('ignore'), op('where', 'a', 1), op('where', 'a', True), op('where', Q(a=1)), op('where', Q()), op('where', Not()), op('join', 'j'), op('left_join', 'j'), op('allow_update_all'), op('forbid_update_all'), op('table', 'u'), op('where', 'a', None),
]] + [(JOIN, EQ), (JOIN, SWAPPED), (op('left_join', 'j'), EQ), (op('allow_update_all'), op('forbid_update_all')), (op('allow_update_all'), op('where', 'a', 1))]
DELETE = [(o,) for o in [
    op('delete', 'u'), op('delete', ('u', 'x')), op('from_', 'u'), op('from_', ('u', 'x')), op('ignore'), op('where', 'a', 1), op('where', 'a', True), op('where', Q(a=1)), op('where', Q()), op('where', 'a', None), op('join', 'j'), op('left_join', 'j'),
    op('allow_delete_all'), op('forbid_delete_all'), op('where', Or(Q(a=1), Q(b=2))), op('from_', 't'), op('delete', 't'),
]] + [(JOIN, EQ), (JOIN, SWAPPED), (op('allow_delete_all'), op('forbid_delete_all')), (op('allow_delete_all'), op('where', 'a', 1))]


# Groups of histories that say the same.
IN = lambda *a: Rel('IN', *a)
SAME = {
    'select_from': [
        [(op('columns', 'a', 'b'),), (op('columns', 'a'), op('columns', 'b')), (op('columns', ('a', None), 'b'),), (op('columns', 'a', 'b', 'a'),), (op('columns', 'a', 'b'), op('columns', 'a'))],
        [(op('columns', ('a', 'x')),), (op('columns', ['a', 'x']),), (op('columns', D(('a', 'x'))),), (op('columns', a='x'),), (op('columns', OD(('a', 'x'))),)],
        [(op('from_', ('u', 'x')),), (op('from_table', 'u', 'x'),), (op('from_table', 'u', alias='x'),), (op('from_tables', ('u', 'x')),), (op('from_', u='x'),), (op('from_', D(('u', 'x'))),)],
        [(op('from_', 'u', 'v'),), (op('from_', 'u'), op('from_', 'v')), (op('from_tables', 'u', 'v'),), (op('from_table', 'u'), op('from_table', 'v')), (op('from_', 'u', 'v', 'u'),), (op('from_', 'u', None, 'v'),)],
        [(op('where', 'a', 1),), (op('where', a=1),), (op('where', [('a', 1)]),), (op('where', D(('a', 1))),), (op('where', 'a', Rel('EQ', 1)),), (op('where', (('a', 1),)),), (op('where', a=1), op('where', 'a', 1))],
        [(op('where', ('a', 1), ('b', 2)),), (op('where', a=1, b=2),), (op('where', [('a', 1), ('b', 2)]),), (op('where', D(('b', 2), ('a', 1))),), (op('where', a=1), op('where', b=2)), (op('where', OD(('a', 1), ('b', 2))),)],
        [(op('where', 'a', [1, 2]),), (op('where', 'a', (1, 2)),), (op('where', 'a', IN([1, 2])),), (op('where', 'a', IN(1, 2)),), (op('where', 'a', IN((1, 2))),)],
        [(op('where', 'a', None),), (op('where', a=None),), (op('where', 'a', Rel('IS', None)),)],
        [(op('having', 'a', 1),), (op('having', a=1),), (op('having', [('a', 1)]),)],
        [(op('group_by', 'a', 'b'),), (op('group_by', 'a'), op('group_by', 'b')), (op('group_by', ('a', 'asc'), ('b', 'ASC')),), (op('group_by', ('a', 'desc')), op('group_by', 'b', 'a')), (op('group_by', ['a', None], 'b'),)],
        [(op('order_by', 'a'),), (op('order_by', ('a', 'asc')),), (op('order_by', ('a', 'Asc')),), (op('order_by', a='asc'),), (op('order_by', ('a', 'desc')), op('order_by', 'a')), (op('order_by', 'a'), op('order_by', 'a'))],
        [(op('order_by', ('a', 'desc')),), (op('order_by', a='DESC'),), (op('order_by', 'a'), op('order_by', ('a', 'desc')))],
        [(op('limit', 1, 2),), (op('limit', 1), op('offset', 2)), (op('offset', 2), op('limit', 1)), (op('limit', 1, offset=2),), (op('limit', 5, 6), op('limit', 1, 2)), (op('limit', 5), op('limit', None), op('limit', 1, 2)), (op('limit', 1, 2), op('limit', 1))],
        [(), (op('limit', None),), (op('limit', 1), op('limit', None)), (op('limit', 1, 2), op('limit', None)), (op('offset', 1), op('offset', None)), (op('offset', 0),), (op('offset', 3), op('limit', None)), (op('offset', 3), op('offset', 0)),
         (op('distinct', False),), (op('distinct'), op('distinct', False)), (op('all'), op('distinct', False)), (op('sql_cache'), op('sql_no_cache', False)), (op('for_update'), op('for_update', False)), (op('high_priority', 0),), (op('columns'),), (op('for_update', None),),
         (op('where', D()),), (op('where', []),), (op('from_', None),), (op('from_', 't'),), (op('straight_join'), op('straight_join', None)), (op('sql_big_result'), op('sql_big_result', 0))],
        [(op('limit', 1),), (op('limit', 1), op('offset', 0)), (op('limit', 1, None),), (op('limit', 7), op('limit', 1)), (op('limit', 1), op('offset', 3), op('offset', None))],
        [(op('distinct'),), (op('distinct', 1),), (op('all'), op('distinct')), (op('distinctrow'), op('distinct')), (op('distinct'), op('distinct')), (op('distinct', 'x'),)],
        [(op('sql_no_cache'),), (op('sql_cache'), op('sql_no_cache')), (op('sql_no_cache', 2),)],
        [(op('for_update'),), (op('for_update', 1),), (op('for_update', False), op('for_update', 'x')), (op('for_update'), op('for_update'))],
        [(op('into_outfile', '/a'),), (op('into_outfile', '/b'), op('into_outfile', '/a'))],
        [(op('into_outfile', '/a'), op('fields_terminated_by', ',')), (op('fields_terminated_by', ','), op('into_outfile', '/a')), (op('into_outfile', '/a'), op('fields_terminated_by', ';'), op('fields_terminated_by', ','))],
        [(JOIN, EQ), (op('inner_join', 'j'), EQ), (op('join', ('j', None)), EQ), (JOIN, op('on', D(('t.a', 'j.b')))), (JOIN, op('on', [('t.a', 'j.b')])), (JOIN, EQ, EQ), (JOIN, SWAPPED), (JOIN, EQ, SWAPPED)],
        [(op('left_join', ('j', 'x')),), (op('left_join', ['j', 'x']),), (op('left_join', D(('j', 'x'))),), (op('left_join', OD(('j', 'x'))),)],
    ],
    'insert_into': [
        [(op('values', a=1, b='x'),), (op('values', ('a', 1), ('b', 'x')),), (op('values', [('a', 1), ('b', 'x')]),), (op('values', D(('b', 'x'), ('a', 1))),), (op('values', OD(('a', 1), ('b', 'x'))),)],
        [(op('values', a=1), op('ignore')), (op('ignore'), op('values', a=1)), (op('values', a=1), op('ignore', 2)), (op('ignore', False), op('values', a=1), op('ignore'))],
        [(op('values', a=1),), (op('values', 'a', 1),), (op('values', a=1), op('ignore', False)), (op('ignore'), op('values', a=1), op('ignore', 0)), (op('into', 't'), op('values', a=1)), (op('values', a=1), op('into', None))],
    ],
    'update': [
        [(op('set', a=1, b='x'), op('where', c=1)), (op('set', ('a', 1), ('b', 'x')), op('where', 'c', 1)), (op('set', [('a', 1), ('b', 'x')]), op('where', [('c', 1)])), (op('set', D(('b', 'x'), ('a', 1))), op('where', D(('c', 1)))), (op('set', 'a', 1), op('set', 'b', 'x'), op('where', c=1)),
         (op('where', c=1), op('set', a=1, b='x')), (op('allow_update_all'), op('set', a=1, b='x'), op('where', c=1), op('forbid_update_all')), (op('set', a=1, b='x'), op('where', c=1), op('ignore', False)), (op('table', 't'), op('set', a=1, b='x'), op('where', c=1))],
        [(op('set', a=1), op('allow_update_all')), (op('allow_update_all'), op('set', a=1)), (op('allow_update_all'), op('allow_update_all'), op('set', a=1)), (op('forbid_update_all'), op('allow_update_all'), op('set', a=1)), (op('set', a=1), op('set', a=1), op('allow_update_all'))],
    ],
    'delete_from': [
        [(op('where', c=1),), (op('where', 'c', 1),), (op('forbid_delete_all'), op('where', c=1)), (op('allow_delete_all'), op('where', c=1), op('forbid_delete_all')), (op('ignore'), op('where', c=1), op('ignore', False)), (op('from_', 't'), op('where', c=1))],
        [(op('allow_delete_all'),), (op('forbid_delete_all'), op('allow_delete_all')), (op('allow_delete_all'), op('allow_delete_all')), (op('allow_delete_all'), op('ignore', None))],
    ],
}
# Calls of different clauses, that can be made in any order.
CLAUSES = {
    'select_from': [op('columns', 'a', ('b', 'x')), JOIN, op('where', a=1), op('having', b=[1, None]), op('group_by', 'a'), op('order_by', ('a', 'desc')), op('limit', 1, 2), op('into_outfile', '/a'), op('distinct'), op('sql_cache'), op('for_update'),
                    op('fields_terminated_by', ','), op('high_priority'), op('where', D()), op('sql_big_result')],
    'insert_into': [op('values', a=1), op('ignore'), op('on_duplicate_key_update', 'i', D(('b', 1)))],
    'update': [op('set', a=1), op('where', b=2), op('ignore'), op('allow_update_all'), JOIN],
    'delete_from': [op('where', b=2), op('ignore'), op('allow_delete_all'), JOIN, op('delete', 't')],
}


def q(ctor, args, ops):
    return T(('Query', ctor, args, (), tuple(ops)))


def universe(tier):
    deep = tier == 'thorough'
    out = [q('select', (), ()), q('select_from', ('t',), ()), q('select', ('a',), ()), q('insert', (), ()), q('insert_into', ('t',), ()), q('update', ('t',), ()), q('delete', ('t',), ()), q('delete_from', ('t',), ()),
           q('delete', (), ())]
    out += [q('select_from', ('t',), o) for o in SELECT]
    out += [q('insert_into', ('t',), o) for o in INSERT]
    out += [q('update', ('t',), o) for o in UPDATE]
    out += [q('update', ('t',), o + (op('allow_update_all'),)) for o in UPDATE]
    out += [q('delete_from', ('t',), o) for o in DELETE]
    out += [q('delete_from', ('t',), o + (op('allow_delete_all'),)) for o in DELETE]
    # two steps
    step = 3 if deep else 7
    out += [q('select_from', ('t',), o + p) for o in SELECT[::step] for p in SELECT[::step] if not any(x[0] == 'full_join' for x in o + p)]
    out += [q('insert_into', ('t',), o + p) for o in INSERT[::1 if deep else 3] for p in INSERT[::1 if deep else 2]]
    out += [q('update', ('t',), o + p) for o in UPDATE[::1 if deep else 3] for p in UPDATE[::1 if deep else 2]]
    out += [q('delete_from', ('t',), o + p) for o in DELETE[::1 if deep else 2] for p in DELETE[::1 if deep else 2]]
    # unions
    parts = [sel(op('columns', 'a')), sel(op('columns', 'b')), q('select_from', ('t',), ()), q('select_from', ('t',), (op('where', 'a', 1),)), q('select_from', ('t',), (op('where', 'a', True),)), q('select_from', ('t',), (op('where', 'a', '1'),)),
             q('select_from', ('t',), (JOIN, EQ)), q('select_from', ('t',), (JOIN, SWAPPED))]
    pairs = [Un(x, o, y) for x in parts for y in parts for o in '&|']
    out += pairs
    few = parts[:2]
    three = [Un(Un(x, o, y), p, z) for x in few for y in few for z in few for o in '&|' for p in '&|']
    three += [Un(x, o, Un(y, p, z)) for x in few for y in few for z in few for o in '&|' for p in '&|']
    return out + three


def canonical(text, b):
    """Text with the known swapped comparisons written one way."""
    if text[0] != 'ok':
        return text
    qu = QUOTE[b]
    ta, jb = '{0}t{0}.{0}a{0}'.format(qu), '{0}j{0}.{0}b{0}'.format(qu)
    for x, y in (('=', '='), ('>', '<'), ('>=', '<=')):
        text = ('ok', text[1].replace('%s %s %s' % (jb, y, ta), '%s %s %s' % (ta, x, jb)))
    return text


OTHERS = [None, 0, 1, '', 'x', b'x', (), [], {}, object(), object, 1.5, NotImplemented, lambda: 0] + [
    type(name, (), {})() for name in ('Select', 'Insert', 'Update', 'Delete', 'Union', 'Query')]


def families(tier):
    deep = tier == 'thorough'
    terms = universe(tier)
    fams = []
    built = {}

    def objects(b):
        if b not in built:
            built.clear()
            use(b)
            made = []
            for t in terms:
                x = outcome(builder.build, t)
                if x[0] == 'ok':
                    made.append((t, x[1], canonical(outcome(str, x[1]), b)))
            built[b] = made
        return built[b]

    size = 30

    def pair_cases(shard):
        b, start = shard
        yield (b, start)

    def judge_rows(ctx, case):
        """All pairs (i, j >= i) for a block of rows i."""
        b, start = case
        use(b)
        made = objects(b)
        for i in range(start, min(start + size, len(made))):
            t, x, text = made[i]
            ctx.state(b, text)
            for j in range(i, len(made)):
                u, y, other = made[j]
                problem = judge_pair(x, y, text, other)
                if problem:
                    problem.what = '%s: %r and %r' % (problem.what, t, u)
                    return problem
            ctx.count('pairs', len(made) - i)
            ctx.transitions += 4 * (len(made) - i)
        return None

    def judge_pair(x, y, text, other):
        got = outcome(lambda: (x == y, y == x, x != y, y != x))
        if got[0] != 'ok':
            return Problem('comparing raised', 'True or False', got)
        eq, eq2, ne, ne2 = got[1]
        if not all(isinstance(v, bool) for v in (eq, eq2, ne, ne2)):
            return Problem('comparing gave something else than True or False', 'bool', got)
        if eq != eq2 or ne != ne2:
            return Problem('comparison is not symmetric', (eq, ne), (eq2, ne2))
        if ne == eq:
            return Problem('!= is not the negation of ==', not eq, ne)
        if eq and (text != other if text[0] == 'ok' or other[0] == 'ok' else False):
            return Problem('equal queries render differently', text, other)
        if x is y and not eq:
            return Problem('a query is not equal to itself', True, eq)
        return None

    shards = [(b, i) for b in (BACKENDS if deep else ('sql', 'mysql', 'postgresql')) for i in range(0, len(terms), size)]
    fams.append(Family('all pairs', shards, pair_cases, judge_rows, 'all pairs of %d queries of all kinds' % len(terms)))

    def same_cases(shard):
        b, start = shard
        for t in terms[start:start + 200]:
            yield (b, t)

    def judge_same(ctx, case):
        """Built twice by the same calls: equal; usable as a dictionary key and as an alias; comparable with anything."""
        b, t = case
        use(b)
        first, second = outcome(builder.build, t), outcome(builder.build, t)
        if first[0] != 'ok' or second[0] != 'ok':
            return None if first == second else Problem('built twice', first, second)
        x, y = first[1], second[1]
        ctx.state(b, t)
        if not (x == y and y == x) or x != y or y != x:
            return Problem('the same calls', 'equal', 'different')
        z = x.copy()
        if not (x == z and z == x) or x != z:
            return Problem('the copy', 'equal', 'different')
        hashed = outcome(lambda: {x: 'alias'}[x])
        if hashed != ('ok', 'alias') or outcome(lambda: hash(x) == hash(x)) != ('ok', True):
            return Problem('as a dictionary key', 'alias', hashed)
        if t[0] == 'Un' or t[1].startswith('select'):
            text = outcome(str, x)
            if text[0] == 'ok':
                for make, want in ((lambda: builder.sp.select({x: 'al'}), 'SELECT (%s) AS %s'), (lambda: builder.sp.select_from({x: 'al'}), 'SELECT * FROM (%s) AS %s'),
                                   (lambda: builder.sp.select_from('t').join({x: 'al'}), 'SELECT * FROM ' + QUOTE[b] + 't' + QUOTE[b] + ' JOIN (%s) AS %s')):
                    got = outcome(lambda: str(make()))
                    if got != ('ok', want % (text[1], QUOTE[b] + 'al' + QUOTE[b])):
                        return Problem('an alias given by a dictionary', want % (text[1], 'al'), got)
        for other in OTHERS:
            got = outcome(lambda: (x == other, other == x, x != other, other != x))
            if got[0] != 'ok' or got[1] != (False, False, True, True):
                return Problem('compared with %r' % (other,), (False, False, True, True), got)
        for other in (builder.sp.Q(a=1), builder.sp.C('x'), builder.sp.V(1), builder.sp.count('a'), builder.sp.exists(builder.sp.select('a')), builder.sp.relations.EQ(1)):
            got = outcome(lambda: (x == other, x != other))
            if got[0] != 'ok' or got[1] != (False, True):
                return Problem('compared with %r' % (other,), (False, True), got)
        ctx.saw(outcome(str, x))
        return None

    fams.append(Family('one by one', [(b, i) for b in BACKENDS for i in range(0, len(terms), 200)], same_cases, judge_same, 'each of %d queries: built twice, copied, hashed, compared with %d other objects' % (
        len(terms), len(OTHERS) + 6)))

    # The same said by other calls.
    around = {c: [(), (CLAUSES[c][2 if c == 'select_from' else 0],)] + ([(op('order_by', 'z'),)] if c == 'select_from' else []) for c in CLAUSES}

    def another_cases(shard):
        b, ctor = shard
        for before, after in itertools.product(around[ctor], repeat=2):
            for group in SAME[ctor]:
                for x, y in itertools.combinations(group, 2):
                    yield (b, ctor, before + x + after, before + y + after)
        for n in range(2, (5 if deep else 4) if ctor == 'select_from' else 6):
            for chosen in itertools.combinations(CLAUSES[ctor], n):
                for other in itertools.permutations(chosen):
                    if other != chosen:
                        yield (b, ctor, chosen, other)

    def judge_another(ctx, case):
        b, ctor, first, second = case
        use(b)
        made = [outcome(builder.build, q(ctor, ('t',), ops)) for ops in (first, second)]
        ctx.state(case)
        if made[0][0] != 'ok' or made[1][0] != 'ok':
            return None if made[0] == made[1] else Problem('the same said by other calls', made[0], made[1])
        x, y = made[0][1], made[1][1]
        texts = [canonical(outcome(str, z), b) for z in (x, y)]
        ctx.saw(texts[0])
        if texts[0] != texts[1]:
            return Problem('the same said by other calls renders differently', texts[0], texts[1])
        if not (x == y and y == x) or x != y or y != x:
            return Problem('the same said by other calls', 'equal', 'different: %s' % (texts[0],))
        return None

    fams.append(Family('another way', [(b, c) for b in BACKENDS for c in SAME], another_cases, judge_another,
                       'pairs of histories from %d groups that say the same, also between other calls; all orders of calls of <=%d clauses' % (sum(map(len, SAME.values())), 4 if deep else 3)))

    # Sets have no order: the same calls with equal sets give equal queries.
    def set_cases(shard):
        for case in twice_cases(shard):
            yield case

    def judge_sets(ctx, case):
        b, place, kind, elements = case
        use(b)
        perms = list(itertools.permutations(elements))
        made = [outcome(lambda: build_with(TWICE[place](MARK, MARK2), filled(p), filled(p[::-1] if k % 2 else perms[0]))) for k, p in enumerate(perms)]
        ctx.state(case)
        for (p, x), (r, y) in itertools.product(zip(perms, made), repeat=2):
            ctx.count('pairs')
            if x[0] != 'ok' or y[0] != 'ok':
                if x != y:
                    return Problem('built with the sets filled in orders %r and %r' % (p, r), x, y)
            elif not x[1] == y[1] or x[1] != y[1]:
                return Problem('the same calls with sets filled in orders %r and %r' % (p, r), 'equal', 'different')
        return None

    fams.append(Family('sets', [(b, p, k) for b in (BACKENDS if deep else ('sql',)) for p in TWICE for k in ('numbers', 'texts', 'mixed', 'nested')], set_cases, judge_sets,
                       'all sets of <=3 elements, all pairs of insertion orders, in %d places' % len(TWICE)))

    def grown_cases(shard):
        b, what, chosen = shard
        for n in chosen:
            parts = 1 + sum(1 for _ in scale.all_terms((what,), n, b)) // 50
            for part in range(parts):
                yield (b, what, n, part, parts)

    def judge_grown(ctx, case):
        """All pairs of queries of size n, of size n + 1 and of size n with another last item."""
        b, what, n, part, parts = case
        use(b)
        made = []
        for size in (n, n + 1):
            for name, term in scale.all_terms((what,), size, b):
                if name.startswith('same names') and not deep and n not in (1, 2):
                    continue
                for t in (term, term, scale.replace_last(term, size)):
                    x = outcome(builder.build, t)
                    if x[0] == 'ok':
                        made.append((t, x[1], canonical(outcome(str, x[1]), b)))
        pairs = ((made[i], made[j]) for i in range(part, len(made), parts) for j in range(i + 1, len(made)))
        for (t, x, text), (u, y, other) in pairs:
            problem = judge_pair(x, y, text, other)
            if problem is None and t == u and not x == y:
                problem = Problem('the same calls', 'equal', 'different')
            if problem:
                problem.what = '%s: %r and %r' % (problem.what, t, u)
                return problem
        ctx.state(case)
        ctx.count('pairs', len(made) * (len(made) - 1) // (2 * parts))
        return None

    big = [n for n in scale.sizes(tier) if n <= (1000 if deep else 65)]
    whats = ('select', 'joins', 'nested', 'insert', 'update', 'delete', 'upsert')
    fams.append(Family('growing queries', [(b, w, [n]) for b in (BACKENDS if deep else ('postgresql',)) for w in whats for n in big], grown_cases, judge_grown,
                       'all pairs of ' + scale.bound(whats, big) + ', also with the last item changed'))
    return fams
