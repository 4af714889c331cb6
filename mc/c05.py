"""C05: no argument is lost, all calling styles mean the same."""
import datetime
import decimal
import itertools

from . import scale
from .core import Family
from .hist import judge_query, judge_subclasses, query_term
from .spec import BACKENDS
from .terms import C, D, Exists, F, Not, OD, Or, Q, Query, R, Rel, T, V, op, sel, subs

# (constructor, its arguments, calls before, method, calls after, strict pairs, conditions)
TARGETS = {
    'where': ('select_from', ('t',), (), 'where', (), True, True),
    'having': ('select_from', ('t',), (), 'having', (), True, True),
    'on': ('select_from', ('t',), (op('join', 'j'),), 'on', (), True, True),
    'update where': ('update', ('t',), (op('set', 'z', 1),), 'where', (), True, True),
    'delete where': ('delete_from', ('t',), (), 'where', (), True, True),
    'set': ('update', ('t',), (), 'set', (op('allow_update_all'),), True, False),
    'values': ('insert_into', ('t',), (), 'values', (), True, False),
    'columns': ('select', (), (), 'columns', (), False, False),
    'from_': ('select', (), (), 'from_', (), False, False),
    'from_tables': ('select', (), (), 'from_tables', (), False, False),
    'delete from_': ('delete', (), (), 'from_', (op('allow_delete_all'),), False, False),
    'delete from_tables': ('delete', (), (), 'from_tables', (op('allow_delete_all'),), False, False),
    'group_by': ('select_from', ('t',), (), 'group_by', (), False, False),
    'order_by': ('select_from', ('t',), (), 'order_by', (), False, False),
}
POOLS = {
    True: [('b', 1), ('a', 'x'), ('c', None), ('t.d', 2.5)],
    False: [('b', 'y'), ('a', 'x'), ('c', None), ('t.d', 'z')],
    'order': [('b', 'desc'), ('a', 'ASC'), ('c', None), (1, 'DESC')],
}
SUBCLASSES = [(None, 'plain'), (None, 'default'), (None, 'named'), (None, 'text'), ('plain', None), ('text', None), ('enum', None), ('enum', 'named')]
KWD = ('a', 'b', 'c')


def kwd_ok(items):
    return all(isinstance(k, str) and k.isidentifier() for k, _ in items)


def singles(items, strict):
    """Positional spellings of a list of items for non-strict or strict methods."""
    if strict:
        if len(items) > 1:      # a single tuple is a list of items, not an item
            yield tuple(items)
        yield ([i for i in items],)
        yield (tuple(items),)
        yield ([list(i) for i in items],)
        yield (tuple(list(i) for i in items),)
        if len(items) == 1:
            yield items[0]
    else:
        yield tuple(i if i[1] is not None else i[0] for i in items)
        yield tuple(list(i) if i[1] is not None else (i[0],) for i in items)
        yield tuple(items)


def styles(items, strict, conds):
    """All (args, kwds) spellings of one call giving these items (a dict spelling regroups them by key order)."""
    items = list(items)
    seen = set()

    def out(args, kwds=()):
        key = repr((args, kwds))
        if key not in seen:
            seen.add(key)
            return [(tuple(args), tuple(kwds))]
        return []

    for args in singles(items, strict):
        yield from out(args)
    distinct = len({k for k, _ in items}) == len(items)
    if distinct:
        yield from out((D(*items),))
        yield from out((OD(*items),))
        if kwd_ok(items):
            yield from out((), items)
    for k in range(1, len(items)):
        rest = items[k:]
        if kwd_ok(rest) and len({x for x, _ in rest}) == len(rest):
            for args in singles(items[:k], strict):
                yield from out(args, rest)
            if len({x for x, _ in items[:k]}) == k:
                yield from out((D(*items[:k]),), rest)
                yield from out((OD(*items[:k]),), rest)
            if conds:
                yield from out((Q(list(items[:k])),), rest)
                yield from out(tuple(Q(*i) for i in items[:k]), rest)
                yield from out(tuple(Q(D(i)) for i in items[:k]), rest)
    if conds:
        yield from out(tuple(Q(*i) for i in items))
        yield from out((Q(list(items)),))
        yield from out((Q(OD(*items)),)) if distinct else ()
        if distinct and kwd_ok(items):
            yield from out((Q(**dict(items)),))
        yield from out(tuple(Not(*i) for i in items))
        if len(items) > 1:
            yield from out(tuple(Q(*i) for i in items[:1]) + tuple(Not(*i) for i in items[1:]))


def term_for(target, calls):
    ctor, args, before, method, after, _, _ = TARGETS[target]
    return query_term(ctor, before + tuple((method, a, k) for a, k in calls) + after, args)


def pool_of(target):
    if target in ('group_by', 'order_by'):
        return POOLS['order']
    return POOLS[TARGETS[target][5]]


CONDITION_ITEMS = [('a', Rel(r, v)) for r in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE') for v in (1, 'x')] + [
    ('a', Rel(r, 'x')) for r in ('LIKE', 'NOT_LIKE', 'REGEXP')] + [
    ('a', Rel(r, *v)) for r in ('IN', 'NOT_IN') for v in (([1],), ([1, 2],), ([2, 1],), ((1,),), (1, 2), (['1'],), ([True],), ([1, None],))] + [
    ('a', [1]), ('a', (1,)), ('a', ['1']), ('a', Rel('IS', None)), ('a', Rel('IS_NOT', None)), ('a', Rel('IS', True)), ('a', Rel('IS_NOT', True)), ('a', Rel('EQ', True)), ('a', Rel('EQ', R('x')))]


def near_items(target):
    """Items that are equal for Python or in text but not the same."""
    strict = TARGETS[target][5]
    if target in ('group_by', 'order_by'):
        return [('a', None), ('a', 'desc'), ('a', 'ASC'), (C('a'), None), (C('a'), 'desc'), (V('a'), None), ('"a"', None),
                (R('a'), None), (1, None), ('1', None), (C('1'), 'desc'), ('b', None)]
    if strict:
        return [('a', 1), ('a', True), ('a', '1'), ('a', 1.0), ('a', 2), ('b', 1), (C('a'), 1), ('a', C('1')), ('a', V(1)),
                ('a', None), ('a', C('x')), ('a', 'x'), ('a', "'x'"), ('a', V('x')), ('a', R('x')), (R('a'), 1),
                ('A', 1), ('a', 'X'), ('a', ''), ('a', 'x '), ('a', 0), ('a', False), ('a', decimal.Decimal(1)), ('a', 1.000001), ('t.a', 1), ('"a"', 1), ('a ', 1),
                ('a', datetime.date(2020, 1, 1)), ('a', datetime.datetime(2020, 1, 1)), ('a', '2020-01-01')] + (CONDITION_ITEMS if TARGETS[target][6] else [('a', b'1'), ('a', b'x')])
    base = [('a', None), ('a', 'x'), ('a', 'y'), ('b', 'x'), (C('a'), None), (C('a'), 'x'), ('a', C('x')), (R('a'), None),
            (V('a'), None), (C('"a"'), None), ('"a"', None), (C("'a'"), None)]
    if target.startswith('columns'):
        base += [(1, None), (C('1'), None), ('1', None), (V(1), None), (F('count', 'a'), None), (C('COUNT("a")'), None)]
    return base


NAMES = ['options', 'args', 'kwds', 'value', 'values', 'name', 'column', 'column_name', 'table', 'table_name', 'alias',
         'tables', 'columns', 'where', 'set', 'key', 'item', 'items', 'sort', 'other', 'func', 'min_items', 'max_items',
         'allow_dict', 'allow_list', 'arg', 'dictionary', 'list', 'type', 'cls', 'query', 'id', 'limit', 'query_part',
         'expr', 'a1', '_x', 'Z', 'å', 'from_', 'select', 'condition', 'relation', 'data', 'parser', 'input_data']


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, backends, gen, bound, shards=tuple(TARGETS)):
        def cases(shard):
            b, target = shard
            for calls in gen(target):
                yield (b, term_for(target, calls))
        fams.append(Family(name, [(b, t) for b in backends for t in shards], cases, judge_query, bound))

    def one_call(target):
        strict, conds = TARGETS[target][5:]
        for n in range(0, 5 if deep else 4):
            for items in itertools.permutations(pool_of(target), n):
                for call in styles(items, strict, conds) if n else [((), ())]:
                    yield (call,)

    def two_calls(target):
        strict, conds = TARGETS[target][5:]
        for items in itertools.permutations(pool_of(target), 3 if deep else 2):
            for k in range(1, len(items)):
                for first in styles(items[:k], strict, conds):
                    for second in styles(items[k:], strict, conds):
                        yield (first, second)

    def three_calls(target):
        strict, conds = TARGETS[target][5:]
        pool = pool_of(target)[:3]
        for items in itertools.permutations(pool, 3):
            for calls in itertools.product(*(list(styles([i], strict, conds))[::1 if deep else 2] for i in items)):
                yield calls

    def nears(target):
        items = near_items(target)
        if target == 'values':      # the order of columns given as SQL objects is not specified
            items = [i for i in items if isinstance(i[0], str) and type(i[0]) is not T]
        strict = TARGETS[target][5]
        if target == 'on':
            items = [i for i in items if i[1] != '']        # an empty name
        for i, j in itertools.product(items, repeat=2):
            if target == 'from_' and any(isinstance(x[0], int) for x in (i, j)):
                continue
            yield (((i, j), ()),)                       # in one call
            yield ((tuple([i]) if not strict else i, ()), (tuple([j]) if not strict else j, ()))
            yield tuple((([x],) if strict else (x,), ()) for x in (i, j, i))
            yield (((i, j, i), ()),)
        if deep:
            for i, j, k in itertools.product(items, repeat=3):
                yield (((i, j, k), ()),)

    def keyword_names(target):
        strict = TARGETS[target][5]
        value = 1 if strict else 'x'
        if target in ('group_by', 'order_by'):
            value = 'desc'
        for n in NAMES:
            yield (((), ((n, value),)),)
            yield (((), (('mm', value), (n, value))),)
            yield (((D((n, value)),), (('mm', value),)),)
            yield (((n, value) if strict else ((n, value),), ()),)
        for n, m in itertools.permutations(NAMES, 2) if deep else ():
            yield (((), ((n, value), (m, value))),)

    def dict_orders(target):
        strict = TARGETS[target][5]
        keys = ['b', 'a', 'B', 'aa', 'a.b'] if not deep else ['b', 'a', 'B', 'aa', 'a.b', 'Z', '_']
        values = {k: (i if strict else 'x%d' % i) for i, k in enumerate(keys)}
        if target in ('group_by', 'order_by'):
            values = {k: 'desc' if i % 2 else 'asc' for i, k in enumerate(keys)}
        for perm in itertools.permutations(keys):
            items = [(k, values[k]) for k in perm]
            yield (((D(*items),), ()),)
            yield (((OD(*items),), ()),)
        same = 1 if strict else ('asc' if 'by' in target else 'x')
        for perm in itertools.permutations(['b', 'a', 'c']):    # equal values: only the keys can order
            yield (((D(*[(k, same) for k in perm]),), ()),)
            yield (((), tuple((k, same) for k in perm)),)

    def mixed_values(target):
        """Dict values of different types (they must not take part in ordering)."""
        if not TARGETS[target][5]:
            return
        values = [1, 'x', None, 2.5, C('y'), True]
        for v, w in itertools.product(values, repeat=2):
            yield (((D(('b', v), ('a', w)),), ()),)
            yield (((), (('b', v), ('a', w))),)
            yield (((D(('a', v)),), (('a', w),)),)

    family('one call', BACKENDS, one_call, 'all lists of <=%d distinct items in all styles' % (4 if deep else 3))
    family('two calls', ('sql', 'mysql'), two_calls, 'two items in two calls, all styles of both')
    family('three calls', ('sql',), three_calls, 'three items in three calls')
    family('nearly equal items', BACKENDS, nears, 'all pairs of items that are equal in Python or in text')
    family('keyword names', ('sql',), keyword_names, 'keyword arguments and dict keys with %d telling names' % len(NAMES))
    family('dict orders', ('sql',), dict_orders, 'all insertion orders of dicts and OrderedDicts')
    family('dict values', ('sql',), mixed_values, 'dict values of mixed types')

    def subclass_cases(shard):
        target, kinds = shard
        strict, conds = TARGETS[target][5:]
        for n in range(1, 4 if deep else 3):
            for items in itertools.permutations(pool_of(target), n):
                for call in styles(items, strict, conds):
                    yield ('sql', subs(term_for(target, (call,)), *kinds))
                    yield ('mysql', subs(term_for(target, (call, call)), *kinds))

    fams.append(Family('subclasses', [(t, k) for t in TARGETS for k in SUBCLASSES], subclass_cases, judge_subclasses,
                       'all lists of <=%d items in all styles, the containers or what is in them being of subclasses' % (3 if deep else 2)))

    def upserts(b):
        for n in range(1, 4):
            for items in itertools.permutations(POOLS[True][:3], n):
                for args, kwds in styles(items, True, False):
                    if b == 'postgresql':
                        args = ('id',) + args
                    yield (b, Query('insert_into', op('values', z=1), ('on_duplicate_key_update', args, kwds), args=('t',)))
                    yield (b, Query('insert_into', ('on_duplicate_key_update', args, kwds), op('values', z=1),
                                    ('on_duplicate_key_update', args, kwds), args=('t',)))

    fams.append(Family('upsert', ('mysql', 'postgresql'), upserts, judge_query, 'upsert assignments in all styles'))

    def constructors(b):
        for n in range(0, 4):
            for items in itertools.permutations(POOLS[False], n):
                for args, kwds in styles(items, False, False) if n else [((), ())]:
                    yield (b, Query('select', args=args, kwds=kwds))
                    yield (b, Query('select_from', args=args, kwds=kwds))
                    yield (b, Query('delete_from', op('allow_delete_all'), args=args, kwds=kwds))
                    if not kwds and not any(type(a) is T for a in args):
                        yield (b, Query('delete', op('from_', 't'), op('allow_delete_all'), args=args))
                        yield (b, Query('delete', op('delete', *args), op('from_', 't'), op('allow_delete_all'), args=('q',)))
        for alias in (None, 'x', C('y')):
            for table in ('a', C('b'), R('c'), sel()):
                yield (b, sel(op('from_table', table, alias)))
                yield (b, Query('insert_into', op('values', a=1), args=((table, alias),)))
                yield (b, Query('update', op('set', a=1), op('allow_update_all'), args=((table, alias),)))
                yield (b, Query('insert', op('into', table), op('values', a=1)))
                yield (b, Query('delete', op('from_table', table, alias), op('allow_delete_all')))

    fams.append(Family('constructors', BACKENDS, constructors, judge_query, 'items given to the constructing functions'))

    def orders(b):
        names = ['a', 'b', 1, C('a')]
        sorts = [None, 'asc', 'ASC', 'desc', 'Desc', C('desc')]
        items = [(n, s) for n in names for s in sorts]
        for method in ('order_by', 'group_by'):
            for i, j in itertools.product(items, repeat=2):
                yield (b, sel(op(method, i), op(method, j)))
                yield (b, sel(op(method, 'z', i, j, ('z', 'desc'))))
                yield (b, sel(op(method, 'z', ('y', 'desc'), i), op(method, j, 'z')))

    fams.append(Family('orderings', ('sql', 'mysql'), orders, judge_query, 'an ordering given again takes the new direction'))
    fams.append(scale.family(tier, ('select', 'joins', 'insert', 'update', 'delete', 'upsert'), BACKENDS if deep else ('mysql',)))
    return fams
