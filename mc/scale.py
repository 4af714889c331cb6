"""Queries that grow along one dimension: every size up to a bound, then some larger ones."""
from .core import Family
from .hist import judge_query, query_term
from .spec import BACKENDS
from .terms import And, C, D, Exists, F, Not, OD, Or, Q, R, Rel, Un, V, op, sel

NAME = 'c%03d'


def sizes(tier):
    """All sizes up to 24 (60), then those around powers of two and ten."""
    if tier == 'thorough':
        return list(range(0, 61)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]
    return list(range(0, 25)) + [31, 32, 33, 63, 64, 65, 100, 101, 128, 129]


def names(n):
    return [NAME % i for i in range(n)]


def chain(make, items, right=False):
    out = items[-1] if right else items[0]
    for i in (reversed(items[:-1]) if right else items[1:]):
        out = make(i, out) if right else make(out, i)
    return out


def nest(n, inner, wrap):
    for i in range(n):
        inner = wrap(inner, i)
    return inner


def alternate(n, first, second):
    return [first if i % 2 else second for i in range(n)]


def wheres(n, method='where'):
    yield 'calls', tuple(op(method, c, i) for i, c in enumerate(names(n)))
    yield 'list', (op(method, [(c, i) for i, c in enumerate(names(n))]),)
    yield 'dict', (op(method, D(*[(c, i) for i, c in reversed(list(enumerate(names(n))))])),)
    yield 'keywords', (op(method, **{c: i for i, c in reversed(list(enumerate(names(n))))}),)
    yield 'one column', tuple(op(method, 'a', i) for i in range(n))
    yield 'same', tuple(op(method, 'a', 1) for _ in range(n)) + (op(method, 'z', 2),)
    every = tuple(op(method, c, i) for i, c in enumerate(names(n)))
    yield 'all again', every + (op(method, 'z', 1),) + every
    yield 'all again at once', every + (op(method, [(c, i) for i, c in reversed(list(enumerate(names(n))))]),)
    yield 'all again but other values', every + (op(method, [(c, i if i % 2 else -1) for i, c in reversed(list(enumerate(names(n))))]),)
    if n:
        yield 'Q objects again', (op(method, *[Q(**{c: i}) for i, c in enumerate(names(n))]), op(method, Q(z=1), *[Q(**{c: i}) for i, c in reversed(list(enumerate(names(n))))]))
        yield 'Q objects', (op(method, *[Q(**{c: i}) for i, c in enumerate(names(n))]),)
        yield 'Q', (op(method, Q([(c, i) for i, c in enumerate(names(n))])),)
        yield 'or', (op(method, chain(Or, [Q(**{c: i}) for i, c in enumerate(names(n))])),)
        yield 'or right', (op(method, chain(Or, [Q(**{c: i}) for i, c in enumerate(names(n))], True)),)
        yield 'mixed', (op(method, chain(lambda x, y: (And if len(repr(x)) % 2 else Or)(x, y), [Q(**{c: i}) for i, c in enumerate(names(n))])),)
        yield 'in', (op(method, 'a', list(range(n))),)
        yield 'in with None', (op(method, 'a', list(range(n)) + [None]),)
        yield 'not in', (op(method, 'a', Rel('NOT_IN', *([None] + list(range(n)) + [None]))),)
        yield 'strings', (op(method, 'a', ["x'%d" % i for i in range(n)]),)


def deep_wheres(n, method='where'):
    n = min(n, 25)
    yield 'nested Q', (op(method, nest(n, Q(a=1), lambda x, i: Q(x))),)
    yield 'nested Not', (op(method, nest(n, Not(a=1), lambda x, i: Not(x))),)
    yield 'nested mix', (op(method, nest(n, Q(a=1, b=2), lambda x, i: (Or(x, Q(c=i)) if i % 3 else Q(Not(x))))),)
    yield 'nested exists', (op(method, Exists(nest(n // 2, sel(op('from_', 't')), lambda x, i: sel(op('from_', 't%d' % i), op('where', Exists(x)))))),)


def joins(n):
    yield 'different', tuple(o for i in range(n) for o in (op(('join', 'left_join', 'right_join')[i % 3], 'j%d' % i), op('on', 't.a', 'j%d.b' % i)))
    yield 'without on', tuple(op(('join', 'left_join')[i % 2], 'j%d' % i) for i in range(n))
    yield 'same left', tuple(o for i in range(n) for o in (op('left_join', 'j'), op('on', 't.a', 'j.b')))
    yield 'same left, then inner', tuple(o for i in range(n) for o in (op('left_join', 'j'), op('on', 't.a', 'j.b'))) + (op('join', 'j'), op('on', 'j.b', 't.a'))
    yield 'far apart', ((op('left_join', 'j'), op('on', 't.a', 'j.b')) + tuple(op('join', 'k%d' % i) for i in range(n)) + (op('join', 'j'), op('on', 't.a', 'j.b')))
    yield 'one table', tuple(o for i in range(n) for o in (op('join', ('j', 'x%d' % i)), op('on', 't.a', 'j.b')))
    yield 'different on', tuple(o for i in range(n) for o in (op('join', 'j'), op('on', 't.a', 'j.b%d' % i)))
    yield 'many on', (op('left_join', 'j'),) + tuple(op('on', 't.a%d' % i, 'j.b%d' % i) for i in range(n))
    yield 'many on, twice', ((op('left_join', 'j'),) + tuple(op('on', 't.a%d' % i, 'j.b%d' % i) for i in range(n)) +
                             (op('join', 'j'),) + tuple(op('on', 'j.b%d' % i, 't.a%d' % i) for i in range(n)))
    yield 'many on, last differs', ((op('left_join', 'j'),) + tuple(op('on', 't.a%d' % i, 'j.b%d' % i) for i in range(n)) +
                                    (op('join', 'j'),) + tuple(op('on', 'j.b%d' % i, 't.a%d' % i if i < n - 1 else 'x') for i in range(n)))
    yield 'all again', tuple(o for i in list(range(n)) * 2 for o in (op('left_join', 'j%d' % i), op('on', 't.a', 'j%d.b' % i)))
    yield 'all again, backwards', tuple(o for i in list(range(n)) + list(range(n))[::-1] for o in (op('left_join', 'j%d' % i), op('on', 'j%d.b' % i, 't.a'))) + (op('join', 'z'),)
    yield 'all on again', (op('left_join', 'j'),) + tuple(op('on', 't.a%d' % i, 'j.b%d' % i) for i in list(range(n)) * 2)
    yield 'all on again, swapped', (op('left_join', 'j'),) + tuple(op('on', 't.a%d' % i, 'j.b%d' % i) for i in range(n)) + tuple(op('on', 'j.b%d' % i, 't.a%d' % i) for i in range(n))
    yield 'alternating', tuple(o for i in range(n) for o in (op(('left_join', 'right_join')[i % 2], 'j'), op('on', 't.a', 'j.b')))


def selects(n):
    yield 'columns', (op('columns', *names(n)),)
    yield 'column calls', tuple(op('columns', c) for c in names(n))
    yield 'aliases', (op('columns', *[(c, 'x' + c) for c in names(n)]),)
    yield 'aliases of one column', tuple(op('columns', ('a', c)) for c in names(n))
    yield 'dict of columns', (op('columns', D(*[(c, 'x') for c in reversed(names(n))])),)
    yield 'keyword columns', (op('columns', **{c: 'x' for c in reversed(names(n))}),)
    yield 'ordered dict of columns', (op('columns', OD(*[(c, 'x') for c in reversed(names(n))])),)
    yield 'same column', tuple(op('columns', 'a') for _ in range(n)) + (op('columns', 'z'),)
    yield 'columns again', (op('columns', *names(n)), op('columns', 'z'), op('columns', *names(n)))
    yield 'columns again, backwards', (op('columns', *(names(n) + names(n)[::-1])), op('columns', 'z'))
    yield 'aliases again', tuple(op('columns', (c, 'x')) for c in names(n)) + (op('columns', *[(c, 'x' if i % 2 else 'y') for i, c in enumerate(names(n))]),)
    yield 'tables', tuple(op('from_', c) for c in names(n))
    yield 'tables again', (op('from_', *names(n)), op('from_', 'z'), op('from_', *names(n)))
    yield 'tables again, backwards', tuple(op('from_', c) for c in names(n) + names(n)[::-1]) + (op('from_', 'z'),)
    yield 'tables at once', (op('from_', *[(c, 'x' + c) for c in names(n)]),)
    yield 'same table', tuple(op('from_', 'a') for _ in range(n)) + (op('from_', 'z'),)
    for method in ('order_by', 'group_by'):
        yield method, tuple(op(method, (c, 'desc' if i % 3 else 'asc')) for i, c in enumerate(names(n)))
        yield method + ' at once', (op(method, *names(n)),)
        yield method + ' dict', (op(method, D(*[(c, 'desc' if i % 2 else 'asc') for i, c in reversed(list(enumerate(names(n))))])),)
        yield method + ' turned', (op(method, *names(n)), op(method, *[(c, 'desc') for c in names(n)[1::2]]), op(method, *[(c, 'desc') for c in reversed(names(n)[::2])]))
        yield method + ' back and forth', tuple(op(method, ('a', 'desc' if i % 2 else 'asc')) for i in range(n)) + (op(method, 'b'),)
    yield 'limits', tuple(op('limit', i) for i in range(n))
    yield 'limits and offsets', tuple(op('limit', i + 1, i) for i in range(n)) + (op('offset', n),)
    yield 'options', tuple(op(('distinct', 'all', 'sql_cache', 'distinctrow', 'sql_no_cache')[i % 5]) for i in range(n))
    yield 'options on and off', tuple(op('high_priority', bool(i % 2)) for i in range(n))
    yield 'for update', tuple(op('for_update', bool(i % 3)) for i in range(n))
    yield 'outfile', tuple(op('into_outfile', '/%d' % i) for i in range(n)) + (op('fields_terminated_by', 'x' * n),)
    yield 'functions', (op('columns', *[F('count', c) for c in names(n)]),)
    for method in ('where', 'having'):
        for name, ops in wheres(n, method):
            yield method + ' ' + name, ops


def nested(n):
    n = min(n, 25)
    yield 'columns', nest(n, sel(op('columns', 'a')), lambda x, i: sel(op('columns', (x, 'x%d' % i))))
    yield 'tables', nest(n, sel(op('columns', 'a')), lambda x, i: sel(op('from_', (x, 'x%d' % i))))
    yield 'in', nest(n, sel(op('columns', 'a')), lambda x, i: sel(op('columns', 'a'), op('from_', 't%d' % i), op('where', 'a', Rel('IN', x))))
    yield 'values', nest(n, sel(op('columns', 'a')), lambda x, i: sel(op('columns', 'a'), op('from_', 't%d' % i), op('where', 'a', x)))
    yield 'joins', nest(n, sel(op('columns', 'a')), lambda x, i: sel(op('from_', 't'), op('join', (x, 'x%d' % i)), op('on', 'a', 'b')))
    yield 'functions', sel(op('columns', nest(n, 'a', lambda x, i: F(('max', 'count', 'concat', 'group_concat', 'sum_distinct')[i % 5], x))))
    yield 'arguments', sel(op('columns', F('concat', 'a', *names(n))), op('columns', F('group_concat', 'a', *(['a'] * n))), op('columns', F('count', ['a'] + names(n))))
    yield 'orders of group_concat', sel(op('columns', F('group_concat', 'a', mods=tuple(op('order_by', (c, 'desc')) for c in names(n)) + (op('separator', "'" * n),))))
    if n > 1:
        yield 'unions', chain(lambda x, y: Un(x, '&', y), [sel(op('columns', c)) for c in names(n)])
        yield 'unions |', chain(lambda x, y: Un(x, '|', y), [sel(op('columns', c)) for c in names(n)])
        yield 'unions mixed', chain(lambda x, y: Un(x, '&|'[len(repr(y)) % 2], y), [sel(op('columns', c * (i % 2 + 1))) for i, c in enumerate(names(n))])
        yield 'unions right', chain(lambda x, y: Un(x, '|', y), [sel(op('columns', c)) for c in names(n)], True)
        yield 'same unions', sel(op('from_', (chain(lambda x, y: Un(x, '&', y), [sel(op('columns', 'a'))] * n), 'x')))


def writes(n):
    """-> (kind, name, calls)"""
    some = names(max(n, 1))
    yield 'insert', 'rows', tuple(op('values', a=i, b=str(i)) for i in range(max(n, 1)))
    yield 'insert', 'a column per row', tuple(op('values', **{c: i}) for i, c in enumerate(some))
    yield 'insert', 'columns in one row', (op('values', **{c: i for i, c in reversed(list(enumerate(some)))}),)
    yield 'insert', 'columns listed', (op('values', [(c, i) for i, c in reversed(list(enumerate(some)))]),)
    yield 'insert', 'column again', (op('values', [('a', i) for i in range(max(n, 1))]),)
    yield 'insert', 'same rows', tuple(op('values', a=1) for _ in range(max(n, 1)))
    yield 'insert', 'two columns', (op('values', **{c: i for i, c in enumerate(some)}), op('values', a0=1), op('values', **{some[-1]: 'x'}))
    yield 'insert', 'ignore', (op('values', a=1),) + tuple(op('ignore', bool(i % 2)) for i in range(n))
    yield 'insert', 'tables', (op('values', a=1),) + tuple(op('into', c) for c in names(n))
    yield 'update', 'set', tuple(op('set', c, i) for i, c in enumerate(some)) + (op('where', 'z', 1),)
    yield 'update', 'set at once', (op('where', 'z', 1), op('set', **{c: i for i, c in reversed(list(enumerate(some)))}))
    yield 'update', 'set again', (op('where', 'z', 1),) + tuple(op('set', 'a', i) for i in range(n)) + (op('set', 'b', 1),)
    yield 'update', 'set all again', (op('where', 'z', 1),) + tuple(op('set', c, i) for i, c in enumerate(some)) + (op('set', 'zz', 1),) + tuple(op('set', c, i) for i, c in enumerate(some))
    yield 'insert', 'row columns again', (op('values', [(c, i) for i, c in enumerate(some)] + [(c, i if i % 2 else -i) for i, c in reversed(list(enumerate(some)))]),)
    yield 'insert', 'rows again', tuple(op('values', **{c: i}) for i, c in list(enumerate(some)) * 2)
    yield 'delete', 'tables again', tuple(op('delete', c) for c in names(n) + names(n)[::-1]) + (op('where', 'z', 1),)
    yield 'update', 'ignore', (op('set', a=1), op('where', 'z', 1)) + tuple(op('ignore', bool(i % 2)) for i in range(n))
    yield 'delete', 'tables', tuple(op('delete', c) for c in names(n)) + (op('where', 'z', 1),)
    yield 'delete', 'from', tuple(op('from_', (c, 'x' + c)) for c in names(n)) + (op('where', 'z', 1),)
    for kind in ('update', 'delete'):
        before = (op('set', a=1),) if kind == 'update' else ()
        for name, ops in wheres(n):
            yield kind, 'where ' + name, before + ops + (op('where', 'zz', 1),)
        for name, ops in joins(n):
            yield kind, 'joins ' + name, before + ops + (op('where', 'zz', 1),)


def same_names(n):
    """-> (kind, name, calls): the same n names (with and without aliases) in several clauses, in both orders of the calls."""
    for how in ('plain', 'aliased', 'one by one', 'alias of the next'):
        items = {'plain': names(n), 'one by one': names(n), 'aliased': [(c, 'x' + c) for c in names(n)],
                 'alias of the next': list(zip(names(n), (names(n) + names(n))[1:]))}[how]
        plain = names(n)

        def calls(method, args):
            return tuple(op(method, a) for a in args) if how == 'one by one' else (op(method, *args),) if args else ()
        conditions = calls('where', [(c, 1) for c in plain]) if how == 'one by one' else (op('where', [(c, 1) for c in plain]),)
        clauses = {
            'select': [calls('columns', items), calls('from_', items), calls('group_by', plain), calls('order_by', plain), conditions],
            'delete': [calls('delete', items), calls('from_', items), tuple(op('join', i) for i in items), conditions],
            'update': [tuple(op('set', c, 1) for c in plain), tuple(op('join', i) for i in items), conditions],
        }
        for kind, parts in clauses.items():
            for mask in range(1, 2 ** len(parts)):
                chosen = [p for i, p in enumerate(parts) if mask >> i & 1]
                last = (op('where', 'zz', 1),) + ((op('set', zz=1),) if kind == 'update' else ())
                yield kind, how, tuple(o for p in chosen for o in p) + last
                yield kind, how + ' backwards', last + tuple(o for p in reversed(chosen) for o in p)


STARTS = {'insert': ('insert_into', ('t',)), 'update': ('update', ('t',)), 'delete': ('delete_from', ('t',))}


def terms(what, n):
    """-> (name, term): the growing queries of a kind at size n."""
    if what == 'select':
        for name, ops in selects(n):
            yield name, query_term('select', ops)
        for kind, name, ops in same_names(n) if n < 10 else ():
            if kind == 'select':
                yield 'same names ' + name, query_term('select', ops)
    elif what == 'joins':
        for name, ops in joins(n):
            yield name, query_term('select_from', ops, ('t',))
    elif what == 'nested':
        for name, term in nested(n):
            yield name, term if term[0] == 'Query' else sel(op('from_', (term, 'x')))
        for name, ops in deep_wheres(n):
            yield name, query_term('select_from', ops, ('t',))
    else:
        for kind, name, ops in writes(n):
            if what == 'writes' or kind == what:
                ctor, args = STARTS[kind]
                yield kind + ' ' + name, query_term(ctor, ops, args)
        for kind, name, ops in same_names(n) if n < 10 else ():
            if kind == what or what == 'writes' and kind != 'select':
                for ctor, args in ((STARTS[kind],) if kind == 'update' else (STARTS[kind], ('delete', ()))):
                    yield 'same names ' + name, query_term(ctor, ops, args)


def upserts(b, n):
    """Upserts of n assignments."""
    first = ('k',) if b == 'postgresql' else ()
    pairs = [(c, i) for i, c in enumerate(names(max(n, 1)))]
    for args, kwds in (((list(pairs),), ()), ((D(*reversed(pairs)),), ()), ((), tuple(reversed(pairs))), (([('a', i) for _, i in pairs],), ())):
        yield query_term('insert_into', (op('values', a=1), ('on_duplicate_key_update', first + args, kwds)), ('t',))
        yield query_term('insert_into', (('on_duplicate_key_update', first + args, kwds), op('values', **dict(pairs))), ('t',))
    calls = tuple(('on_duplicate_key_update', first, (p,)) for p in pairs)
    yield query_term('insert_into', (op('values', a=1),) + calls, ('t',))


def all_terms(kinds, n, b):
    for what in kinds:
        if what == 'upsert':
            if b in ('mysql', 'postgresql'):
                for term in upserts(b, n):
                    yield 'upsert', term
        else:
            yield from terms(what, n)


def bound(kinds, chosen):
    return 'queries growing along every dimension of %s: sizes 0-%d and up to %d' % (
        '/'.join(kinds), max(n for i, n in enumerate(chosen) if n == i), chosen[-1])


def family(tier, kinds, backends=BACKENDS, judge=judge_query, wrap=lambda b, term: (b, term), name='growing queries', top=1000):
    """One case per growing query (wrap gives what the judge takes, None to leave it out)."""
    big = [n for n in sizes(tier) if n <= top]

    def cases(shard):
        b, kind, chosen = shard
        for n in chosen:
            for _, term in all_terms((kind,), n, b):
                case = wrap(b, term)
                if case is not None:
                    yield case

    shards = [(b, k, big[i::8]) for b in backends for k in kinds for i in range(8)]
    return Family(name, shards, cases, judge, bound(kinds, big))


def replace_last(term, n):
    """The same term with its last item replaced by another one."""
    last = NAME % (n - 1)
    if isinstance(term, str):
        return 'zzz' + term[len(last):] if term == last else 'xzzz' if term == 'x' + last else term
    if type(term) is int:
        return term + 1000 if term == n - 1 else term
    if isinstance(term, (tuple, list)):
        return type(term)(replace_last(x, n) for x in term)
    return term
