"""C07: observing a query never changes it, nor the arguments passed in."""
import collections
import itertools

from . import scale
from .c05 import TARGETS, pool_of, styles
from .core import Family, Problem, builder, outcome, use
from .hist import show
from .spec import BACKENDS
from .terms import And, C, D, Exists, F, Gen, Not, OD, Or, Q, R, Rel, T, Un, V, op, sel

SUB = sel(op('columns', 'id'), op('from_', 's'), op('join', 'k'), op('on', 's.a', 'k.a'), op('left_join', 'k'), op('on', 'k.a', 's.a'))
PARTS = {
    'select': ['select_options', 'columns', 'tables', 'where', 'group_by', 'having', 'order_by', 'limit', 'into_outfile',
               'select_for_update', 'distinct'],
    'insert': ['keyword', 'insert_options', 'tables', 'values', 'on_duplicate_key_update', 'on_conflict_do_update'],
    'update': ['update_options', 'tables', 'values', 'where'],
    'delete': ['delete_options', 'tables', 'references', 'where'],
    'union': [],
}


def see_has(kind, q):
    for part in PARTS[kind]:
        outcome(q.has, part)
        outcome(q.has, part, 'a')


def see_compare(kind, q):
    other = builder.build(NEW[kind])
    outcome(lambda: q == other)
    outcome(lambda: other == q)
    outcome(lambda: q != q.copy())
    outcome(lambda: q == 'text')


def see_sort(kind, q):
    outcome(lambda: sorted([q, builder.build(NEW['select']), q]))
    outcome(lambda: q < 'text')


OBSERVERS = {
    'str': lambda kind, q: outcome(str, q),
    'repr': lambda kind, q: outcome(repr, q),
    'tosql': lambda kind, q: outcome(lambda: '{}'.format(q)),
    'compare': see_compare,
    'hash': lambda kind, q: outcome(lambda: {q: 1, 'x': q}[q]),
    'sort': see_sort,
    'has': see_has,
    'copy': lambda kind, q: outcome(lambda: str(q.copy())),
    'used as a subselect': lambda kind, q: outcome(lambda: str(builder.sp.select(q).from_((q, 'x')).where('y', q))),
}

NEW = {
    'select': T(('Query', 'select', (), (), ())), 'insert': T(('Query', 'insert_into', ('t',), (), ())),
    'update': T(('Query', 'update', ('t',), (), ())), 'delete': T(('Query', 'delete_from', ('t',), (), ())),
    'union': Un(sel(op('columns', 'a')), '|', sel(op('columns', 'b'))),
}

OPS = {
    'select': [
        op('columns', 'a', ('b', 'x')), op('columns', D(('c', 'y'), ('b', 'z'))), op('columns', F('concat', 'a', 'a')),
        op('columns', F('group_concat', 'a', mods=(op('order_by', 'b'), op('separator', '-')))), op('columns', (SUB, 's')),
        op('from_', 't'), op('from_', D((SUB, 's'))), op('from_', ('t', 'x')), op('columns', V(Gen(1, 2))),
        op('join', 'j'), op('left_join', 'j'), op('right_join', ('j', 'jj')), op('join', D(('j', 'jj'))), op('left_join', (SUB, 'jj')),
        op('on', 't.a', 'j.a'), op('on', 'j.a', 't.a'), op('on', 'j.a', Rel('GT', 't.b')), op('on', [('a', 1), ('b', 'c')]),
        op('where', 'a', [1, None, 2]), op('where', a=Gen(1, None)), op('where', 'g', Rel('IN', Gen(3, 4))), op('where', 'v', V(Gen(5, 6))),
        op('where', D(('b', [1]), ('a', None))), op('where', OD(('b', 1), ('a', (2, None)))), op('where', Or(Q(a=1, b=2), Q(c=3))),
        op('where', 'x', Rel('IN', SUB)), op('where', Exists(SUB)), op('where', 's', Rel('IN', {'p', 'q', 'r'})), op('where', Q()),
        op('having', [('a', Rel('NOT_IN', [1, None])), ('b', 2)]), op('group_by', 'a', ('b', 'desc')), op('order_by', OD(('b', 'asc'), ('a', 'desc'))),
        op('order_by', ('a', 'desc')), op('limit', 5, 2), op('offset', 0), op('into_outfile', '/o'), op('distinct'), op('sql_cache'),
        op('for_update'), op('where', 'bad', T(('Obj',))), op('where', 'e', []),
    ],
    'insert': [
        op('values', D(('b', 1), ('a', None))), op('values', [('c', 2), ('a', 3)]), op('values', a='x'), op('values', OD(('z', 1), ('y', V(2)))),
        op('values', 'q', SUB), op('into', 'u'), op('into', ('t', 'x')), op('ignore'), op('on_duplicate_key_update', a=1), op('on_duplicate_key_update', 'a', D(('b', 2))),
        op('on_duplicate_key_update'), op('values', 1),
    ],
    'update': [
        op('set', D(('b', 1), ('a', 'x'))), op('set', [('c', None), ('a', 1)]), op('set', 'a', R('b')), op('set', C('z = 1')), op('join', 'j'),
        op('left_join', 'j'), op('on', 't.a', 'j.a'), op('on', 'j.a', 't.a'), op('where', a=Gen(1, 2)), op('where', [('a', [None, 1]), ('b', 2)]),
        op('where', Q()), op('where', Not(a=1)), op('ignore'), op('allow_update_all'), op('forbid_update_all'), op('set', 'x'),
    ],
    'delete': [
        op('delete', 't'), op('from_', ('u', 'x')), op('from_', D(('w', 'a'), ('v', 'b'))), op('join', 'j'), op('left_join', 'j'), op('on', 't.a', 'j.a'),
        op('on', 'j.a', 't.a'), op('where', a=Gen(1, 2)), op('where', [('a', [None, 1]), ('b', 2)]), op('where', And(Q(), Q())), op('where', OD(('b', 1), ('a', 2))),
        op('ignore'), op('allow_delete_all'), op('forbid_delete_all'), op('join', 1),
    ],
}
# the calls whose effect is most likely to be disturbed by an observation in between
CORE = {
    'select': [
        op('join', 'j'), op('left_join', 'j'), op('join', ('j', 'jj')), op('on', 't.a', 'j.a'), op('on', 'j.a', 't.a'), op('where', 'a', Gen(1, None)),
        op('where', 'v', V(Gen(5, 6))), op('columns', 'a'), op('order_by', 'a'), op('order_by', ('a', 'desc')), op('limit', 3), op('distinct'),
    ],
    'insert': [op('values', a=1), op('values', b=2), op('values', D(('c', 1), ('a', 2))), op('ignore'), op('into', 'u')],
    'update': [op('join', 'j'), op('left_join', 'j'), op('on', 't.a', 'j.a'), op('on', 'j.a', 't.a'), op('set', a=1), op('where', Q()), op('where', b=2)],
    'delete': [op('join', 'j'), op('left_join', 'j'), op('on', 't.a', 'j.a'), op('on', 'j.a', 't.a'), op('from_', 'u'), op('where', Q()), op('where', b=2)],
}
START = {'select': T(('Query', 'select_from', ('t',), (), ()))}


class Build:
    """Builds the objects of a call and remembers how the containers and SQL objects looked."""
    def __init__(self, o):
        self.method, self.args, self.kwds = o[0], [builder.build(a) for a in o[1]], builder.kwds(o[2])
        self.before = self.look()

    def look(self):
        return [photo(a) for a in self.args] + [(k, photo(v)) for k, v in self.kwds.items()]

    def call(self, q):
        builder.calls += 1
        return outcome(getattr(q, self.method), *self.args) if not self.kwds else outcome(
            lambda: getattr(q, self.method)(*self.args, **self.kwds))


def photo(x):
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), [photo(i) for i in x])
    if isinstance(x, collections.OrderedDict):
        return ('OD', id(x), [(photo(k), photo(v)) for k, v in x.items()])
    if isinstance(x, dict):
        return ('dict', id(x), [(photo(k), photo(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, id(x), sorted(map(repr, x)))
    if hasattr(x, 'copy') and hasattr(x, '__and__') or hasattr(x, 'tosql'):
        return ('sql', id(x), outcome(str, x))
    return (type(x).__name__, id(x))


def play(b, kind, ops, at, observers, shots):
    """Runs the history; `at`: positions (0..len(ops)) after which the observers look."""
    q = builder.build(START.get(kind, NEW[kind]))
    results = []
    for i in range(len(ops) + 1):
        if i in at:
            for name in observers:
                OBSERVERS[name](kind, q)
        if i == len(ops):
            break
        call = Build(ops[i])
        results.append(call.call(q)[0])
        shots.append((ops[i], call))
    return q, results


def judge(ctx, case):
    b, kind, ops, plans = case
    use(b)
    shots = []
    plain, results = play(b, kind, ops, (), (), shots)
    want = outcome(str, plain)
    ctx.state(b, kind, want)
    ctx.saw(want)
    again = outcome(str, plain)
    if again != want:
        return Problem('rendering a second time', want, again)
    for o, call in shots:
        after = call.look()
        if after != call.before:
            return Problem('the arguments of %s were changed' % show(o), call.before, after)
    for at, observers in plans:
        shots = []
        q, res = play(b, kind, ops, at, observers, shots)
        ctx.count('observed_runs')
        got = outcome(str, q)
        if got != want or res != results:
            return Problem('rendering after looking (%s) at %s' % (', '.join(observers), at), (want, results), (got, res))
        if not (q == plain and plain == q and not q != plain):
            return Problem('comparison after looking (%s) at %s' % (', '.join(observers), at), 'equal', 'different')
        orders = outcome(lambda: (q < plain, plain < q, q > plain, q <= plain, q >= plain))
        if orders[0] == 'ok' and orders[1] != (False, False, False, True, True):
            return Problem('order after looking (%s) at %s' % (', '.join(observers), at), 'neither is before the other', orders)
        for o, call in shots:
            after = call.look()
            if after != call.before:
                return Problem('the arguments of %s were changed' % show(o), call.before, after)
    return None


ALL = tuple(OBSERVERS)
COLLECTIONS = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'generator': lambda items: (x for x in items), 'inner list': lambda items: [list(items), [0]], 'inner tuple': lambda items: ([1], tuple(items))}
USES = {
    'V': lambda s, x: s.select(s.V(x)), 'V in where': lambda s, x: s.select_from('t').where('a', s.V(x)), 'where': lambda s, x: s.select_from('t').where('a', x), 'where by name': lambda s, x: s.select_from('t').where(a=x),
    'IN': lambda s, x: s.select_from('t').where('a', s.relations.IN(x)), 'NOT IN': lambda s, x: s.select_from('t').where('a', s.relations.NOT_IN(x)), 'IN of V': lambda s, x: s.select_from('t').where('a', s.relations.IN(s.V(x))),
    'Q': lambda s, x: s.select_from('t').where(s.Q(a=x) | s.Q(b=1)), 'Not': lambda s, x: s.select_from('t').where(s.Not(a=x)), 'dict': lambda s, x: s.select_from('t').having({'a': x, 'b': 1}),
    'on': lambda s, x: s.select_from('t').join('j').on('a', s.relations.NOT_IN(x)), 'update': lambda s, x: s.update('t').set('a', s.V(x)).where('b', x), 'delete': lambda s, x: s.delete_from('t').where([('a', x)]),
    'insert': lambda s, x: s.insert_into('t').values(a=s.V(x)), 'function': lambda s, x: s.select(s.max(x)), 'concat': lambda s, x: s.select(s.concat(s.V(x), 'a')), 'subselect': lambda s, x: s.select((s.select('k').where('k', x), 'al')),
}


def plans_for(n, every):
    """Which observers look where."""
    spots = tuple(range(n + 1))
    plans = [(spots, ALL)]
    plans += [((i,), ALL) for i in spots]
    if every:
        plans += [(spots, (o,)) for o in ALL]
    return tuple(plans)


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, alphabet, depth, backends, bound, kinds, every, split=1):
        shards = []
        for b in backends:
            for kind in kinds:
                for n in range(depth + 1):
                    for prefix in itertools.product(alphabet[kind], repeat=min(n, split)):
                        shards.append((b, kind, prefix, n - len(prefix)))

        def cases(shard):
            b, kind, prefix, free = shard
            for rest in itertools.product(alphabet[kind], repeat=free):
                ops = prefix + rest
                yield (b, kind, ops, plans_for(len(ops), every))
        fams.append(Family(name, shards, cases, judge, bound % depth))

    kinds = tuple(OPS)
    family('all calls', OPS, 2, BACKENDS if deep else ('sql', 'postgresql'), 'all histories of <=%d calls, every observer everywhere and all of them at each position', kinds, True)
    family('core calls', CORE, 4 if deep else 3, BACKENDS if deep else ('sql',),
           'all histories of <=%d core calls, all observers at each and at every position', ('select', 'update', 'delete'), False)
    family('core calls of insert', CORE, 4, ('mysql',), 'all histories of <=%d core calls', ('insert',), False)
    if deep:
        family('all calls, three', OPS, 3, ('sql',), 'all histories of <=%d calls', kinds, False, 2)

    # SQL objects that are not queries: rendering them again gives the same text.
    values = [
        V(Gen(1, 2)), V(Gen('a')), V([Gen(1), Gen(2)]), V({1, 2, 3}), V([1, (2, 3)]), Q(a=Gen(1, None)), Q(a=Rel('NOT_IN', Gen(1, 2))), Q(a=V(Gen(1))),
        And(Q(a=Gen(1)), Q()), Or(Q(a=1, b=Gen(2)), Q(Not(a=Gen(1)))), Q(a=Rel("IN", [[1, Gen(2)], Gen(3)])), Not(a=Gen(1, 2)), Exists(SUB), F('concat', 'a', V(Gen(1))), F('group_concat', 'a', 'a'),
        F('count', ['a', 'b']), F('count', ('a', 'b')), Un(SUB, '&', SUB), SUB, R('a.b'), C('x'), Q(a=range(3)), V(range(3)), Q(Q(a=Gen(1)), Q(b=Gen(2))),
        Q(a=Rel('IN', Gen(None, 'x'))), Q(a=Rel('IN', {'b', 'a'})), F('convert', V(Gen(1)), 'signed'),
    ]

    def value_cases(b):
        for v in values:
            for n in range(1, 5):
                for looks in itertools.product(('str', 'repr', 'copy', 'use', 'compare', 'and'), repeat=n if n < 3 or deep else 2):
                    yield (b, v, looks)

    def judge_value(ctx, case):
        b, v, looks = case
        use(b)
        want = outcome(lambda: str(builder.build(v)))
        obj = builder.build(v)
        for look in looks:
            if look == 'str':
                outcome(str, obj)
            elif look == 'repr':
                outcome(repr, obj)
            elif look == 'copy':
                if hasattr(obj, 'copy') and v[0] != 'V':
                    copied = outcome(lambda: str(obj.copy()))
                    if copied[0] == 'ok' and copied != want:
                        return Problem('rendering of a copy', want, copied)
            elif look == 'use':
                outcome(lambda: str(builder.sp.select(obj).where(obj).order_by(obj)))
            elif look == 'and':
                outcome(lambda: str(obj & builder.sp.Q(z=1)))
                outcome(lambda: str(builder.sp.Q(z=1) | obj))
            else:
                outcome(lambda: obj == 'x')
                outcome(lambda: obj == builder.build(v))
        got = outcome(str, obj)
        ctx.state(b, v, looks)
        ctx.saw(got)
        return None if got == want else Problem('rendering after looking at it', want, got)

    fams.append(Family('other objects', BACKENDS, value_cases, judge_value, 'all sequences of <=%d observations of %d SQL objects' % (4 if deep else 2, len(values))))

    # The same object used in several queries keeps its text, and so do the queries.
    shared = [V(Gen(1, 2)), Q(a=Gen(1, None)), Or(Q(a=1), Q(b=2)), And(Q(a=1), Q()), Not(a=1), Exists(SUB), F('group_concat', 'a', mods=(op('order_by', 'b'),)), SUB,
              Un(SUB, '|', sel(op('columns', 'a'))), Q(), C('1')]
    uses = [
        lambda x: builder.sp.select(x).from_('t'), lambda x: builder.sp.select_from('t').where(x), lambda x: builder.sp.select_from('t').where('c', x),
        lambda x: builder.sp.select_from('t').having(x).order_by(x), lambda x: builder.sp.select_from('t').where(builder.sp.Q(x) | builder.sp.Q(z=1)),
        lambda x: builder.sp.select_from((x, 'al')).group_by(x), lambda x: builder.sp.update('t').set('c', x).where(x), lambda x: builder.sp.delete_from('t').where(x).where(y=1),
        lambda x: builder.sp.insert_into('t').values(c=x), lambda x: builder.sp.select_from('t').join((x, 'j')).on(x).left_join('k').on('a', x),
        lambda x: builder.sp.Not(x), lambda x: x & builder.sp.Q(z=1), lambda x: builder.sp.Q(z=1) | x,
    ]

    def shared_cases(b):
        for x in shared:
            for n in (1, 2, 3) if deep else (1, 2):
                for which in itertools.product(range(len(uses)), repeat=n):
                    yield (b, x, which)

    def judge_shared(ctx, case):
        b, x, which = case
        use(b)
        want = outcome(lambda: str(builder.build(x)))
        alone = [outcome(lambda u=u: str(uses[u](builder.build(x)))) for u in which]
        obj = builder.build(x)
        queries = [outcome(uses[u], obj) for u in which]
        got = [outcome(str, q[1]) if q[0] == 'ok' else q for q in queries] + [outcome(str, obj)]
        again = [outcome(str, q[1]) if q[0] == 'ok' else q for q in queries] + [outcome(str, obj)]
        ctx.state(b, x, which)
        ctx.saw(got)
        if got != alone + [want] or again != got:
            return Problem('one object used in several queries', alone + [want], (got, again))
        return None

    fams.append(Family('shared objects', BACKENDS, shared_cases, judge_shared, 'all uses of %d objects in <=%d queries' % (len(shared), 3 if deep else 2)))

    # Arguments of every calling style stay what they were.
    def argument_calls(target):
        strict, conds = TARGETS[target][5:]
        pool = list(pool_of(target))
        if strict:
            pool[1:1] = [('l', [1, None, 2]), ('n', [(1, 2), [3]])] if conds else []
        for n in range(0, 4 if deep else 3):
            for items in itertools.permutations(pool, n):
                for args, kwds in styles(items, strict, conds):
                    yield args, kwds
                if not strict and n:
                    yield tuple([i[0]] for i in items), ()          # lists of one item
                    yield tuple([i[0]] if k else [i[0], i[1]] for k, i in enumerate(items)), ()
                    yield ([i[0] for i in items],), ()
                    yield [list(i) for i in items], ()
                if n:
                    yield tuple(list(i) + ['extra'] for i in items), ()
                    yield ([[i[0]] for i in items] + [5],), ()

    def argument_cases(shard):
        b, target = shard
        for args, kwds in argument_calls(target):
            yield (b, target, tuple(args), kwds)

    def judge_arguments(ctx, case):
        b, target, args, kwds = case
        use(b)
        ctor, ctor_args, before, method, after, _, _ = TARGETS[target]
        calls = [Build(o) for o in before + ((method, args, kwds),) * 2 + after]
        q = builder.build(T(('Query', ctor, ctor_args, (), ())))
        got = [c.call(q)[0] for c in calls]
        text = outcome(str, q)
        ctx.state(b, target, text, got)
        ctx.saw(text)
        for c in calls:
            if c.look() != c.before:
                return Problem('the arguments of the call were changed', c.before, c.look())
        for c in calls[len(before):-len(after) or None]:
            outcome(str, q), outcome(q.has, 'where', 'a'), outcome(lambda: q == q.copy()), outcome(str, q.copy())
            if c.look() != c.before:
                return Problem('the arguments of the call were changed by looking at the query', c.before, c.look())
        return None

    fams.append(Family('arguments', [(b, t) for b in (BACKENDS if deep else ('sql',)) for t in TARGETS], argument_cases, judge_arguments,
                       'all calling styles of up to %d items (also rejected ones): arguments unchanged' % (3 if deep else 2)))

    containers = [[], ['a'], ['b', 'a'], ['a', 'a'], [['a', 'x']], [['a']], [('b', 1), ('a', 2)], [['b', 1], ['a', [1, None]]], ['b', 1, None], [None, 'z', [1, 2]],
                  D(('b', 1), ('a', 2)), D(('b', 'y'), ('a', 'x')), D(('t', 'x')), OD(('b', 1), ('a', [2, None])), OD(('b', 'y'), ('a', 'x')), {3, 1, 2}, [{2, 1}], [[]],
                  ('a', ['x']), (['a', 'x'], 'b'), [V([1, 2])], [Q(a=[1])], D(('a', [3, None, 1])), D(('a', V([1])))]
    makers = ['Q', 'Not', 'V', 'R', 'IN', 'NOT_IN', 'EQ', 'count', 'max', 'concat', 'group_concat', 'convert', 'exists', 'select', 'select_from', 'delete_from', 'delete', 'insert_into', 'update', 'C']

    def maker_cases(shard):
        b, maker = shard
        for first in containers:
            yield (b, maker, (first,))
            for second in containers:
                yield (b, maker, (first, second))

    def judge_maker(ctx, case):
        b, maker, args = case
        use(b)
        real = [builder.build(a) for a in args]
        before = [photo(a) for a in real]
        func = getattr(builder.sp.relations, maker, None) or getattr(builder.sp, maker)
        made = outcome(lambda: func(*real))
        ctx.state(b, maker, args)
        if made[0] == 'ok':
            obj = made[1]
            for look in (str, repr, lambda o: bool(o == 'x'), lambda o: str(o.copy()), lambda o: str(builder.sp.select(o).where('c', o)), lambda o: str(builder.sp.select(o).where(o)),
                         lambda o: str(o & builder.sp.Q(a=1)), lambda o: str(builder.sp.select_from('t').join((o, 'x')).on('a', o)), lambda o: str(builder.sp.update('t').set('a', o).where('b', o)),
                         lambda o: str(builder.sp.insert_into('t').values(a=o))):
                ctx.saw(outcome(look, obj))
        after = [photo(a) for a in real]
        return None if after == before else Problem('the arguments of %s were changed' % maker, before, after)

    fams.append(Family('arguments of functions', [(b, m) for b in BACKENDS for m in makers], maker_cases, judge_maker,
                       '%d functions and relations with all pairs of %d containers' % (len(makers), len(containers))))

    # Collections as values: rendered again and again they give the same, and stay what they were.
    small = [list(x) for n in (1, 2, 3) for x in itertools.product((None, 2, 1, 'b', (3, None)), repeat=n)]
    long = [[k] * n for n in range(4, 12) for k in (None, 1)] + [list(range(n, 0, -1)) for n in range(4, 12)]
    long += [[None if i == k else (i * 7) % n for i in range(n)] for n in (4, 5, 9, 17, 33) for k in {0, 1, n // 2, n - 2, n - 1}]
    long += [[[2, None, 1], [1]], [[None], [None, None]], ['b', 'a', 'b', None], [[[3, 2], None], 1], [{2, 1}, [1, 0]], [True, 1, None, 1.0]]

    def collection_cases(shard):
        b, place, kind = shard
        for items in small + long:
            yield (b, place, kind, items)

    def judge_collection(ctx, case):
        b, place, kind, items = case
        use(b)
        try:
            real = COLLECTIONS[kind](items)
        except TypeError:
            return None
        before = photo(real)
        made = outcome(USES[place], builder.sp, real)
        ctx.state(case)
        if made[0] != 'ok':
            return None if photo(real) == before else Problem('the collection was changed', before, photo(real))
        q = made[1]
        first = outcome(str, q)
        ctx.saw(first)
        fresh = outcome(lambda: str(USES[place](builder.sp, COLLECTIONS[kind](items))))
        looks = (lambda: repr(q) and str(q), lambda: str(q.copy()), lambda: {q: str(q)}[q], lambda: (q == q.copy(), str(q))[1], lambda: (q < q, str(q))[1], lambda: ([q.has(x, 'a') for x in ('where', 'columns', 'values')], str(q))[1], lambda: str(q))
        for i, look in enumerate(looks):
            got = outcome(look)
            if got != first and (got[0] == 'ok' or first[0] == 'ok'):       # what can not be rendered may not be copied either
                return Problem('rendering after %d observations' % (i + 1), first, got)
        if fresh != first:
            return Problem('built anew', first, fresh)
        return None if photo(real) == before else Problem('the collection was changed', before, photo(real))

    fams.append(Family('collections', [(b, p, k) for b in (BACKENDS if deep else ('sql',)) for p in USES for k in COLLECTIONS], collection_cases, judge_collection,
                       '%d lists of values as a list, tuple, set or generator, in %d places: rendered repeatedly' % (len(small + long), len(USES))))

    # An object embedded in a query goes on growing: looking at either in between makes no difference.
    inner_of = {
        'select': (SUB, [op('where', b=2), op('columns', 'z'), op('limit', 3), op('from_', 'u'), op('join', 'm'), op('order_by', 'a'), op('distinct')]),
        'empty select': (sel(op('from_', 's')), [op('where', b=2), op('columns', 'z'), op('group_by', 'z')]),
        'group_concat': (F('group_concat', 'a'), [op('order_by', 'b'), op('separator', ';'), op('columns', 'c')]),
        'count': (F('count', 'a'), [op('distinct')]),
    }
    # how the object is wrapped, then where the wrapped object goes
    wraps = {
        'itself': lambda x: x, 'aliased': lambda x: (x, 'al'), 'dict': lambda x: {x: 'al'}, 'list': lambda x: [x],
        'union': lambda x: x | builder.sp.select('k'), 'right of a union': lambda x: builder.sp.select('k') & x,
        'union twice': lambda x: (builder.sp.select('k') | x) & x, 'exists': lambda x: builder.sp.exists(x), 'IN': lambda x: builder.sp.relations.IN(x),
        'EQ': lambda x: builder.sp.relations.EQ(x), 'Q': lambda x: builder.sp.Q(a=x), 'not Q': lambda x: builder.sp.Not(a=x), 'or Q': lambda x: builder.sp.Q(a=x) | builder.sp.Q(b=1),
        'function': lambda x: builder.sp.concat('b', x), 'max': lambda x: builder.sp.max(x), 'V': lambda x: builder.sp.V(x), 'subselect': lambda x: builder.sp.select(x).from_((x, 'deep')).where('w', x),
    }
    places = {
        'columns': lambda q, x: q.columns(x), 'from': lambda q, x: q.from_(x), 'join': lambda q, x: q.join(x).on('a', 'b'), 'on': lambda q, x: q.join('j').on('a', x),
        'where': lambda q, x: q.where('c', x), 'condition': lambda q, x: q.where(x), 'having': lambda q, x: q.having(x), 'having value': lambda q, x: q.having('c', x),
        'group_by': lambda q, x: q.group_by(x), 'order_by': lambda q, x: q.order_by(x), 'set': lambda q, x: builder.sp.update('t').set('c', x).where('d', x),
        'values': lambda q, x: builder.sp.insert_into('t').values(c=x), 'delete': lambda q, x: builder.sp.delete_from('t').where('c', x),
        'alone': lambda q, x: x, 'copied': lambda q, x: q.where('c', x).copy(),
    }
    looks = {
        'str': lambda o: str(o), 'repr': lambda o: repr(o), 'compare': lambda o: (o == builder.sp.select('x'), o == o.copy()), 'hash': lambda o: {o: 1}[o], 'copy': lambda o: str(o.copy()),
        'has': lambda o: [o.has(p, 'a') for p in PARTS['select']], 'use': lambda o: str(builder.sp.select(o).from_((o, 'x')).where('y', o)),
    }

    def embedded_cases(shard):
        b, what, place = shard
        calls = inner_of[what][1]
        for wrap in wraps:
            for n in range(1, 3):
                for more in itertools.product(calls, repeat=n):
                    for who in ('outer', 'inner', 'both', 'wrapped') if deep or n == 1 else ('outer',):
                        yield (b, what, wrap, place, more, who, tuple(looks))
            if deep or b == 'sql':
                for o in calls if deep else calls[:3]:
                    for who in ('outer', 'inner', 'both', 'wrapped') if deep else ('outer',):
                        for look in looks:
                            yield (b, what, wrap, place, (o,), who, (look,))

    def embed(what, wrap, place, more, who, looking):
        inner = builder.build(inner_of[what][0])
        made = outcome(wraps[wrap], inner)
        if made[0] != 'ok':
            return made
        made = made[1]
        outer = outcome(lambda: places[place](builder.sp.select('a').from_('t'), made))
        if outer[0] != 'ok':
            return outer
        outer = outer[1]
        objects = {'outer': [outer], 'inner': [inner], 'both': [outer, inner], 'wrapped': [made]}[who]
        results = []
        for o in more + (None,):
            for x in objects:
                for look in looking:
                    outcome(looks[look], x)
            if o:
                results.append(outcome(lambda: getattr(inner, o[0])(*builder.build(o[1]), **builder.kwds(o[2])))[0])
        return results, [outcome(str, x) if not isinstance(x, (tuple, list, dict)) else None for x in (outer, inner, made)]

    def judge_embedded(ctx, case):
        b, what, wrap, place, more, who, looking = case
        use(b)
        want = embed(what, wrap, place, more, 'outer', ())
        ctx.state(case)
        ctx.saw(want)
        got = embed(what, wrap, place, more, who, looking)
        return None if got == want else Problem('looking at the %s while the embedded object grows' % who, want, got)

    fams.append(Family('embedded objects', [(b, w, p) for b in (BACKENDS if deep else ('sql',)) for w in inner_of for p in places], embedded_cases, judge_embedded,
                       '%d ways to wrap %d objects, %d places, 1-2 later calls on the object, looking at either in between' % (len(wraps), len(inner_of), len(places))))

    def grown(b, term):
        kind = {'select': 'select', 'select_from': 'select', 'insert_into': 'insert', 'update': 'update', 'delete_from': 'delete', 'delete': 'delete'}[term[1]]
        n = len(term[4])
        everywhere = tuple(range(n + 1)) if n <= 24 or deep else tuple(range(0, n + 1, 5)) + (n,)
        return (b, kind, term[4], ((everywhere, ('str', 'compare', 'has', 'copy')), ((n // 2, n), ALL), ((n,), ALL * 3)))

    fams.append(scale.family(tier, ('select', 'joins', 'nested', 'insert', 'update', 'delete', 'upsert'), BACKENDS if deep else ('mysql',), judge, grown, top=1000 if deep else 65))
    return fams
