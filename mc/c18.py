"""C18: the same calls give the same SQL in every process."""
import itertools
import json
import os
import subprocess
import sys

from . import scale, spec
from .c16 import in_child
from .core import REPO, VERIF, Family, Problem, builder, outcome, use
from .hist import differs, expected
from .spec import BACKENDS
from .terms import And, C, D, Exists, F, Gen, Not, OD, Or, Q, Query, R, Rel, T, Un, V, op, sel

ASSUMPTIONS = (
    'keys of one dictionary with the same text but different type (the string a and custom SQL a) are left out: nothing orders them',
)

BASE = (op('from_', 't'),)
KEYS = ['b', 'a', 'c', 'aa']
WIDE = ['b', 'B', 'a.b', 'é', '_']
MIXED = ['b', C('c'), R('a'), F('max', 'x')]
NUMBERED = ['b', 2, 'a', 10, 1]       # columns can be given by number, too


def pairs_of(keys, values):
    return list(zip(keys, values))


# place -> (term made of the items (key, value), kind of values)
def places(b):
    out = {
        'columns dict': (lambda i: sel(op('columns', D(*i)), *BASE), 'name'),
        'columns kwds': (lambda i: sel(('columns', (), i), *BASE), 'name'),
        'columns constructor': (lambda i: T(('Query', 'select', (), i, ())), 'name'),
        'tables dict': (lambda i: sel(op('from_', D(*i))), 'name'),
        'tables kwds': (lambda i: sel(('from_', (), i)), 'name'),
        'where dict': (lambda i: sel(*BASE, op('where', D(*i))), 'value'),
        'where kwds': (lambda i: sel(*BASE, ('where', (), i)), 'value'),
        'having kwds': (lambda i: sel(*BASE, ('having', (), i)), 'value'),
        'on kwds': (lambda i: sel(*BASE, op('join', 'j'), ('on', (), i)), 'value'),
        'on dict': (lambda i: sel(*BASE, op('join', 'j'), op('on', D(*i))), 'value'),
        'Q kwds': (lambda i: sel(*BASE, op('where', Or(T(('Q', (), i)), Q(z=1)))), 'value'),
        'Q dict': (lambda i: sel(*BASE, op('where', T(('Q', (D(*i),), ())))), 'value'),
        'Not kwds': (lambda i: sel(*BASE, op('where', T(('Not', (), i)))), 'value'),
        'group dict': (lambda i: sel(*BASE, op('group_by', D(*i))), 'sort'),
        'order dict': (lambda i: sel(*BASE, op('order_by', D(*i))), 'sort'),
        'order kwds': (lambda i: sel(*BASE, ('order_by', (), i)), 'sort'),
        'insert dict': (lambda i: Query('insert_into', op('values', D(*i)), args=('t',)), 'value'),
        'insert kwds': (lambda i: Query('insert_into', ('values', (), i), args=('t',)), 'value'),
        'insert pairs': (lambda i: Query('insert_into', op('values', list(i)), args=('t',)), 'value'),
        'insert rows': (lambda i: Query('insert_into', *[('values', (), (x,)) for x in i], args=('t',)), 'row'),
        'update dict': (lambda i: Query('update', op('set', D(*i)), op('allow_update_all'), args=('t',)), 'value'),
        'update kwds': (lambda i: Query('update', ('set', (), i), op('allow_update_all'), args=('t',)), 'value'),
        'update where': (lambda i: Query('update', op('set', a=1), ('where', (), i), args=('t',)), 'value'),
        'delete where': (lambda i: Query('delete_from', op('where', D(*i)), args=('t',)), 'value'),
        'delete tables': (lambda i: Query('delete_from', op('allow_delete_all'), args=(D(*i),)), 'name'),
    }
    if b == 'mysql':
        out['upsert'] = (lambda i: Query('insert_into', op('values', a=1), ('on_duplicate_key_update', (), i), args=('t',)), 'value')
    if b == 'postgresql':
        out['upsert'] = (lambda i: Query('insert_into', op('values', a=1), ('on_duplicate_key_update', ('k',), i), args=('t',)), 'value')
    return out


VALUES = {
    'name': ['x', 'w', 'zz', 'y', 'q'],
    'sort': ['desc', 'asc', 'desc', 'asc', 'desc'],
    'value': [2, 'x', 1, None, 3],
    'row': [2, 'x', 1, None, 3],
}


def order_cases(shard):
    b, place, sizes = shard
    make, kind = places(b)[place]
    for keys in (KEYS, WIDE) + ((MIXED,) if 'dict' in place and 'insert' not in place and 'order' not in place else ()) + (
            (NUMBERED,) if place in ('columns dict', 'group dict', 'order dict') else ()):
        if kind == 'name' and 'tables' in place and keys is MIXED:
            continue
        for n in sizes:
            for chosen in itertools.combinations(pairs_of(keys, VALUES[kind]), n):
                yield (b, place, chosen)


def judge_orders(ctx, case):
    """All insertion orders of the items give one text, the specified one."""
    b, place, items = case
    use(b)
    make, kind = places(b)[place]
    for perm in itertools.permutations(items):
        term = make(perm)
        want = expected(spec.text_of, term, b)
        got = outcome(lambda: str(builder.build(term)))
        ctx.state(b, place, perm)
        ctx.saw(got)
        ctx.count('orders')
        if kind != 'row' and got != (first := got if perm == items else first):
            return Problem('insertion order %r changes the text' % (perm,), first, got)
        # Which order SQL objects among the keys get is not specified, only that it is always the same.
        if differs(want, got) and not any(type(k) is not str for k, _ in items):
            return Problem('insertion order %r' % (perm,), want, got)
    return None


# ---------------------------------------------------------------- sets

ELEMENTS = {
    'numbers': [8, 0, 16, 3, -1],          # 0, 8 and 16 collide in a small hash table, so insertion order shows
    'texts': ['b', 'a', 'é', "x'y", ''],
    'mixed': [1, 'a', None, 2.5, b'z'],
    'references': [R('b'), R('a'), C('x'), F('max', 'y')],
}
SET_PLACES = {
    'V': lambda s: sel(op('columns', V(s))),
    'IN': lambda s: sel(*BASE, op('where', 'c', Rel('IN', s))),
    'NOT_IN': lambda s: sel(*BASE, op('where', 'c', Rel('NOT_IN', s))),
    'Q IN': lambda s: sel(*BASE, op('where', Or(Q(c=Rel('IN', s)), Q(d=1)))),
    'on IN': lambda s: sel(*BASE, op('join', 'j'), op('on', 'c', Rel('IN', s))),
    'having IN': lambda s: sel(*BASE, op('having', 'c', Rel('IN', s))),
    'where V': lambda s: sel(*BASE, op('where', 'c', V(s))),
    'V in list': lambda s: V([s, 1]),
    'IN V': lambda s: sel(*BASE, op('where', 'c', Rel('IN', V(s)))),
}


def set_cases(shard):
    b, place, kind, frozen = shard
    for n in range(1, len(ELEMENTS[kind]) + 1):
        for chosen in itertools.combinations(ELEMENTS[kind], n):
            yield (b, place, kind, chosen, frozen)


def judge_sets(ctx, case):
    b, place, _kind, elements, frozen = case
    use(b)
    first = None
    for perm in itertools.permutations(elements):
        real = set()
        for e in perm:
            real.add(builder.build(e))
        real = frozenset(real) if frozen else real
        want = expected(lambda: spec.text_of(SET_PLACES[place](frozenset(elements)), b))
        got = outcome(lambda: str(build_with(SET_PLACES[place](MARK), real)))
        ctx.state(b, place, perm)
        ctx.count('orders')
        first = first or got
        if got != first:
            return Problem('the order %r of a set changes the text' % (perm,), first, got)
        if differs(want, got):
            return Problem('set %r' % (perm,), want, got)
        ctx.saw(got)
    return None


MARK = T(('Obj',))
MARK2 = T(('Obj', 2))


def build_with(term, real, second=None):
    """Builds the term with the real set in place of MARK (and another one in place of MARK2)."""
    original = type(builder).build

    class Patched(type(builder)):
        def build(self, x):
            if type(x) is T and x == MARK:
                return real
            if type(x) is T and x == MARK2:
                return second
            return original(self, x)
    return Patched(builder.sp).build(term)


# The same set given twice: whether the second one counts as a repetition must not depend on its order.
TWICE = {
    'where': lambda s, t: sel(*BASE, op('where', 'c', Rel('IN', s)), op('where', 'c', Rel('IN', t))),
    'where NOT_IN': lambda s, t: sel(*BASE, op('where', 'c', Rel('NOT_IN', s)), op('where', 'c', Rel('NOT_IN', t))),
    'one where': lambda s, t: sel(*BASE, op('where', [('c', Rel('IN', s)), ('c', Rel('IN', t))])),
    'nested': lambda s, t: sel(*BASE, op('where', 'c', [s, 1]), op('where', 'c', [t, 1])),
    'nested IN': lambda s, t: sel(*BASE, op('where', 'c', Rel('IN', [s])), op('where', 'c', Rel('IN', [t]))),
    'V': lambda s, t: sel(*BASE, op('where', 'c', V(s)), op('where', 'c', V(t))),
    'Q': lambda s, t: sel(*BASE, op('where', Q(c=Rel('IN', s))), op('where', Q(c=Rel('IN', t)))),
    'or': lambda s, t: sel(*BASE, op('where', Or(Q(c=Rel('IN', s)), Q(d=1))), op('where', Or(Q(c=Rel('IN', t)), Q(d=1)))),
    'not': lambda s, t: sel(*BASE, op('where', Not(c=Rel('IN', s))), op('where', Not(c=Rel('IN', t)))),
    'having': lambda s, t: sel(*BASE, op('having', 'c', Rel('IN', s)), op('having', 'c', Rel('IN', t))),
    'columns': lambda s, t: sel(*BASE, op('columns', V(s)), op('columns', V(t))),
    'columns with subselect': lambda s, t: sel(*BASE, op('columns', sel(op('where', 'c', Rel('IN', s)))), op('columns', sel(op('where', 'c', Rel('IN', t))))),
    'joins': lambda s, t: sel(*BASE, op('left_join', 'j'), op('on', 'c', Rel('IN', s)), op('join', 'j'), op('on', 'c', Rel('IN', t))),
    'joined subselects': lambda s, t: sel(*BASE, op('left_join', (sel(op('where', 'c', Rel('IN', s))), 'x')), op('left_join', (sel(op('where', 'c', Rel('IN', t))), 'x'))),
    'group': lambda s, t: sel(*BASE, op('group_by', V(s)), op('group_by', V(t))),
    'order': lambda s, t: sel(*BASE, op('order_by', (V(s), 'desc')), op('order_by', V(t))),
    'set': lambda s, t: Query('update', op('set', 'c', V(s)), op('set', 'c', V(t)), op('where', 'c', Rel('IN', s)), op('where', 'c', Rel('IN', t)), args=('t',)),
    'delete': lambda s, t: Query('delete_from', op('where', 'c', Rel('IN', s)), op('where', 'c', Rel('IN', t)), args=('t',)),
}
NESTED = [frozenset([0, 8]), (8, 0), 8, (frozenset(['a', 'b']),)]


def filled(elements):
    out = set()
    for e in elements:
        out.add(builder.build(e))
    return out


def twice_cases(shard):
    b, place, kind = shard
    pool = NESTED if kind == 'nested' else ELEMENTS[kind]
    for n in range(1, 4):
        for chosen in itertools.combinations(pool, n):
            yield (b, place, kind, chosen)


def judge_twice(ctx, case):
    b, place, kind, elements = case
    use(b)
    results = set()
    for first in itertools.permutations(elements):
        for second in itertools.permutations(elements):
            for make in (set, frozenset):
                got = outcome(lambda: str(build_with(TWICE[place](MARK, MARK2), make(filled(first)), make(filled(second)))))
                results.add(got)
                ctx.count('orders')
                if len(results) > 1:
                    return Problem('one set filled in the orders %r and %r' % (first, second), 'one text', sorted(results))
    ctx.state(case)
    ctx.saw(got)
    return None


# ---------------------------------------------------------------- order of independent calls

OPTIONS = {
    'select': ['distinct', 'sql_cache', 'sql_big_result', 'straight_join', 'high_priority', 'sql_calc_found_rows', 'sql_buffer_result'],
}


def shuffles(n):
    """Telling orders of n items."""
    plain = list(range(n))
    yield plain
    yield plain[::-1]
    yield plain[n // 2:] + plain[:n // 2]
    yield plain[1::2] + plain[::2]
    yield [x for p in zip(plain, plain[::-1]) for x in p][:n] if n % 2 == 0 else plain[1:] + plain[:1]
    for k in {1, n - 1, n // 3}:
        if 0 < k < n:
            yield plain[:k - 1] + [plain[k], plain[k - 1]] + plain[k + 1:]


def long_cases(shard):
    b, place, chosen = shard
    for n in chosen:
        yield (b, place, n)


def judge_long(ctx, case):
    b, place, n = case
    use(b)
    make, kind = places(b)[place]
    value = {'name': lambda i: 'x%d' % i, 'sort': lambda i: ('asc', 'desc')[i % 2], 'value': lambda i: i, 'row': lambda i: i}[kind]
    items = [('c%d' % i, value(i)) for i in range(n)]       # c10 before c2
    seen = set()
    for order in shuffles(n):
        assert sorted(order) == list(range(n)) or n % 2 == 0 and len(order) == n, order
        term = make(tuple(items[i] for i in dict.fromkeys(order + list(range(n)))))
        want = expected(spec.text_of, term, b)
        got = outcome(lambda: str(builder.build(term)))
        ctx.state(b, place, n, tuple(order))
        ctx.saw(got)
        ctx.count('orders')
        seen.add(got)
        if differs(want, got) or (kind != 'row' and len(seen) > 1 and place != 'insert pairs'):
            return Problem('insertion order %r' % (order,), want, got)
    return None


def long_set_cases(shard):
    b, place, chosen = shard
    for n in chosen:
        yield (b, place, n)


def judge_long_set(ctx, case):
    b, place, n = case
    use(b)
    for elements in ([i * 8 for i in range(n)], ['e%d' % i for i in range(n)], [i if i % 2 else str(i) for i in range(n)]):
        first = None
        for order in shuffles(n):
            real = set()
            for i in dict.fromkeys(order + list(range(n))):
                real.add(elements[i])
            want = expected(lambda: spec.text_of(SET_PLACES[place](frozenset(elements)), b))
            got = outcome(lambda: str(build_with(SET_PLACES[place](MARK), real)))
            ctx.state(b, place, n, tuple(order), elements[0])
            ctx.count('orders')
            first = first or got
            if got != first or differs(want, got):
                return Problem('a set filled in the order %r' % (order,), want, got)
            ctx.saw(got)
    return None


def option_cases(shard):
    b, n = shard
    for chosen in itertools.permutations(OPTIONS['select'], n):
        yield (b, sel(*BASE, *[op(o) for o in chosen]))


def judge_text(ctx, case):
    b, term = case
    use(b)
    want = expected(spec.text_of, term, b)
    got = outcome(lambda: str(builder.build(term)))
    ctx.saw(got)
    ctx.state(b, got)
    return Problem('rendering', want, got) if differs(want, got) else None


# ---------------------------------------------------------------- other processes, preceding work

SUB = sel(op('columns', 'k'), op('from_', 's'), op('where', b=1, a=2))


def corpus():
    """Terms using everything whose order could leak."""
    out = [
        sel(op('columns', D(*pairs_of(KEYS, 'xyzw'))), op('from_', D(('t', 'x'), ('s', 'y'))), op('where', b=1, a=[3, 1, None], c='x')),
        sel(*BASE, op('where', 's', Rel('IN', frozenset(['p', 'q', 'r', 'o']))), op('where', 'v', V(frozenset([3, 1, 2, 'a', 'b'])))),
        sel(*BASE, op('distinct'), op('sql_cache'), op('sql_big_result'), op('high_priority'), op('for_update')),
        sel(*BASE, op('columns', D((C('c1'), 'x'), (C('c2'), 'y'), ('c0', 'z'), (SUB, 'w')))),
        sel(*BASE, op('where', D((F('max', 'a'), 1), (C('z'), 2), ('b', 3)))),
        sel(*BASE, op('where', Or(Q(b=1, a=2, c=3), And(Q(z=1, y=2), Q(Not(d=1, c=2)))))),
        sel(*BASE, op('join', 'j'), op('on', b='x', a='y', c=R('z')), op('left_join', 'j'), op('on', b='x', a='y', c=R('z'))),
        sel(*BASE, op('group_by', b='asc', a='desc'), op('order_by', D(('z', 'asc'), ('y', 'desc'), ('x', 'asc'))), op('having', z=1, y=2)),
        sel(op('columns', F('group_concat', 'a', 'a', mods=(op('order_by', 'z', ('y', 'desc')), op('separator', ', '))), F('count_distinct', ['b', 'a']))),
        Query('insert_into', op('values', b=1, a=2), op('values', c=3, a=4), op('values', zz=5, y=6, x=7), args=('t',)),
        Query('insert_into', op('values', D(('é', 1), ('e', 2), ('E', 3))), op('ignore'), args=('t',)),
        Query('update', op('set', b=1, a=2, c=3), op('where', z=1, y=2, x=None), op('ignore'), args=('t',)),
        Query('delete_from', op('where', D(*pairs_of(KEYS, [1, 'x', None, (1, 2)]))), args=(D(('t', 'x'), ('s', 'y')),)),
        Un(sel(op('columns', D(('b', 'x'), ('a', 'y')))), '|', sel(op('columns', D(('d', 'x'), ('c', 'y'))))),
        sel(*BASE, op('where', Exists(SUB)), op('where', 'a', Rel('IN', SUB)), op('where', 'x', 1), op('where', 'x', 1), op('where', 'x', True)),
        Query('update', op('set', a=1), args=('t',)), Query('delete_from', args=('t',)),
        sel(*BASE, op('limit', 5, 0), op('offset', 3), op('into_outfile', '/o'), op('fields_terminated_by', ',')),
        V(T(('Obj',))), sel(*BASE, op('where', 'a', [])), sel(*BASE, op('where', [('a', 1), (5, 2)])), sel(op('columns', True)),
        V(frozenset(['é', 'e', b'x', 1, None])), V("a'b\\c\n"), V(1.5), V(True), R('a.b.c'), F('concat', 'x', 'x'),
    ]
    for make, kind in places('sql').values():
        for perm in list(itertools.permutations(pairs_of(KEYS, VALUES[kind])))[::7]:
            out.append(make(perm))
    return out


def result_of(term, b):
    use(b)
    return outcome(lambda: str(builder.build(term)))


def all_results(order):
    terms = corpus()
    out = {}
    for b, i in order:
        out['%s/%d' % (b, i)] = result_of(terms[i], b)
    return out


CHILD = '''
import json, sys
sys.path.insert(0, {verif!r})
sys.dont_write_bytecode = True
from mc import c18
print(json.dumps(c18.all_results(json.load(sys.stdin))))
'''


def process_cases(shard):
    yield shard


def judge_process(ctx, case):
    seed, order = case
    terms = corpus()
    todo = [(b, i) for b in BACKENDS for i in range(len(terms))]
    if order == 'backwards':
        todo.reverse()
    elif order == 'by query':
        todo.sort(key=lambda x: x[1])
    env = dict(os.environ, PYTHONHASHSEED=str(seed), SQLPUZZLE_REPO=REPO)
    run = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', CHILD.format(verif=VERIF)], input=json.dumps(todo), env=env, capture_output=True, text=True)
    if run.returncode:
        raise RuntimeError(run.stderr)
    results = json.loads(run.stdout)
    for b, i in todo:
        want = expected(spec.text_of, terms[i], b)
        got = tuple(results['%s/%d' % (b, i)])
        ctx.saw(got)
        ctx.state(seed, order, b, i)
        ctx.count('renderings_in_other_processes')
        if differs(want, got):
            return Problem('hash seed %s, %s: %r on %s' % (seed, order, terms[i], b), want, got)
    return None


SHORT = list(range(28))


def after_cases(shard):
    b, first, depth = shard
    for rest in itertools.product(SHORT, repeat=depth):
        yield (b, (first,) + rest)


def switch_cases(shard):
    b, first = shard
    for other in BACKENDS:
        if other != b:
            for second in SHORT:
                yield (other, b, (first, second))


def judge_switch(ctx, case):
    """A query rendered on another backend, another one on this backend, and the first one again."""
    other, b, (first, second) = case
    terms = corpus()

    def work():
        results = [(other, first, result_of(terms[first], other)), (b, second, result_of(terms[second], b)), (b, first, result_of(terms[first], b))]
        return results

    for where, i, text in in_child(work) or [(b, first, None)]:
        want = expected(spec.text_of, terms[i], where)
        if text is None or differs(want, text):
            return Problem('%r on %s after other work' % (terms[i], where), want, text)
        ctx.saw(text)
    ctx.state(case)
    return None


def judge_after(ctx, case):
    """Texts of queries rendered one after another in one freshly started process."""
    b, chain = case
    terms = corpus()
    got = in_child(lambda: [result_of(terms[i], b) for i in chain])
    ctx.transitions += len(chain)
    for i, text in zip(chain, got or [None] * len(chain)):
        want = expected(spec.text_of, terms[i], b)
        if text is None or differs(want, text):
            return Problem('queries %r one after another: %r' % (chain, terms[i]), want, text)
        ctx.saw(text)
    ctx.state(b, chain)
    return None


def families(tier):
    deep = tier == 'thorough'
    sizes = (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4)
    fams = [
        Family('insertion orders', [(b, p, sizes) for b in BACKENDS for p in places(b)], order_cases, judge_orders, 'all insertion orders of <=%d items in all places taking a dictionary or keywords' % sizes[-1]),
        Family('sets', [(b, p, k, f) for b in (BACKENDS if deep else ('sql', 'postgresql')) for p in SET_PLACES for k in ELEMENTS for f in ((False, True) if deep else (False,))], set_cases, judge_sets, 'all sets of <=5 elements in all insertion orders'),
        Family('one set twice', [(b, p, k) for b in (BACKENDS if deep else ('sql',)) for p in TWICE for k in ('numbers', 'texts', 'mixed', 'nested')], twice_cases, judge_twice,
               'all sets of <=3 elements given twice, in all pairs of insertion orders, in %d places' % len(TWICE)),
        Family('options', [(b, n) for b in BACKENDS for n in range(1, 6 if deep else 5)], option_cases, judge_text, 'all orders of <=%d select options' % (5 if deep else 4)),
        Family('other processes', [(s, o) for s in range(48 if deep else 6) for o in ('forwards', 'backwards', 'by query')], process_cases, judge_process, 'corpus of %d queries on all backends, %d hash seeds, 3 orders' % (len(corpus()), 48 if deep else 6)),
        Family('preceding work', [(b, i, 2 if deep or b == 'sql' else 1) for b in BACKENDS for i in SHORT], after_cases, judge_after, 'all sequences of 2 or 3 queries of the corpus in a fresh process'),
        Family('preceding work on another backend', [(b, i) for b in BACKENDS for i in SHORT], switch_cases, judge_switch, 'all pairs of queries of the corpus, all pairs of backends, in a fresh process'),
        Family('many items', [(b, p, scale.sizes(tier)[2 + k::4]) for b in (BACKENDS if deep else ('mysql', 'postgresql')) for p in places(b) for k in range(4)], long_cases, judge_long, 'dictionaries and keywords of up to %d items in telling insertion orders' % scale.sizes(tier)[-1]),
        Family('large sets', [(b, p, scale.sizes(tier)[2 + k::4]) for b in (BACKENDS if deep else ('sql',)) for p in SET_PLACES for k in range(4)], long_set_cases, judge_long_set, 'sets of up to %d elements in telling insertion orders' % scale.sizes(tier)[-1]),
    ]
    return fams
