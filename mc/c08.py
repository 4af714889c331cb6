"""C08: copies and separate queries are fully independent."""
import itertools

from . import scale
from .core import Family, Problem, builder, outcome, use
from .spec import BACKENDS
from .terms import And, C, D, Exists, F, Gen, Not, Or, Q, R, Rel, T, Un, V, op, sel

SUB = sel(op('columns', 'id'), op('from_', 's'), op('join', 'k'), op('on', 's.a', 'k.a'))
START = {
    'select': T(('Query', 'select_from', ('t',), (), ())), 'insert': T(('Query', 'insert_into', ('t',), (), ())),
    'update': T(('Query', 'update', ('t',), (), ())), 'delete': T(('Query', 'delete_from', ('t',), (), ())),
}
OPS = {
    'select': [
        op('columns', 'a', ('b', 'x')), op('columns', F('group_concat', 'a', mods=(op('order_by', 'b'),))), op('columns', (SUB, 's')), op('columns', F('count', 'c')),
        op('from_', 'u'), op('from_', (SUB, 's')), op('join', 'j'), op('left_join', ('j', 'x')), op('right_join', (SUB, 'y')), op('on', 't.a', 'j.a'), op('on', C('q')),
        op('where', 'a', [1, None]), op('where', Q(b=1, c=2)), op('where', Or(Q(a=1), Q(d=2))), op('where', 'e', Rel('IN', SUB)), op('where', Exists(SUB)), op('where', Not(a=1)),
        op('where', 'g', Gen(1, 2)), op('having', 'h', 1), op('having', And(Q(a=1), Q(b=2))), op('group_by', 'a'), op('group_by', ('b', 'desc')), op('order_by', 'a'),
        op('order_by', ('a', 'desc')), op('limit', 5), op('limit', 6, 7), op('offset', 3), op('into_outfile', '/o'), op('fields_terminated_by', ','), op('lines_terminated_by', ';'),
        op('optionally_enclosed_by', 'q'), op('distinct'), op('all'), op('sql_cache'), op('sql_no_cache'), op('high_priority'), op('straight_join'), op('sql_big_result'),
        op('sql_small_result'), op('sql_buffer_result'), op('sql_calc_found_rows'), op('distinctrow'), op('for_update'), op('for_update', False), op('limit', None),
    ],
    'insert': [
        op('values', a=1), op('values', b=2, a=3), op('values', [('c', SUB)]), op('into', 'u'), op('ignore'), op('ignore', False), op('on_duplicate_key_update', a=1),
        op('on_duplicate_key_update', 'a', b=2), op('on_duplicate_key_update', 'i', D(('c', 3))), op('on_duplicate_key_update'),
    ],
    'update': [
        op('set', a=1), op('set', 'b', SUB), op('set', C('z = 1')), op('table', 'u'), op('join', 'j'), op('left_join', 'k'), op('on', 't.a', 'j.a'), op('where', 'a', 1),
        op('where', Q(b=1)), op('where', Q()), op('ignore'), op('ignore', False), op('allow_update_all'), op('forbid_update_all'),
    ],
    'delete': [
        op('delete', 'u'), op('from_', 'w'), op('from_', ('v', 'x')), op('join', 'j'), op('left_join', 'k'), op('on', 't.a', 'j.a'), op('where', 'a', 1), op('where', Q(b=1)),
        op('where', Q()), op('ignore'), op('ignore', False), op('allow_delete_all'), op('forbid_delete_all'),
    ],
}


ALIKE = {       # calls that change something given before
    'select': [op('order_by', 'b'), op('order_by', ('b', 'desc')), op('group_by', ('a', 'desc')), op('group_by', 'b'), op('columns', 'a'), op('columns', ('a', 'y')), op('left_join', 'j'), op('join', ('j', 'x')), op('where', 'a', 1), op('where', 'a', 2),
               op('columns', F('group_concat', 'a', mods=(op('order_by', ('b', 'desc')), op('separator', ';')))), op('columns', F('count', 'c', mods=(op('distinct'),)))],
    'insert': [op('values', a=2), op('values', [('c', 2)]), op('into', 't')],
    'update': [op('set', a=2), op('set', 'b', 3), op('left_join', 'j'), op('join', 'k')],
    'delete': [op('left_join', 'j'), op('join', 'k'), op('from_', 'v')],
}
MORE = {
    'select': (op('columns', 'mm'), op('from_', 'mt'), op('join', 'mj'), op('on', 'm', 'n'), op('where', 'm', 1), op('having', 'm', 1), op('group_by', 'm'), op('order_by', 'm'), op('limit', 9), op('distinct')),
    'insert': (op('values', mm=1), op('into', 'mt'), op('ignore')),
    'update': (op('set', mm=1), op('join', 'mj'), op('on', 'm', 'n'), op('where', 'm', 1), op('ignore')),
    'delete': (op('delete', 'mm'), op('from_', 'mt'), op('join', 'mj'), op('on', 'm', 'n'), op('where', 'm', 1), op('ignore')),
}


def run(term, ops):
    q = builder.build(term)
    for o in ops:
        outcome(builder.apply, q, o)
    return q


def judge_copy(ctx, case):
    """prefix; copy; calls on one of the two (or on both): the other one renders as before."""
    b, kind, prefix, after, copies = case
    use(b)
    original = run(START[kind], prefix)
    before = outcome(str, original)
    copy = original
    for _ in range(copies):
        copy = copy.copy()
    if copy is original or type(copy) is not type(original):
        return Problem('the copy', 'another query of the same kind', type(copy))
    if outcome(str, copy) != before or outcome(str, original) != before:
        return Problem('rendering of the copy', before, outcome(str, copy))
    if not (copy == original and original == copy) or copy != original:
        return Problem('the copy compares', 'equal', 'different')
    ctx.state(b, kind, before)
    want = outcome(str, run(START[kind], prefix + after))
    for side in ('original', 'copy'):
        original = run(START[kind], prefix)
        copy = original.copy()
        changed, other = (original, copy) if side == 'original' else (copy, original)
        for o in after:
            outcome(builder.apply, changed, o)
        got = outcome(str, other)
        ctx.saw(got)
        if got != before:
            return Problem('after calls on the %s, the other one renders' % side, before, got)
        got = outcome(str, changed)
        if got != want:
            return Problem('the %s does not follow its own calls after copying' % side, want, got)
    return None


def judge_two(ctx, case):
    """Two separate queries built in turns render as if built alone."""
    b, (kind1, ops1), (kind2, ops2) = case
    use(b)
    want = outcome(str, run(START[kind1], ops1)), outcome(str, run(START[kind2], ops2))
    ctx.state(b, want)
    for order in ('first', 'turns', 'late'):
        x = builder.build(START[kind1])
        if order == 'late':
            for o in ops1:
                outcome(builder.apply, x, o)
        y = builder.build(START[kind2])
        if order == 'first':
            for o in ops1:
                outcome(builder.apply, x, o)
        if order == 'turns':
            for o, p in itertools.zip_longest(ops1, ops2):
                if o:
                    outcome(builder.apply, x, o)
                if p:
                    outcome(builder.apply, y, p)
        else:
            for p in ops2:
                outcome(builder.apply, y, p)
        got = outcome(str, x), outcome(str, y)
        ctx.saw(got)
        if got != want:
            return Problem('two separate queries (%s)' % order, want, got)
        fresh = outcome(str, builder.build(START[kind1]))
        if fresh != outcome(str, run(START[kind1], ())) or (kind1 in ('select', 'insert') and fresh != EMPTY_TEXT[b, kind1]):
            return Problem('a fresh query afterwards', EMPTY_TEXT.get((b, kind1)), fresh)
    return None


EMPTY_TEXT = {}
for _b, _q in (('sql', '"'), ('mysql', '`'), ('postgresql', '"'), ('sqlite', '"')):
    EMPTY_TEXT[_b, 'select'] = ('ok', 'SELECT * FROM %st%s' % (_q, _q))
    EMPTY_TEXT[_b, 'insert'] = ('ok', 'INSERT INTO %st%s' % (_q, _q))

# Objects with calls of their own, put into others.
INNER = {
    'select': (SUB, [op('where', 'z', 9), op('columns', 'zz'), op('join', 'zj'), op('on', 'z', 'y'), op('limit', 9), op('distinct'), op('order_by', 'z'),
                     op('from_', 'zt'), op('group_by', 'z'), op('having', 'z', 1)]),
    'count': (F('count', 'a'), [op('distinct'), op('distinct', False)]),
    'max': (F('max_distinct', 'a'), [op('distinct', False)]),
    'group_concat': (F('group_concat', 'a'), [op('order_by', 'z'), op('separator', '#'), op('order_by', ('z', 'desc'))]),
    'convert': (F('convert', 'a', 'signed'), [op('to', 'unsigned')]),
}
sp = builder.sp
HOLDERS = {
    'column': lambda x: sp.select(x, 'b'), 'aliased column': lambda x: sp.select((x, 'al')), 'where value': lambda x: sp.select_from('t').where('c', x),
    'where column': lambda x: sp.select_from('t').where(x, 1), 'where custom': lambda x: sp.select_from('t').where(x), 'order': lambda x: sp.select_from('t').order_by((x, 'desc')),
    'group': lambda x: sp.select_from('t').group_by(x), 'having': lambda x: sp.select_from('t').having('c', sp.relations.GT(x)), 'table': lambda x: sp.select_from((x, 'al')),
    'join': lambda x: sp.select_from('t').left_join((x, 'al')).on('a', x), 'in': lambda x: sp.delete_from('t').where('c', sp.relations.IN(x)), 'exists': lambda x: sp.select_from('t').where(sp.exists(x)),
    'set': lambda x: sp.update('t').set('c', x).allow_update_all(), 'values': lambda x: sp.insert_into('t').values(c=x), 'Q': lambda x: sp.Q('c', x), 'Q tree': lambda x: sp.Q(a=1, b=2) | sp.Q('c', x) & sp.Q(d=4),
    'Not': lambda x: sp.Not('c', x), 'exists alone': lambda x: sp.exists(x), 'concat': lambda x: sp.concat('a', x), 'group_concat': lambda x: sp.group_concat(x).order_by(x), 'count': lambda x: sp.count(x),
    'V': lambda x: sp.V(x), 'V list': lambda x: sp.V([x, [x]]), 'union left': lambda x: x & sp.select('q'), 'union right': lambda x: sp.select('q') | x, 'union deep': lambda x: (sp.select('q') | x) & sp.select(x),
    'nested': lambda x: sp.select((sp.select_from((x, 'i1')), 'i2')), 'in list': lambda x: sp.select_from('t').where('c', [x, 1]),
}
BUILD_ONLY = sorted(HOLDERS)


def judge_inner(ctx, case):
    """Calls on a nested object never reach a copy of what it was put into - and a copy of it is independent too."""
    b, inner, holder, calls = case
    use(b)
    term, _ = INNER[inner]
    obj = builder.build(term)
    held = outcome(HOLDERS[holder], obj)
    if held[0] != 'ok':
        return None
    held = held[1]
    before = outcome(str, held)
    copied = outcome(held.copy)
    if copied[0] != 'ok':
        return Problem('copying', 'a copy', copied)
    copy = copied[1]
    twin = obj.copy()
    alone = outcome(str, obj)
    if outcome(str, copy) != before or outcome(str, twin) != alone:
        return Problem('rendering of the copy', (before, alone), (outcome(str, copy), outcome(str, twin)))
    ctx.state(b, inner, holder, before)
    for o in calls:
        outcome(builder.apply, twin, o)
    if outcome(str, held) != before or outcome(str, copy) != before or outcome(str, obj) != alone:
        return Problem('calls on a copy of the nested object reached the original', before, (outcome(str, held), outcome(str, copy)))
    for o in calls:
        outcome(builder.apply, obj, o)
    got = outcome(str, copy)
    ctx.saw(got)
    if got != before:
        return Problem('calls on the nested object of the original reached the copy', before, got)
    if outcome(str, obj) != outcome(str, twin):
        return Problem('the copy of the nested object does not behave the same', outcome(str, obj), outcome(str, twin))
    return None


OBJECTS = [
    Q(), Q(a=1), Q(a=1, b=2), And(Q(a=1), Q(b=2)), Or(Q(a=1, c=3), Q(b=2)), And(Or(Q(a=1), Q()), Q(Not(b=2))), Q(Or(Q(a=1), Q(b=2)), Q(c=3)),
]
COMBINE = {
    'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'and right': lambda x, y: y & x, 'or right': lambda x, y: y | x, 'Q of both': lambda x, y: sp.Q(x, y),
    'Not of both': lambda x, y: sp.Not(x, y), 'where': lambda x, y: sp.select_from('t').where(x).where(y), 'where both': lambda x, y: sp.select_from('t').where(x, y),
    'and self': lambda x, y: x & x, 'where and keyword': lambda x, y: sp.delete_from('t').where(x, z=1).where(zz=2), 'on': lambda x, y: sp.select_from('t').join('j').on(x).on(y).on('a', 'b'),
    'having': lambda x, y: sp.select_from('t').having(x).having(k=1), 'Q wrapped': lambda x, y: sp.Q(sp.Q(x)) | sp.Q(sp.Q(y), k=1),
}


def judge_conditions(ctx, case):
    """Combining condition objects, in any order, changes none of them nor what was made of them before."""
    b, terms, steps = case
    use(b)
    objs = [builder.build(t) for t in terms]
    texts = [outcome(str, o) for o in objs]
    for step, i, j in steps:
        got = outcome(COMBINE[step], objs[i % len(objs)], objs[j % len(objs)])
        if got[0] == 'ok':
            fresh = outcome(str, got[1])
            objs.append(got[1])
            texts.append(fresh)
            copy = got[1].copy()
            if outcome(str, copy) != fresh:
                return Problem('rendering of the copy', fresh, outcome(str, copy))
        now = [outcome(str, o) for o in objs]
        if now != texts:
            return Problem('an object changed when it (or another one) was combined', texts, now)
        ctx.saw(now[-1])
    ctx.state(b, terms, steps)
    return None


def judge_union(ctx, case):
    """Unions, their copies and the queries they were made of."""
    b, shape, side, ops = case
    use(b)

    def make():
        parts = [sp.select('a').from_('t'), sp.select('b').from_('u').where(x=1), sp.select_from('v').join('j').on('a', 'b')]
        union = {'and': lambda: parts[0] & parts[1], 'or': lambda: parts[0] | parts[1], 'three': lambda: (parts[0] & parts[1]) | parts[2],
                 'right': lambda: parts[0] | (parts[1] | parts[2]), 'same': lambda: parts[0] & parts[0]}[shape]()
        return parts, union

    parts, union = make()
    before = outcome(str, union)
    texts = [outcome(str, p) for p in parts]
    copy = union.copy()
    if outcome(str, copy) != before or not (copy == union and union == copy):
        return Problem('the copy of a union', before, outcome(str, copy))
    ctx.state(b, shape, before)
    if side in (0, 1, 2):
        for o in ops:
            outcome(builder.apply, parts[side], o)
        got = outcome(str, copy)
        if got != before:
            return Problem('calls on an operand reached the copy of the union', before, got)
        for i, text in enumerate(texts):
            if i != side and outcome(str, parts[i]) != text:
                return Problem('calls on an operand reached another operand', text, outcome(str, parts[i]))
    else:
        more = {'more &': lambda: union & sp.select('z'), 'more |': lambda: copy | sp.select('z'), 'both': lambda: (union & copy) | (copy & union),
                'sub': lambda: sp.select_from((union, 'x')).where('y', copy)}[side]()
        outcome(str, more)
        for o in ops:
            if side == 'sub':
                outcome(builder.apply, more, o)
        if outcome(str, union) != before or outcome(str, copy) != before or [outcome(str, p) for p in parts] != texts:
            return Problem('combining a union changed it', before, outcome(str, union))
    ctx.saw(outcome(str, union))
    return None


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def copies(name, backends, kinds, n_prefix, n_after, bound):
        shards = [(b, k, n, prefix) for b in backends for k in kinds for n in range(n_prefix + 1)
                  for prefix in itertools.product(OPS[k], repeat=min(n, 1))]

        def cases(shard):
            b, kind, n, prefix = shard
            for rest in itertools.product(OPS[kind], repeat=n - len(prefix)):
                for m in range(1, n_after + 1):
                    for after in itertools.product(OPS[kind], OPS[kind][::1 if deep else 3]) if m == 2 else ((o,) for o in OPS[kind]):
                        yield (b, kind, prefix + rest, after, 1 if m > 1 else 2)
        fams.append(Family(name, shards, cases, judge_copy, bound))

    small = ('insert', 'update', 'delete')
    copies('copies of selects', ('sql', 'mysql'), ('select',), 1, 1, 'all (<=1 call, copy, 1 call), calls on either side')
    copies('copies of selects, longer', ('sql',), ('select',), 2 if deep else 1, 2 if not deep else 1, 'all (<=%d calls, copy, <=%d calls)' % ((2, 1) if deep else (1, 2)) + ('' if deep else ', the last one of every third kind'))
    copies('copies of others', BACKENDS, small, 2, 1, 'all (<=2 calls, copy, 1 call)')
    copies('copies of others, longer', ('sql', 'mysql') if deep else ('mysql',), small, 2, 2,
           'all (<=2 calls, copy, <=2 calls%s)' % ('' if deep else ', the last one of every third kind'))

    def two_cases(shard):
        b, k1, k2 = shard
        for o in OPS[k1]:
            for p in OPS[k2]:
                yield (b, (k1, (o,)), (k2, (p,)))
        if deep or k1 != 'select' or k2 != 'select':
            second = OPS[k2] if deep else OPS[k2][::3]
            for o in itertools.product(OPS[k1], repeat=2) if k1 != 'select' else [(x, y) for x in OPS[k1][::3] for y in OPS[k1][::2]]:
                for p in second:
                    yield (b, (k1, o), (k2, (p, p)))

    fams.append(Family('separate queries', [(b, k1, k2) for b in BACKENDS for k1 in OPS for k2 in OPS], two_cases, judge_two,
                       'all pairs of kinds and calls, built one after another or in turns'))

    def alike_cases(shard):
        b, kind, first = shard
        ops = OPS[kind] + ALIKE.get(kind, [])
        for o in ops:
            yield (b, (kind, (first,)), (kind, (first, o)))
            yield (b, (kind, (first, o)), (kind, (first,)))
            yield (b, (kind, (first, o)), (kind, (first, o, first)))
            for p in ops if deep and kind != 'select' else ops[::9 if kind == 'select' else 3]:
                yield (b, (kind, (first, o)), (kind, (first, p)))

    fams.append(Family('queries that begin alike', [(b, k, o) for b in (BACKENDS if deep else ('sql', 'mysql')) for k in OPS for o in OPS[k] + ALIKE.get(k, [])], alike_cases, judge_two,
                       'two queries of a kind with the same first call, all second calls on one of them or on both'))

    def inner_cases(b):
        for inner, (_, calls) in INNER.items():
            for holder in BUILD_ONLY:
                for n in (1, 2, 3) if deep else (1, 2):
                    for ops in itertools.product(calls, repeat=n):
                        yield (b, inner, holder, ops)

    fams.append(Family('nested objects', BACKENDS, inner_cases, judge_inner, 'every nested object in every place, <=%d calls on it or on a copy' % (3 if deep else 2)))

    def condition_cases(shard):
        b, first = shard
        for terms in itertools.product(OBJECTS, repeat=2):
            for second in COMBINE:
                yield (b, terms, ((first, 0, 1), (second, 0, 2)))
                yield (b, terms, ((first, 0, 1), (second, 2, 1)))
                for third in COMBINE if deep else ('and', 'where', 'where and keyword'):
                    yield (b, terms, ((first, 0, 1), (second, 2, 1), (third, 2, 0)))

    fams.append(Family('condition objects', [(b, s) for b in (BACKENDS if deep else ('sql',)) for s in COMBINE], condition_cases, judge_conditions,
                       'all pairs of %d condition objects combined in all sequences of 2-3 ways' % len(OBJECTS)))

    def union_cases(b):
        ops = OPS['select'] if deep else OPS['select'][::2]
        for shape in ('and', 'or', 'three', 'right', 'same'):
            for side in (0, 1, 2, 'more &', 'more |', 'both', 'sub'):
                for o in ops:
                    yield (b, shape, side, (o,))
                    for p in ops[::2] if deep else ():
                        yield (b, shape, side, (o, p))

    fams.append(Family('unions', BACKENDS, union_cases, judge_union, 'calls on the operands of unions, further unions'))

    def grown_cases(shard):
        b, what, chosen = shard
        for n in chosen:
            for _, term in scale.all_terms((what,), n, b):
                kind = {'select': 'select', 'select_from': 'select', 'insert_into': 'insert', 'update': 'update', 'delete_from': 'delete', 'delete': 'delete'}[term[1]]
                last = term[4][-1:]
                for after in (last * 2, MORE[kind]):
                    yield (b, kind, term[4], after, 1 + n % 3)
                yield (b, kind, term[4][:len(term[4]) // 2], term[4][len(term[4]) // 2:], 1)
        for kind in OPS if what == 'select' else ():
            for n in chosen:
                for o in OPS[kind][::3]:
                    yield (b, kind, (o,), (o,) + MORE[kind], n + 1)

    big = [n for n in scale.sizes(tier) if n <= (1000 if deep else 33)]
    whats = ('select', 'joins', 'nested', 'insert', 'update', 'delete', 'upsert')
    fams.append(Family('copies of growing queries', [(b, w, big[i::8]) for b in (BACKENDS if deep else ('mysql',)) for w in whats for i in range(8)], grown_cases, judge_copy,
                       scale.bound(whats, big) + '; also copies of copies'))
    return fams
