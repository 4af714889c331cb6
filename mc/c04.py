"""C04: a condition selects exactly the rows its logic describes (executed on SQLite, all rows of a small table)."""
import itertools
import re
import sqlite3

from . import scale, spec
from .core import Family, Problem, builder, outcome, use
from .hist import expected
from .logic import EMPTY, and3, conditions, evaluate
from .spec import BACKENDS
from .terms import And, C, Exists, Gen, Not, Or, Q, Query, R, Rel, T, V, op, sel

ASSUMPTIONS = (
    'SQLite 3 executes the rendered text of all four backends (it accepts their quoting and literals) and its '
    'three-valued logic, IN, LIKE and IS are those of the databases',
)

ODD_NAMES = ['p%', '%s', '%(col)s', '{}', '{0}', '%%', "it''s", 'select', 'x y', 'ü']     # further columns, all equal to a
DOMAIN = [dict({'a': a, 'b': b, 's': s}, **{n: a for n in ODD_NAMES}) for a in (None, 0, 1, 2) for b in (None, 0, 1, 2) for s in (None, '', 'x', 'xy')]
BITS = ['p%d' % i for i in range(7)]
BIT_ROWS = [{'p%d' % k: i >> k & 1 for k in range(7)} for i in range(128)]
_DB = []


def db():
    if not _DB:
        con = sqlite3.connect(':memory:')
        con.create_function('regexp', 2, lambda p, t: None if t is None else int(re.search(p, t) is not None))
        con.execute('CREATE TABLE t (id INTEGER PRIMARY KEY, a, b, s, %s)' % ', '.join('"%s"' % n for n in ODD_NAMES))
        con.execute('CREATE TABLE one (z)')
        con.execute('INSERT INTO one VALUES (1)')
        con.execute('CREATE TABLE some (k)')
        con.execute('INSERT INTO some VALUES (1), (2)')
        con.execute('CREATE TABLE none (k)')
        con.execute('CREATE TABLE bits (id INTEGER PRIMARY KEY, %s)' % ', '.join(BITS))
        for i, r in enumerate(BIT_ROWS):
            con.execute('INSERT INTO bits VALUES (?%s)' % (', ?' * len(BITS)), [i] + [r[n] for n in BITS])
        for i, r in enumerate(DOMAIN):
            con.execute('INSERT INTO t VALUES (?, ?, ?, ?%s)' % (', ?' * len(ODD_NAMES)), [i, r['a'], r['b'], r['s']] + [r[n] for n in ODD_NAMES])
        con.commit()
        con.isolation_level = None
        _DB.append(con)
    return _DB[0]


def call_conditions(calls):
    out = []
    for _, args, kwds in calls:
        out += list(conditions(args, kwds))
    return out


def wanted_rows(calls, b):
    rows = []
    for i, row in enumerate(DOMAIN):
        values = [v for v in (evaluate(c, row, b) for c in call_conditions(calls)) if v is not EMPTY]
        if and3(values) is True:
            rows.append(i)
    return rows


def statement(where, calls):
    """The condition calls put into one of the clauses."""
    if where == 'where':
        return sel(op('columns', 'id'), op('from_', 't'), *calls)
    if where == 'having':
        return sel(op('columns', 'id'), op('from_', 't'), op('group_by', 'id'), *[('having',) + c[1:] for c in calls])
    if where == 'on':
        return sel(op('columns', 'id'), op('from_', 'one'), op('join', 't'), *[('on',) + c[1:] for c in calls])
    if where == 'delete':
        return Query('delete_from', *calls, args=('t',))
    return Query('update', op('set', 's', 'changed'), *calls, args=('t',))


def judge(ctx, case):
    b, where, calls = case
    use(b)
    ctx.state(where, b, calls)
    want = wanted_rows(calls, b)
    built = outcome(lambda: str(builder.build(statement(where, calls))))
    if built[0] != 'ok':
        empty = all(evaluate(c, DOMAIN[0], b) is EMPTY for c in call_conditions(calls))
        if where in ('update', 'delete') and empty and built[2]:
            return None
        return Problem('the condition was refused', want, built)
    con = db()
    if where in ('delete', 'update'):
        con.execute('BEGIN')
        got = outcome(lambda: con.execute(built[1]) and None)
        if got[0] == 'ok':
            if where == 'delete':
                left = {r[0] for r in con.execute('SELECT id FROM t')}
                got = ('ok', [i for i in range(len(DOMAIN)) if i not in left])
            else:
                got = ('ok', [r[0] for r in con.execute("SELECT id FROM t WHERE s = 'changed' ORDER BY id")])
        con.execute('ROLLBACK')
    else:
        got = outcome(lambda: sorted(r[0] for r in con.execute(built[1])))
    ctx.saw(got)
    if got[0] == 'exc' and deep_nesting(built[1]) > 20:     # beyond the stack of SQLite's parser: the text itself is compared
        ctx.count('too_deep_for_sqlite')
        text = expected(spec.text_of, statement(where, calls), b)
        same = text[0] == 'ok' and single_parentheses(text[1]) == single_parentheses(built[1])
        return None if same else Problem('rendering', text, built)
    if got != ('ok', want):
        return Problem('rows selected by %s' % built[1], want, got)
    return None


def judge_bits(ctx, case):
    """A tree over independent columns, on every valuation of them."""
    b, tree = case
    use(b)
    ctx.state(b, tree)
    want = [i for i, row in enumerate(BIT_ROWS) if evaluate(tree, row, b) is True]
    built = outcome(lambda: str(builder.build(sel(op('columns', 'id'), op('from_', 'bits'), op('where', tree)))))
    got = outcome(lambda: sorted(r[0] for r in db().execute(built[1]))) if built[0] == 'ok' else built
    ctx.saw(got)
    return None if got == ('ok', want) else Problem('rows selected by %s' % (built,), want, got)


def distinct_trees(first, n):
    """All & / | trees whose n leaves are the bits from the first on."""
    if n == 1:
        yield Q(**{BITS[first]: 1})
        return
    for k in range(1, n):
        for left in distinct_trees(first, k):
            for right in distinct_trees(first + k, n - k):
                yield And(left, right)
                yield Or(left, right)


def expressions(first, n):
    """Conditions of n different operands made of &, |, and of Q, Not with one to three arguments."""
    bit = lambda i: {BITS[i]: 1}
    if n == 1:
        yield Q(**bit(first))
        yield Not(**bit(first))
        return
    for k in range(1, n):
        for left in expressions(first, k):
            for right in expressions(first + k, n - k):
                yield Q(left, right)
                yield Not(left, right)
                for join in (And, Or):
                    tree = join(Q(left) if left[0] == 'Not' else left, Q(right) if right[0] == 'Not' else right)
                    yield tree
                    yield Not(tree)
                    yield Q(tree)
    if n == 3:
        yield Q(**bit(first), **bit(first + 1), **bit(first + 2))
        yield Not(**bit(first), **bit(first + 1), **bit(first + 2))
    for k in range(1, n - 1):
        for l in range(1, n - k):
            for x, y, z in itertools.product(expressions(first, k), expressions(first + k, l), expressions(first + k + l, n - k - l)):
                yield Q(x, y, z)
                yield Not(x, y, z)


def one_negated(tree):
    """The tree with Not put around each of its nodes in turn."""
    yield Q(Not(tree))
    if tree[0] in ('And', 'Or'):
        tag, left, right = tree
        for x in one_negated(left):
            yield T((tag, x, right))
        for x in one_negated(right):
            yield T((tag, left, x))


def deep_nesting(text):
    depth = most = 0
    for c in text:
        depth += (c == '(') - (c == ')')
        most = max(most, depth)
    return most


def single_parentheses(text):
    """The text without parentheses doubled around the same thing."""
    pairs, stack = {}, []
    for i, c in enumerate(text):
        if c == '(':
            stack.append(i)
        elif c == ')' and stack:
            pairs[stack.pop()] = i
    drop = {k for i, j in pairs.items() if pairs.get(i + 1) == j - 1 for k in (i, j)}
    return ''.join(c for i, c in enumerate(text) if i not in drop)


# ---------------------------------------------------------------- alphabet

SUB = sel(op('columns', 'k'), op('from_', 'some'))
SOME, NONE = Exists(sel(op('columns', 'k'), op('from_', 'some'))), Exists(sel(op('columns', 'k'), op('from_', 'none')))
VALUES_A = [
    1, 0, None, [1], [1, 2], [1, None], [None], (2, None, 0), [None, 1, None], range(2), Gen(1, None), Gen(2),
    Rel('EQ', 1), Rel('NE', 1), Rel('GT', 1), Rel('GE', 1), Rel('LT', 1), Rel('LE', 1), Rel('IN', [1, 2]),
    Rel('IN', [1, None]), Rel('IN', [None]), Rel('IN', 1, None), Rel('IN', 0, 2), Rel('NOT_IN', [1]),
    Rel('NOT_IN', [1, 0]), Rel('NOT_IN', [1, None]), Rel('NOT_IN', [None]), Rel('NOT_IN', [None, None, 2]),
    Rel('NOT_IN', 1, None), Rel('IN', (0,)), Rel('IN', range(1, 3)), Rel('IN', Gen(0, None)), Rel('NOT_IN', Gen(0)),
    Rel('IN', SUB), Rel('NOT_IN', SUB), Rel('IS', None), Rel('IS_NOT', None), Rel('IS', True), Rel('IS', False),
    Rel('IS_NOT', True), Rel('IS_NOT', False), R('b'), Rel('NE', R('b')), Rel('LT', R('b')), Rel('GE', R('b')),
    Rel('EQ', C('b + 1')), C('b + 1'), V(2), Rel('NE', V(2)), True, False, Rel('EQ', True), 1.0, Rel('GT', 0.5),
]
VALUES_S = ['x', '', ['x', None], ('xy', 'x'), Rel('LIKE', 'x%'), Rel('LIKE', '%y'), Rel('LIKE', '_'),
            Rel('NOT_LIKE', 'x'), Rel('NOT_LIKE', '%y%'), Rel('REGEXP', 'y$'), Rel('GT', 'x'), Rel('NE', 'xy'), None,
            Rel('NOT_IN', ['x']), Rel('NOT_IN', ['x', None])]
ODD_STRINGS = ['%s', '%(col)s', '{}', 'x%', "x'", '%%', 'x%s', ['x', 'x%s'], ['%(col)s', None], ('{0}', 'x', None), Rel('NOT_IN', ['x%s', None]),
               Rel('NOT_IN', ["x'", '%s']), Rel('LIKE', 'x%s'), Rel('NOT_LIKE', '%(col)s'), Rel('NE', '{}'), Rel('GT', '%')]
LEAVES = [('a', v) for v in VALUES_A] + [('s', v) for v in VALUES_S]
RENAMES = {
    'EQUAL_TO': 'EQ', 'NOT_EQUAL_TO': 'NE', 'GRATHER_THAN': 'GT', 'GRATHER_THAN_OR_EQUAL_TO': 'GE', 'LESS_THAN': 'LT',
    'LESS_THAN_OR_EQUAL_TO': 'LE',
}


def trees(qs, n):
    """All & / | trees with n operands from qs."""
    if n == 1:
        yield from qs
        return
    for k in range(1, n):
        for left in trees(qs, k):
            for right in trees(qs, n - k):
                yield And(left, right)
                yield Or(left, right)


SMALL_Q = [Q(), Q(a=1), Q(a=None), Q(a=1, b=2), Q(b=Rel('NE', 1)), Q(a=[2, None], s='x'), Q(Not(a=1))]
TINY_Q = [Q(), Q(a=1), Q(a=2, b=0), Q(b=Rel('NOT_IN', [1]))]


def wrap(tree):
    """Ways of putting a tree into a call."""
    yield (op('where', tree),)
    yield (op('where', Q(tree)),)
    yield (op('where', Not(tree)),)
    yield (op('where', b=1), op('where', tree))
    yield (op('where', tree), op('where', 's', 'x'))
    yield (op('where', Q(tree, Q(b=2))),)
    yield (op('where', And(Q(tree), Q(b=2))),)
    yield (op('where', Or(Q(Not(tree)), Q(b=2))),)
    yield (op('where', tree, s='x'),)
    yield (op('where', tree, Q(a=0)),)


def growing(n):
    """Conditions of size n: many calls, many operands, long lists, deep nesting."""
    some = [Q(a=i % 3) for i in range(n)]
    last = Q(b=2, s='x')
    neq = [Q(a=Rel('NE', i + 5)) for i in range(n)]
    yield tuple(op('where', 'a', Rel('NE', i + 5)) for i in range(n)) + (op('where', b=1),)
    yield (op('where', b=1),) + tuple(op('where', Q(a=Rel('NE', i + 5))) for i in range(n))
    yield tuple(op('where', Q()) for _ in range(n)) + (op('where', a=1),)
    yield tuple(op('where', Or(Q(a=1), Q(b=i))) for i in range(n)) + (op('where', s='x'),)
    yield (op('where', *(some[:1] + [Q(b=Rel('NE', i + 7)) for i in range(n)])),)
    yield (op('where', 'a', list(range(n, 2 * n)) + [1]),)
    yield (op('where', 'a', [None] + list(range(3, n + 3)) + [2]),)
    yield (op('where', 'a', Rel('NOT_IN', list(range(3, n + 3)) + [0])),)
    yield (op('where', 'a', Rel('NOT_IN', list(range(3, n + 3)) + [None, 0])),)
    yield (op('where', 's', ['q%d' % i for i in range(n)] + ['xy', None]),)
    for at in sorted({0, 1, n // 2, n - 1, n} & set(range(n + 1))):
        for rel in ('IN', 'NOT_IN'):
            values = [i + 2 for i in range(n)]
            values.insert(at, None)
            yield (op('where', 'a', Rel(rel, values)),)
            yield (op('where', Not(a=Rel(rel, values))),)
            yield (op('where', Or(Q(Not(Q(a=Rel(rel, values)), Q(b=1))), Q(b=2))),)
    for parts, final in ((some, last), (neq, last), (some, Q()), ([Q()] * n, last), (neq, Q(a=1))):
        for first, second in ((And, And), (Or, Or), (And, Or), (Or, And)):
            yield (op('where', scale.chain(lambda x, y: (first if y in parts[1::2] else second)(x, y), parts + [final])),)
            yield (op('where', scale.chain(lambda x, y: (first if x in parts[1::2] else second)(x, y), parts[-12:] + [final], True)),)
            yield (op('where', Not(scale.chain(lambda x, y: (first if y in parts[1::2] else second)(x, y), [final] + parts))),)
    m = min(n, 8)
    for inner in (Q(a=1), Or(Q(a=1), Q(b=2)), Q(a=1, b=None)):
        yield (op('where', scale.nest(m, inner, lambda x, i: Not(x))),)
        yield (op('where', scale.nest(m, inner, lambda x, i: Q(x))), op('where', b=2))
        yield (op('where', scale.nest(m, inner, lambda x, i: Or(Q(b=i % 3), And(Q(a=i % 4), Q(x))))),)
        yield (op('where', scale.nest(m, inner, lambda x, i: And(Q(b=Rel('NE', i)), Or(Q(a=i % 4), Q(Not(x)))))),)


def families(tier):
    deep = tier == 'thorough'
    fams = []
    wheres = ('where', 'having', 'on', 'delete', 'update')

    def family(name, calls_list, bound, places=wheres, backends=BACKENDS, size=300):
        calls_list = list(calls_list)
        shards = [(b, w, i) for b in backends for w in places for i in range(0, len(calls_list), size)]

        def cases(shard):
            b, w, i = shard
            for calls in calls_list[i:i + size]:
                if w == 'on' and any(uses_text(c) for c in calls):
                    continue
                yield (b, w, calls)
        fams.append(Family(name, shards, cases, judge, bound))

    singles = []
    for column, v in LEAVES:
        singles += [(op('where', column, v),), (op('where', **{column: v}),), (op('where', Q(**{column: v})),),
                    (op('where', Not(**{column: v})),), (op('where', Not(Q(column, v))),),
                    (op('where', Or(Q(**{column: v}), Q(b=2))),), (op('where', And(Q(**{column: v}), Q(b=2))),)]
    family('single conditions', singles, 'every relation and value, alone, negated, and in & and |')
    texts = ['', ' ', 'x', 'X', 'xy', 'NULL', 'null', 'None', '0', '1', 'false', '%', '_', '%y', "'"]
    many = [op('where', 's', Rel(r, x)) for x in texts for r in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE')]
    many += [op('where', 's', v) for x in texts for y in texts + [None] for v in ([x, y], Rel('IN', [x, y]), Rel('NOT_IN', [x, y]), Rel('NOT_IN', y, x), (y, x))]
    many += [op('where', 's', v) for x in texts for v in (x, [x], Rel('IN', [x]), Rel('NOT_IN', (x,)), V(x), Rel('NE', V(x)), Rel('IN', Gen(x)))]
    many += [op('where', 'a', Rel(r, x)) for r in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE') for x in (0, 1, 2, -1, 3, 0.0, 1.0, 0.5, 1.5, True, False) if type(x) is not bool or r in ('EQ', 'NE')]
    many += [op('where', 'a', v) for x in (0, 1, 2, 0.0, True, False) for y in (0, 1, None, True, 2.0) for v in ([x, y], Rel('IN', [x, y]), Rel('NOT_IN', [x, y]), Rel('NOT_IN', y, x))]
    family('all relations of all values', [(o,) for o in many] + [(op('where', Not(*o[1])),) for o in many], 'every relation with %d texts and 11 numbers, and negated' % len(texts), ('where', 'delete') if not deep else wheres)
    odd = []
    for column in ODD_NAMES + [C('a % 2'), C('a + 1'), C("a * length('%(val)s')"), V(1), V(None)]:
        for v in VALUES_A:
            odd += [(op('where', column, v),), (op('where', Not(Q(column, v))),), (op('where', Or(Q(column, v), Q(b=2))),)]
    for v in ODD_STRINGS:
        odd += [(op('where', 's', v),), (op('where', Not(s=v)),), (op('where', Or(Q(s=v), Q(b=2))),), (op('where', C("s || '%s'"), v),)]
    family('unusual columns', odd, 'every relation and value on %d columns whose text looks like a template or is an expression' % (
        len(ODD_NAMES) + 5), ('where', 'on', 'delete') if not deep else wheres)
    family('pairs of conditions', [
        c for (l, v), (m, w) in itertools.product(LEAVES, repeat=2) for c in (
            (op('where', l, v), op('where', m, w)),
            (op('where', Or(Q(**{l: v}), Q(**{m: w}))),),
            (op('where', Not(And(Q(**{l: v}), Q(**{m: w})))),))
    ], 'all pairs of conditions in sequence, or, not-and', ('where',), BACKENDS if deep else ('sql', 'postgresql'), 800)
    family('exists', [c for e in (SOME, NONE) for f in (SOME, NONE, Q(a=1), Not(a=1)) for c in (
        (op('where', e),), (op('where', Not(e)),), (op('where', e), op('where', f)), (op('where', e, f),),
        (op('where', Q(e)),), (op('where', Or(Q(e), Q(f))),), (op('where', And(Q(f), Q(Not(e)))),))], 'EXISTS and NOT')
    small = list(itertools.chain.from_iterable(trees(SMALL_Q, n) for n in (1, 2)))
    family('wrapped trees', [c for t in small for c in wrap(t)],
           'all trees of <=2 of %d Q objects in %d ways of calling' % (len(SMALL_Q), 10), wheres if deep else (
               'where', 'on', 'delete'))
    family('trees of three', ((op('where', t),) for t in trees(SMALL_Q, 3)), 'all trees of 3 of %d Q objects' % len(
        SMALL_Q), wheres if deep else ('where',), BACKENDS if deep else ('sql', 'mysql'), 600)
    family('trees of four', ((op('where', t),) for t in trees(TINY_Q, 4)), 'all trees of 4 of %d Q objects' % len(
        TINY_Q), ('where',), BACKENDS if deep else ('sql',), 800)
    if deep:
        family('trees of five', ((op('where', t),) for t in trees(TINY_Q[:3], 5)), 'all trees of 5 of 3 Q objects',
               ('where',), ('sql',), 2000)
        family('wrapped trees of three', [c for t in trees(SMALL_Q[:5], 3) for c in wrap(t)],
               'all trees of 3 of 5 Q objects in 10 ways of calling', ('where', 'having'), ('sql',), 2000)
        family('triples', [
            (op('where', l, v), op('where', Or(Q(**{m: w}), Q(Not(**{n: u})))),)
            for (l, v), (m, w), (n, u) in itertools.product(LEAVES[::3], repeat=3)],
            'all triples of every third condition: p AND (q OR NOT r)', ('where',), ('sql',), 2000)

    def bit_cases(shard):
        b, n, k, negated = shard
        for i, t in enumerate(distinct_trees(0, n)):
            if i % 8 == k:
                yield from ((b, x) for x in one_negated(t)) if negated else ((b, t),)

    top = 7 if deep else 6
    fams.append(Family('trees of independent operands', [(b, n, k, False) for b in BACKENDS for n in range(1, top + 1) for k in range(8)], bit_cases, judge_bits,
                       'all & / | trees of <=%d different operands, on every valuation' % top))
    fams.append(Family('trees with one negation', [(b, n, k, True) for b in (BACKENDS if deep else ('sql', 'postgresql')) for n in range(1, top) for k in range(8)], bit_cases, judge_bits,
                       'all & / | trees of <=%d different operands with one node negated, on every valuation' % (top - 1)))

    def expression_cases(shard):
        b, n, k = shard
        for i, t in enumerate(expressions(0, n)):
            if i % 8 == k:
                yield (b, t)

    fams.append(Family('expressions', [(b, n, k) for b in BACKENDS for n in (1, 2, 3, 4) if n < 4 or deep or b == 'sql' for k in range(8)], expression_cases, judge_bits,
                       'all conditions of <=%d different operands made of &, |, Q and Not with one to three arguments, on every valuation' % 4))
    calls = [op('where', a=1), op('where', Q()), op('where', Or(Q(a=1), Q(b=2))), op('where', Q(a=1, b=None)),
             op('where', b=[1, None]), op('where', Not(b=2)), op('where', Q(Q(a=2), Q(b=1))),
             op('where')]
    family('call sequences', [s for n in (1, 2, 3, 4 if deep else 3) for s in itertools.product(calls, repeat=n)],
           'all sequences of condition calls')

    family('growing conditions', [c for n in scale.sizes(tier) for c in growing(n)], 'conditions growing in every way: sizes 0-%d and up to %d' % (60 if deep else 24, scale.sizes(tier)[-1]),
           wheres if deep else ('where', 'on', 'delete'), BACKENDS if deep else ('sql', 'postgresql'), 25)

    def alias_cases(shard):
        for long, short in RENAMES.items():
            yield (shard, 'where', (op('where', 'a', Rel(long, 1)),), (op('where', 'a', Rel(short, 1)),))

    def judge_alias(ctx, case):
        b, where, real, meaning = case
        use(b)
        want = wanted_rows(meaning, b)
        text = str(builder.build(statement(where, real)))
        got = outcome(lambda: sorted(r[0] for r in db().execute(text)))
        ctx.state(b, real)
        ctx.saw(got)
        return None if got == ('ok', want) else Problem('rows selected by ' + text, want, got)

    fams.append(Family('long relation names', BACKENDS, alias_cases, judge_alias, 'all long names of relations'))
    return fams


def uses_text(call):
    """In ON a bare string is a reference, so the text leaves are not comparable there."""
    for item in call[1]:
        if type(item) is str and item == 's' or item == C("s || '%s'"):
            return True
    return any(k == 's' for k, _ in call[2])
