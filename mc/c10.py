"""C10: inserted rows and updated columns are exactly what the caller gave."""
import datetime
import decimal
import itertools
import sqlite3

from . import scale
from .core import Family, Problem, builder, outcome, use
from .hist import judge_query, query_term
from .spec import BACKENDS
from .terms import C, D, OD, Q, Query, R, V, op, sel

ASSUMPTIONS = (
    'SQLite 3 executes the rendered INSERT and UPDATE statements of all four backends; string and bytes values in the '
    'executed families are ones whose literals mean the same on all of them',
)

COLUMNS = ('a', 'b', 'c')
ALL_COLUMNS = ('a', 'b', 'c', 'B', 'aa')
_DB = []


def db():
    if not _DB:
        con = sqlite3.connect(':memory:', isolation_level=None)
        con.execute('CREATE TABLE t (a, b, c, aa, z)')
        _DB.append(con)
    return _DB[0]


def execute(text, before, read):
    """Runs the statement on a fresh content of the table and rolls back."""
    con = db()
    con.execute('BEGIN')
    try:
        for row in before:
            con.execute('INSERT INTO t (a, b, c, aa, z) VALUES (?, ?, ?, ?, ?)', row)
        con.execute(text)
        return con.execute(read).fetchall()
    finally:
        con.execute('ROLLBACK')


def styles(items):
    """All spellings of a row; items may repeat a column (then only lists can say it)."""
    items = tuple(items)
    out = []
    distinct = len(dict(items)) == len(items)
    if distinct:
        out += [((), items), ((D(*items),), ()), ((OD(*items),), ())]
    if len(items) > 1:
        out += [(items, ())]
    out += [((list(items),), ())]
    if len(items) == 1:
        out += [(items[0], ())]
    for k in range(1, len(items)):
        if len(dict(items[k:])) == len(items[k:]) and distinct:
            out += [((list(items[:k]),), items[k:]), ((D(*items[:k]),), items[k:])]
    return out


def cell(x):
    """The value SQLite gives back for a value."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, decimal.Decimal):
        return float(x)
    if isinstance(x, (datetime.date, datetime.datetime)):
        return x.isoformat()
    return x


def judge_insert(ctx, case):
    """case: (backend, rows as lists of items, calls): table content after executing the statement."""
    b, rows, calls, extra = case
    use(b)
    text = outcome(lambda: str(builder.build(Query('insert_into', *calls, args=('t',)))))
    ctx.saw(text)
    ctx.state(b, calls)
    if text[0] != 'ok':
        return Problem('the statement was refused', 'SQL', text)
    if text[1].startswith('INSERT IGNORE'):         # SQLite spells it differently
        text = ('ok', 'INSERT' + text[1][len('INSERT IGNORE'):])
    want = [tuple(cell(dict(row).get(c)) for c in ('a', 'b', 'c', 'aa')) for row in rows]
    got = outcome(execute, text[1], (), 'SELECT a, b, c, aa FROM t ORDER BY rowid')
    if got[0] != 'ok' or not same_rows(got[1], want):
        return Problem('rows created by %s' % text[1], want, got)
    return None


def same_rows(got, want):
    return len(got) == len(want) and all(
        len(g) == len(w) and all(type(x) is type(y) and x == y for x, y in zip(g, w)) for g, w in zip(got, want))


TABLE = [(1, 'x', None, 0.5, 10), (2, 'y', 'k', None, 20), (None, None, None, None, 30)]


def judge_update(ctx, case):
    b, items, calls = case
    use(b)
    text = outcome(lambda: str(builder.build(Query('update', *calls, args=('t',)))))
    ctx.saw(text)
    ctx.state(b, calls)
    if text[0] != 'ok':
        return Problem('the statement was refused', 'SQL', text)
    new = dict(items)
    want = [tuple(cell(new.get(c, v)) if c in new else v for c, v in zip(('a', 'b', 'c', 'aa', 'z'), row)) for row in TABLE]
    if any(o[0] == 'where' for o in calls):
        want = [w if row[4] == 20 else row for w, row in zip(want, TABLE)]
    sql = text[1].replace('UPDATE IGNORE', 'UPDATE OR IGNORE')
    got = outcome(execute, sql, TABLE, 'SELECT a, b, c, aa, z FROM t ORDER BY rowid')
    if got[0] != 'ok' or not same_rows(got[1], want):
        return Problem('table after %s' % text[1], want, got)
    return None


VALUES = [1, 0, None, '', 'x', "it's", 2.5, True, False, -3, b'\x00\xff', decimal.Decimal('1.25'), 'NULL', 10 ** 12]


def families(tier):
    deep = tier == 'thorough'
    fams = []
    subsets = [s for n in range(1, 4) for s in itertools.permutations(COLUMNS, n)]      # 15 ordered column sets
    sets = [s for n in range(1, 4) for s in itertools.combinations(COLUMNS, n)]         # 7

    def fill(row, columns):
        return tuple((c, '%s%d' % (c, row) if c != 'b' else row * 10) for c in columns)

    def row_cases(shard):
        """<=3 rows, all column sets in all, each row in one style; all styles for 1-2 rows."""
        b, n, first = shard
        for chosen in itertools.product(subsets if n < 3 or deep else sets, repeat=n - 1):
            rows = [fill(i, c) for i, c in enumerate((first,) + chosen)]
            spelled = [styles(r) for r in rows]
            if n > 2:
                spelled = [s[(i + len(c)) % len(s)::3][:2 if deep else 1] for i, (s, c) in enumerate(zip(spelled, (first,) + chosen))]
            for combo in itertools.product(*spelled):
                yield (b, rows, tuple(('values',) + s for s in combo), ())

    shards = [(b, n, s) for b in (BACKENDS if deep else ('sqlite', 'mysql')) for n in (1, 2, 3) for s in (subsets if n < 3 or deep else sets)]
    fams.append(Family('rows executed', shards, row_cases, judge_insert, 'all ordered column sets of <=3 rows over 3 columns, all spellings for <=2 rows'))
    if deep:
        def four(shard):
            b, first = shard
            for chosen in itertools.product(sets, repeat=3):
                rows = [fill(i, c) for i, c in enumerate((first,) + chosen)]
                yield (b, rows, tuple(op('values', D(*r)) for r in rows), ())
        fams.append(Family('four rows executed', [(b, s) for b in BACKENDS for s in sets], four, judge_insert, 'all column sets of 4 rows'))

    def value_cases(b):
        values = [v for v in VALUES if not (b == 'postgresql' and isinstance(v, (bytes, bool)))]
        for v, w in itertools.product(values, repeat=2):
            for rows in ([(('a', v), ('b', w))], [(('a', v),), (('b', w),)], [(('b', v),), (('b', w), ('a', 1))]):
                for combo in itertools.product(*(styles(r) for r in rows)):
                    yield (b, rows, tuple(('values',) + s for s in combo), ())
        # a column named twice in a row: the last value counts
        for v, w, x in itertools.product(values[:6], repeat=3):
            for items in ((('a', v), ('a', w)), (('a', v), ('b', x), ('a', w)), (('b', v), ('a', x), ('b', w), ('c', 1))):
                for s in styles(items):
                    yield (b, [items], (('values',) + s,), ())
                    yield (b, [items, (('c', x),)], (('values',) + s, op('values', c=x)), ())
            yield (b, [(('a', w), ('b', x))], (op('values', D(('a', v)), a=w, b=x),), ())

    fams.append(Family('values executed', BACKENDS, value_cases, judge_insert, 'all pairs of %d values in 1-2 rows, columns named twice' % len(VALUES)))

    def update_cases(b):
        values = [v for v in VALUES if not (b == 'postgresql' and isinstance(v, (bytes, bool)))]
        wheres = ((op('allow_update_all'),), (op('where', 'z', 20),), (op('allow_update_all'), op('where', 'z', 20)))
        for columns in subsets:
            items = fill(7, columns)
            for s in styles(items):
                for w in wheres:
                    yield (b, items, (('set',) + s,) + w)
                    yield (b, items, w + (('set',) + s,))
                    yield (b, items, w[:1] + (op('ignore'), ('set',) + s) + w[1:])
            for k in range(1, len(items)):
                for s in styles(items[:k]):
                    for r in styles(items[k:]):
                        yield (b, items, (('set',) + s, op('where', 'z', 20), ('set',) + r))
        for v, w in itertools.product(values, repeat=2):
            for s in styles((('a', v), ('aa', w))):
                yield (b, (('a', v), ('aa', w)), (('set',) + s, op('where', 'z', 20)))

    fams.append(Family('updates executed', BACKENDS, update_cases, judge_update, 'all ordered column sets in all spellings and splits'))

    # The text itself: columns once and sorted, rows aligned.
    names = ['b', 'a', 'B', 'aa', 'a.b', '_', 'A'] if deep else ['b', 'a', 'B', 'aa', 'a.b']

    def column_cases(b):
        for n in range(1, len(names) + 1):
            for perm in itertools.permutations(names, n):
                items = [(c, i) for i, c in enumerate(perm)]
                yield (b, Query('insert_into', op('values', items), args=('t',)))
                for k in range(1, n):
                    yield (b, Query('insert_into', op('values', items[:k]), op('values', items[k:]), args=('t',)))
        for n in (2, 3, 4):
            for chosen in itertools.product([(), ('a',), ('b',), ('b', 'a'), ('c', 'a')], repeat=n):
                yield (b, Query('insert_into', *[op('values', *([[(c, i) for c in r]] if r else [])) for i, r in enumerate(chosen) if r or n < 4],
                                args=('t',))) if any(chosen) and all(chosen) else (b, Query('insert_into', op('values', a=1), args=('t',)))

    fams.append(Family('column lists', ('sql',) if not deep else BACKENDS, column_cases, judge_query, 'all orders of <=%d column names in 1-2 rows' % len(names)))

    # Assembly: all orders of calls.
    SUB = sel(op('columns', 'k'), op('from_', 's'))
    upsert = {'mysql': [op('on_duplicate_key_update', a=1), op('on_duplicate_key_update', [('b', None), ('c', C('VALUES(c)'))])],
              'postgresql': [op('on_duplicate_key_update', 'id', a=1), op('on_duplicate_key_update', 'k', [('b', None), ('c', V('x'))])],
              'sqlite': [op('on_duplicate_key_update')], 'sql': [op('on_duplicate_key_update', a=1)]}
    assembly = {
        'insert': lambda b: [op('values', b=1), op('values', a='x', c=SUB), op('ignore'), op('ignore', False)] + upsert[b],
        'update': lambda b: [op('set', b=1), op('set', [('c', SUB), ('a', R('d'))]), op('ignore'), op('ignore', False), op('join', 'j'), op('left_join', ('k', 'kk')), op('on', 't.a', 'j.b'),
                             op('where', 'a', 1), op('where', Q(b=2, c=3)), op('allow_update_all'), op('table', ('u', 'x'))],
        'delete': lambda b: [op('delete', 'u', ('v', 'x')), op('ignore'), op('ignore', False), op('join', 'j'), op('right_join', ('k', 'kk')), op('on', 't.a', 'j.b'), op('from_', 'w', ('x', 'y')),
                             op('from_table', 'p', 'q'), op('where', 'a', 1), op('where', Q(b=2, c=3)), op('allow_delete_all')],
    }
    starts = {'insert': (('insert_into', ('t',)), ('insert', ())), 'update': (('update', ('t',)),), 'delete': (('delete_from', ('t',)), ('delete', ('t',)), ('delete', ()))}

    def sequences(shard):
        b, kind, (ctor, args), n, first = shard
        ops = assembly[kind](b)
        for rest in itertools.product(ops, repeat=n - len(first)):
            yield (b, query_term(ctor, first + rest, args))

    shards = []
    for kind in assembly:
        for b in BACKENDS if deep else ('sql', 'mysql') if kind != 'insert' else BACKENDS:
            for start in starts[kind]:
                for n in range(0, (5 if kind == 'insert' or (deep and b == 'sql') else 4 if deep else 3) + 1):
                    for first in itertools.product(assembly[kind](b), repeat=min(n, 1)):
                        shards.append((b, kind, start, n, first))
    fams.append(Family('call sequences', shards, sequences, judge_query, 'all sequences of <=3-5 calls of INSERT, UPDATE and DELETE'))

    def orders(shard):
        b, kind, (ctor, args), skip = shard
        ops = [o for o in assembly[kind](b) if o != op('ignore', False)]
        ops = [o for i, o in enumerate(ops) if (i + skip) % 3 or len(ops) < 7][:6 if not deep else 7]
        for perm in itertools.permutations(ops):
            yield (b, query_term(ctor, perm, args))

    shards = [(b, kind, start, skip) for kind in assembly for b in BACKENDS for start in starts[kind] for skip in range(3)]
    fams.append(Family('call orders', shards, orders, judge_query, 'all orders of windows of 6-7 calls'))
    # A column assigned again, with every kind of value.
    again = [(c, v) for c in ('a', 'b') for v in (None, 0, False, '', 1, True, 'x', '1', 2.5, V(None), R('b'), C('NULL'))]

    def again_cases(shard):
        b, first = shard
        for n in (1, 2) if not deep else (1, 2, 3):
            for rest in itertools.product(again if n < 3 else again[::2], repeat=n):
                items = [first] + list(rest)
                for calls in ([op('set', items)], [op('set', *i) for i in items], [op('set', *items)], [op('set', items[:1]), op('set', items[1:])]):
                    yield (b, Query('update', *calls, op('where', 'z', 1), args=('t',)))
                yield (b, Query('insert_into', op('values', items), op('values', a=7), args=('t',)))
                if b in ('mysql', 'postgresql'):
                    to = ('k',) if b == 'postgresql' else ()
                    yield (b, Query('insert_into', op('values', a=7), op('on_duplicate_key_update', *to, items), args=('t',)))
                    yield (b, Query('insert_into', *[op('on_duplicate_key_update', *to, [i]) for i in items], op('values', a=7), args=('t',)))

    fams.append(Family('columns assigned again', [(b, f) for b in (BACKENDS if deep else ('mysql', 'postgresql')) for f in again], again_cases, judge_query,
                       'all sequences of <=%d assignments of %d column/value pairs, in one and several calls' % (4 if deep else 3, len(again))))
    def ignore_cases(b):
        given = [(), (True,), (False,), (0,), (1,), (None,), ('',), ('x',), ([],), ([0],), (0.0,), (2,)]
        for chosen in itertools.chain(itertools.product(given, repeat=1), itertools.product(given, repeat=2)):
            calls = [op('ignore', *g) for g in chosen]
            for query in (Query('insert_into', op('values', a=1), *calls, args=('t',)), Query('insert_into', *calls, op('values', a=1), args=('t',)), Query('update', op('set', a=1), *calls, op('where', b=1), args=('t',)),
                          Query('delete_from', *calls, op('where', b=1), args=('t',))):
                yield (b, query)

    fams.append(Family('IGNORE given anything', BACKENDS, ignore_cases, judge_query, 'all pairs of 12 true and false values'))
    fams.append(scale.family(tier, ('insert', 'update', 'delete', 'upsert'), BACKENDS if deep else ('mysql', 'postgresql')))
    return fams
