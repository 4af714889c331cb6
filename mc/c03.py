"""C03: typed values render as the exact SQL literal of that value."""
import datetime
import itertools
import sqlite3
import sys
from decimal import Decimal

from . import scale, spec
from .core import Family, Problem, builder, outcome, use
from .hist import differs, expected
from .positions import VALUE, term_at
from .spec import BACKENDS
from .terms import C, Gen, Rel, Sub, Un, V, op, plain, sel

ASSUMPTIONS = (
    'the default decimal context (ROUND_HALF_EVEN); non-finite floats and Decimals are outside the statement',
)

POSITIONS = list(VALUE) + ['upsert']
SUB = sel(op('columns', 'id'), op('from_', 's'), op('where', 'x', 1))

INTS = sorted({s * (2 ** k + d) for k in list(range(0, 70)) + [100, 128, 333] for d in (-1, 0, 1) for s in (1, -1)}
              | {s * (10 ** k + d) for k in range(0, 40) for d in (-1, 0, 1) for s in (1, -1)})
FLOATS = [s * x for s in (1, -1) for x in (
    0.0, 0.1, 0.5, 1.0, 1.5, 2.675, 0.000005, 0.000015, 0.0000049, 0.00001, 0.99999, 0.999995, 0.999994, 9.999995, 1e-5,
    1e-6, 1e-300, 5e-324, 1e5, 123456.789, 1e15, 1e16, 1e21, 1e22, 1e23, 1e100, 1e300, sys.float_info.max,
    sys.float_info.min, 2.0 ** 53, 2.0 ** 53 + 2, 12345678.123456789, 0.3, 1 / 3, 100.0, 1e-4)]
DECIMALS = [Decimal(x) for x in (
    '0', '-0', '1', '-1', '1.5', '0.1', '0.000005', '0.000015', '0.000025', '-0.000005', '0.0000051', '0.00000500001',
    '1E+5', '1E-5', '1E-6', '1E+30', '-1E+30', '123456789012345678901234567890.123455', '0.999995', '9.999985', '100',
    '100.00', '12345678901234567890123456789012345678901234567890.1', '1.00000', '1.000000', '-12.34567', '1E-30')]
DATES = [datetime.date(y, m, d) for y in (1, 999, 1582, 1899, 1970, 2000, 2024, 9999) for m in (1, 2, 9, 10, 12)
         for d in (1, 9, 10, 28)] + [datetime.date(2024, 2, 29), datetime.date(9999, 12, 31), datetime.date.min]
TZ = datetime.timezone
DATETIMES = [datetime.datetime(y, 3, 4, h, mi, s, us) for y in (1, 999, 1970, 2038, 9999) for h, mi, s, us in (
    (0, 0, 0, 0), (23, 59, 59, 999999), (12, 30, 0, 0), (1, 2, 3, 4), (0, 0, 0, 1), (5, 0, 0, 100000))] + [
    datetime.datetime(2020, 1, 2, 3, 4, 5, us, tz) for us in (0, 6)
    for tz in (TZ.utc, TZ(datetime.timedelta(hours=2)), TZ(datetime.timedelta(hours=-5, minutes=-30)))]
BYTES = [bytes([i]) for i in range(256)] + [b'', b'ab', b"'", b'\\', b'\x00\x00', b'\xff' * 40, bytes(range(256)), b'%s']
ATOMS = [None, True, False, 0, 1, -7, 2.5, Decimal('1.25'), 'x', '', "o'k", b'\x01', datetime.date(2020, 1, 2),
         datetime.datetime(2020, 1, 2, 3, 4, 5), C('now()'), V(3), V('v'), SUB]
MAIN = [None, True, False, 0, 1, -1, 12, 10 ** 30, 0.0, 1.5, -2.000005, Decimal('0.1'), Decimal('-3.000005'),
        b'', b'\x00\xff', b"'\\", datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5, 6),
        datetime.datetime(2020, 1, 2, tzinfo=TZ.utc), 'x', [1, 2], (None, 3), range(3), range(5, 0, -2), [True, 1.5, 'x'],
        [b'\x01', datetime.date(2020, 1, 2)], [], (), range(0), SUB, Un(SUB, '|', SUB), C('now()'), V(1), V(None), V([1]),
        [[1, 2], [3, 4]], [None], [None, None], [SUB]]

TELLING = [1, True, 1.0, Decimal(1), '1', b'1', 0, False, 0.0, -0.0, Decimal(0), Decimal('-0'), '', b'', None, 'None', 'x', b'x', C('x'), V('x'), 2, 2.5, Decimal('2.5'), datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2),
           '2020-01-02', datetime.datetime(2020, 1, 2, tzinfo=TZ.utc), datetime.datetime(2020, 1, 2, 2, tzinfo=TZ(datetime.timedelta(hours=2))), [1], [True], (1,), [1.0], ['1'], range(1, 2), C('1'), V(1), V(True), 1e20, 10 ** 20, 'true', '0', SUB]


LISTS = {
    'IN': lambda v: sel(op('from_', 't'), op('where', 'c', Rel('IN', v))),
    'NOT IN': lambda v: sel(op('from_', 't'), op('where', 'c', Rel('NOT_IN', v))),
    'IN arguments': lambda v: sel(op('from_', 't'), op('where', 'c', Rel('IN', *v))),
    'NOT IN having': lambda v: sel(op('from_', 't'), op('having', 'c', Rel('NOT_IN', *v))),
    'ON IN': lambda v: sel(op('from_', 't'), op('join', 'j'), op('on', 'c', Rel('IN', v))),
}


def whole(b, position, value):
    if position in LISTS:
        return LISTS[position](value) if value != 0 else sel()
    return term_at(VALUE, position, b, value)


def judge(ctx, case):
    """The complete statement is the one with exactly the demanded literal in the place of the value."""
    b, position, value = case
    use(b)
    ctx.state(b, position, value)
    got = outcome(lambda: str(builder.build(whole(b, position, value))))
    want = expected(spec.text_of, whole(b, position, plain(value)), b)
    ctx.saw(got)
    if differs(want, got):
        return Problem('literal', want, got)
    return None


def judge_set(ctx, case):
    """Sets: all elements, each once, in whatever order."""
    b, kind, items, relation = case
    use(b)
    ctx.state(*case)
    real = {'set': set, 'frozenset': frozenset}[kind](items)
    distinct = {'set': set, 'frozenset': frozenset}[kind](items)
    got = outcome(lambda: str(builder.sp.V(real)))
    ctx.saw(got)
    if relation:
        got = outcome(lambda: str(builder.sp.Q(c=getattr(builder.sp.relations, relation)(real))))
        nulls = None in distinct
        rest = [spec.val(v, b) for v in distinct if v is not None]
        column = spec.ident('c', b)
        word, glue, null = ('IN', ' OR ', 'IS NULL') if relation == 'IN' else ('NOT IN', ' AND ', 'IS NOT NULL')
        if not rest:
            if not nulls:
                return None if got[0] == 'exc' and got[2] else Problem('empty set', 'rejected', got)
            return None if got == ('ok', column + ' ' + null) else Problem('set', column + ' ' + null, got)
        if got[0] != 'ok':
            return Problem('set', rest, got)
        head = column + ' ' + word + ' ('
        tail = ')'
        if nulls:
            head, tail = '(' + head, ')' + glue + column + ' ' + null + ')'
    else:
        rest = [spec.val(v, b) for v in distinct]
        if not rest:
            return None if got[0] == 'exc' and got[2] else Problem('empty set', 'rejected', got)
        head, tail = '(', ')'
    if got[0] != 'ok' or not got[1].startswith(head) or not got[1].endswith(tail) or \
            sorted(got[1][len(head):-len(tail)].split(', ')) != sorted(rest):
        return Problem('set', (head, sorted(rest), tail), got)
    return None


_DB = []


def judge_sqlite(ctx, case):
    """SQLite itself reads the literal back as the value."""
    b, value = case
    use(b)
    ctx.state(b, value)
    if not _DB:
        _DB.append(sqlite3.connect(':memory:'))
    literal = str(builder.build(V(value)))
    got = outcome(lambda: _DB[0].execute('SELECT ' + literal).fetchone()[0])
    ctx.saw(got)
    if isinstance(value, bool):
        want = int(value)
    elif isinstance(value, (float, Decimal)):
        if got[0] != 'ok' or abs(got[1] - float(value)) > max(6e-6, abs(float(value)) * 1e-12):
            return Problem('SQLite reads another number', value, (literal, got))
        return None
    else:
        want = value
    if got != ('ok', want) or type(got[1]) is not type(want):
        return Problem('SQLite reads another value', want, (literal, got))
    return None


def collections(n):
    for k in range(0, n + 1):
        for items in itertools.product(ATOMS, repeat=k):
            yield list(items)
            yield tuple(items)
            yield Gen(*items)


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, positions, values, bound, size=400, backends=BACKENDS):
        values = list(values)
        shards = [(b, position, i) for b in backends for position in positions for i in range(0, len(values), size)]

        def cases(shard):
            b, position, i = shard
            if whole(b, position, 0) is None:
                return
            for value in values[i:i + size]:
                yield (b, position, value)
        fams.append(Family(name, shards, cases, judge, bound))

    family('values everywhere', POSITIONS, MAIN, 'every value position x %d values of every kind' % len(MAIN))
    family('subclasses everywhere', ['V', 'where pair', 'insert', 'update', 'IN first', 'EQ'], [
        Sub(v) for v in (datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=TZ.utc))] + [
        Sub(v, kind) for kind in ('plain', 'text', 'enum') for v in (0, 7, -3, 10 ** 20, 1.5, -0.0, 1e22, 0.000005, Decimal('1.5'), Decimal('0.000005'), Decimal('1E+30'), 'x', '', "o'k")] + [
        [Sub(7, 'enum'), None, Sub('x', 'enum')], [Sub(1, 'enum'), 1, Sub(1, 'text')], [Sub('x', 'text'), 'x', Sub('y', 'enum')]], 'instances of subclasses of the plain types')
    family('subclasses of containers', ['V', 'insert', 'IN first'], [Sub(b'x\xff'), Sub([1, None]), Sub((1, 'x')), Sub([]), Sub((1, 2), 'named'), Sub((Sub(1.5, 'text'), 2), 'named'), Sub([1], 'text'), Sub([[1], Sub((2,))])],
           'instances of subclasses of bytes, list and tuple')
    grid = INTS + FLOATS + DECIMALS + DATES + DATETIMES + BYTES + [None, True, False]
    family('grid', ['V', 'insert'], grid, '%d boundary values of every type' % len(grid))
    family('grid in conditions', ['where pair', 'LE', 'IN with None'], INTS + FLOATS + DECIMALS + DATES + DATETIMES,
           'boundary values as condition values')
    steps = 20000 if deep else 3000
    family('rounding of floats', ['V'], [s * n / 1e6 for n in range(0, steps) for s in (1, -1)] +
           [n / 128 for n in range(-3000, 3000)], 'all n/1e6 for |n|<%d and n/128' % steps, 2000, ('sql', 'postgresql'))
    family('rounding of decimals', ['V'], [Decimal(s * n).scaleb(-6) for n in range(0, steps) for s in (1, -1)] +
           [Decimal(n).scaleb(-7) for n in range(0, steps)] + [Decimal(7).scaleb(e) for e in range(-40, 40)],
           'all n*10^-6 and n*10^-7 for n<%d' % steps, 2000, ('sql', 'postgresql'))
    family('integers', ['V'], range(-(20000 if deep else 3000), 20000 if deep else 3000), 'a dense range of integers', 4000)
    family('byte pairs', ['V'], (bytes(p) for p in itertools.product(
        range(256), range(256) if deep else (0, 9, 10, 15, 16, 39, 92, 127, 128, 255))), 'two bytes', 4000)
    family('days', ['V'], (datetime.date.fromordinal(o) for o in range(730000, 730000 + (8000 if deep else 800))),
           'consecutive days', 4000)
    family('years', ['V'], [datetime.date(y, 12, 31) for y in range(1, 10000)] + [datetime.datetime(y, 1, 1) for y in range(1, 10000, 1 if deep else 7)], 'the last day of every year, the first moment of years', 4000)
    zones = [TZ(datetime.timedelta(minutes=m)) for m in range(-23 * 60 - 45, 24 * 60, 15)] + [TZ(datetime.timedelta(seconds=s)) for s in (1, -1, 3599, -3601)] + [TZ(datetime.timedelta(hours=3), 'X'), TZ.utc]
    family('moments', ['V', 'where pair'], [datetime.datetime(2021, 11, 30, h, m, s, us) for h in range(24) for m in (0, 1, 59) for s in (0, 9, 59) for us in (0, 1, 999, 1000, 120000, 999999)] + [
        datetime.datetime(2021, 11, 30, 7, m, s) for m in range(60) for s in range(0, 60, 1 if deep else 4)] + [datetime.datetime(2021, 11, 30, 7, 8, 9, 10 ** k) for k in range(6)] + [
        datetime.datetime(2021, 11, 30, 0, 0, 0, us, z) for z in zones for us in (0, 5)] + [datetime.datetime(2021, 11, 30, 1, 30, fold=1), datetime.datetime(2021, 11, 30, 1, 30, tzinfo=TZ.utc, fold=1)],
        'times of a day of every hour and minute, %d time zones' % len(zones), 1000)
    n = 3 if deep else 2
    family('collections', ['V', 'where pair'], collections(n), 'all lists/tuples/generators of <=%d of %d atoms' % (
        n, len(ATOMS)), 1000)
    equal = [1, True, 1.0, Decimal(1), '1', b'1', C('1'), V(1), 0, False, '', None, 2]
    family('equal elements', ['V', 'where pair'] + list(LISTS), [list(p) for k in (1, 2, 3) for p in itertools.product(equal, repeat=k)] + [
        tuple(p) for p in itertools.product(equal[:6], repeat=4 if deep else 3)],
        'all lists of <=3 of %d elements, most of them equal in Python' % len(equal), 1000)
    family('ranges', ['V', 'where pair'], [range(a, z, s) for a in range(-3, 4) for z in range(-3, 4)
                                           for s in (-2, -1, 1, 2)], 'small ranges with every start, end and step')
    nests = [a for a in (1, None, 'x', (1,), [1, 2], ((1, 2), 3), Gen(1), [Gen(1, 2)], range(2))]
    family('nested collections', ['V'], [list(p) for k in (1, 2, 3) for p in itertools.product(nests, repeat=k)],
           'nested lists')
    set_atoms = [None, 0, 5, -3, 2.5, 'x', 'y', "o'k", b'\x01']

    def set_cases(shard):
        b, kind = shard
        for k in range(0, 5 if deep else 4):
            for items in itertools.combinations(set_atoms, k):
                for relation in (None, 'IN', 'NOT_IN'):
                    yield (b, kind, items, relation)

    fams.append(Family('sets', [(b, k) for b in BACKENDS for k in ('set', 'frozenset')], set_cases, judge_set,
                       'sets of <=%d of %d elements' % (4 if deep else 3, len(set_atoms))))

    def executed(shard):
        b, values = shard
        for value in values:
            yield (b, value)

    plain = [v for v in INTS if -2 ** 63 < v < 2 ** 63] + [None] + [v for v in FLOATS if abs(v) < 1e14] + [
        d for d in DECIMALS if abs(d) < 10 ** 14]
    fams.append(Family('SQLite execution', [
        ('sqlite', plain + BYTES + [True, False]), ('sql', plain + BYTES + [True, False]), ('mysql', plain + BYTES),
        ('postgresql', plain + [True, False])], executed, judge_sqlite, 'literals read back by SQLite'))

    # What was rendered before does not matter; in particular values that are equal in Python but not the same.
    def after_cases(shard):
        first, second, position = shard
        for x, y in itertools.product(TELLING, repeat=2):
            yield (first, x, second, y, position)

    def judge_after(ctx, case):
        first, x, second, y, position = case
        use(first)
        outcome(lambda: str(builder.build(whole(first, position, x))))
        return judge(ctx, (second, position, y))

    fams.append(Family('one after another', [(f, s, p) for f in BACKENDS for s in BACKENDS for p in ('V', 'where pair', 'insert', 'V list')], after_cases, judge_after,
                       'all pairs of %d values, the first rendered on any backend, the second on any' % len(TELLING)))
    family('long collections', ['V', 'where pair'], [x for n in scale.sizes(tier) for x in (
        list(range(n)), tuple(str(i) for i in range(n)), [None] * n, [True] * n, Gen(*range(n)), range(n), range(n, 0, -1), [1.5] * n + [None], ["'"] * n, [b'a'] * n + ['x'], [SUB] * n, [[i] for i in range(n)] if n else [])],
        'collections of up to %d elements' % scale.sizes(tier)[-1], 100)
    return fams
