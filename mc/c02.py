"""C02: a name always renders as a contained, properly quoted reference."""
import itertools
import sqlite3

from . import lex, spec
from .core import Family, Problem, builder, outcome, use
from .c01 import WORDS, judge_two
from .positions import NAME, TWO, term_at
from .spec import BACKENDS
from .terms import Sub, plain

ASSUMPTIONS = (
    'identifiers are read by the rules of mc/lex.py (doubled quote character stands for one)',
    'U+0000 and lone surrogates are not explored; a name without any non-empty part is only required to add nothing',
)

NAMES = list(NAME) + ['conflict target', 'upsert column']
MARK = 'mArK7'
CORE = 'a."`*'
WIDE = CORE + "'; -\\\n%{"
LARGE = ''.join(chr(i) for i in range(1, 128)) + '\x85\xa0\u2028\u3000é𝄞'
TEXTS = [
    'a', 'a.b', 'a.b.c', 'a.b.c.d', 'a.*', '*', '"a"', '"a.b"', 'a."b.c"', '"a.b".c', '"a"."b"', '"a".b', '"a".*',
    '"*"', '"a""b"', 'a""b', 'a"b', '"a"b', 'a"b"', '"a"b"c"', 'a"; DROP TABLE users; --', 'a`; DROP TABLE users; --',
    '"', '""', '"""', '""""', '"""a"""', '`a`', '`a.b`', 'a.`b.c`', '`a``b`', 'a`b', '`', '``', '```', '`*`', '.', '..',
    'a.', '.a', 'a..b', ' a', 'a ', ' ', 'a b', 'a . b', '1', '1a', 'SELECT', 'select', 'NULL', '%s', '%(where)s',
    '%(tables)s', '%(col)s', '{}', '{0}', '{quote}', '%', '%%', "a'b", "'a'", '\\', 'a\\', '\\"', '\n', 'a\nb', 'a--b',
    'a/*b*/', '[a]', '(a)', 'a,b', 'a=b', 'a;b', 'á', 'ASC', 'desc', 'x' * 300, '"' * 99, '`' * 99, 'a.' * 60 + 'a',
    '*a', 'a*', '**', '*.*', '*.a', 'a.*.b', 'AS', 'a AS b', 'count(*)', 'x.y."z.w"', '"x"."y"."z.w"', '"x.y".z."w"',
]

# Names that mean something to some database, or look like they did.
SPECIAL = [
    'rowid', 'oid', 'ctid', 'xmin', '_rowid_', 'tableoid', 'excluded', 'EXCLUDED', 'new', 'old', 'NEW', 'dual', 'DUAL', 'user', 'order', 'ORDER', 'group', 'by', 'key', 'keys', 'values', 'VALUES', 'id', 'ID', 'Id', 'iD', '_', '__a__', 'a_b', 'aB', 'AB', 'a1', 'a$b',
    'a-b', 'a b', 'a@b', 'a#b', 'a:b', 'a/b', 'a+b', 'a%b', 'a|b', 'a<b', 'a!', 'count', 'COUNT', 'sum', 'max', 'min', 'avg', 'concat', 'date', 'time', 'timestamp', 'int', 'from', 'table', 'where', 'select', 'set', 'as', 'on', 'in', 'is', 'not', 'and', 'or', 'like', 'limit',
    'offset', 'union', 'all', 'distinct', 'join', 'left', 'right', 'full', 'inner', 'desc', 'DESC', 'asc', 'null', 'true', 'false', 'default', 'current_user', 'information_schema.tables', 'pg_catalog.pg_class', 'mysql.user', 'main.sqlite_master', 'public.t', 'temp.t', 'dbo.t',
    '#temp', '@var', '@@global', ':new', '$1', '?', '0', '1.5', '1.a', 'a.1', '-1', '1e5', 'a.0x1', '1.2.3', 't.id', 't.ID', 'T.id', 't.order', 'a.b.order', 'user.user', 'a.a.a', 'count(*)', 'a.count(*)', 'DISTINCT a', 'a DESC', 'a AS b', 'a as b', 'a, b', 'now()', 'a()', '(a)', 'a[1]', "a->'b'", 'a::int', 'a.b::int',
]

TELLING = ['a', 'a.b', '"', '`', '"a"', '`a`', '"a.b"', '`a.b`', 'a"b', 'a`b', '"a".b', '`a`.b', '*', 'a.*', '"*"', '`*`', '""', '``', 'a""b', 'a``b', "a'", 'A', 'á', ' a', 'a..b', '1', '"a""b"', '`a``b`']
AFTER = ['R', 'column', 'table alias']


def judge(ctx, case):
    b, position, given = case
    name = plain(given)
    use(b)
    ctx.state(position, b, given)
    want = expected_parts(name, b)
    if not want:
        return None      # e.g. '' or '.': no name at all
    term = term_at(NAME, position, b, given)
    got = outcome(lambda: str(builder.build(term)))
    if got[0] != 'ok':
        return Problem('a name was refused', 'SQL', got)
    q = lex.QUOTE[b]
    mark = str(builder.build(term_at(NAME, position, b, MARK)))
    head, _, tail = mark.partition(q + MARK + q)
    whole = got[1]
    if len(whole) < len(head) + len(tail) or not whole.startswith(head) or not whole.endswith(tail):
        return Problem('the rest of the statement depends on the name', (head, tail), whole)
    middle = whole[len(head):len(whole) - len(tail)]
    ctx.saw(middle)
    parts = lex.read_chain(middle, b)
    if parts != want:
        return Problem('does not read back as that name (whole text %r)' % whole, want, (middle, parts))
    return None


def expected_parts(name, b):
    return [lex.STAR if part == '*' and not quoted else part for part, quoted in spec.name_parts(name, lex.QUOTE[b])]


_DB = []


def judge_sqlite(ctx, case):
    """Aliases, read by SQLite itself: the result column has exactly that name."""
    b, name = case
    use(b)
    ctx.state(b, name)
    parts = expected_parts(name, b)
    if len(parts) != 1 or parts[0] is lex.STAR:
        return None
    if not _DB:
        _DB.append(sqlite3.connect(':memory:'))
    text = str(builder.build(NAME['custom column alias'](name))).replace(' FROM ', ' FROM (SELECT 1) AS ')
    got = outcome(lambda: _DB[0].execute(text).description[0][0])
    ctx.saw(got)
    if got != ('ok', parts[0]):
        return Problem('SQLite reads another name', parts[0], (text, got))
    return None


def strings(alphabet, n, start=0):
    for k in range(start, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, positions, texts, bound, backends=BACKENDS):
        shards = [(b, tuple(positions[i:i + 4]), part) for b in backends for i in range(0, len(positions), 4)
                  for part in texts]

        def cases(shard):
            b, chosen, part = shard
            for text in part():
                for position in chosen:
                    if term_at(NAME, position, b, 'a') is None:
                        continue
                    yield (b, position, text)
        fams.append(Family(name, shards, cases, judge, bound))

    def by_first(alphabet, n):
        return [lambda c=c: (c + s for s in strings(alphabet, n - 1)) for c in alphabet]

    n = 4 if deep else 3
    family('texts everywhere', NAMES, [lambda: TEXTS], 'every position x %d telling names' % len(TEXTS))
    words = sorted(set(WORDS + SPECIAL))
    family('words everywhere', NAMES, [lambda i=i: words[i::2] for i in range(2)], 'every position x %d words that mean something to a database' % len(words))
    family('words as parts', ['R', 'column', 'table', 'on right'], [lambda: [make.format(w) for w in words for make in ('a.{}', '{}.a', '{}.*')]], 'the same words as parts of a name')
    family('subclasses', NAMES, [lambda: [Sub(x, kind) for x in TELLING for kind in ('plain', 'text', 'enum')]],
           'every position x %d texts as instances of a subclass of str, of one with its own __str__, of an enum' % len(TELLING))
    family('short names everywhere', NAMES, [lambda: strings(CORE, n + 1, 1)],
           'every position x all names of length <=%d over %r' % (n + 1, CORE))
    family('wide alphabet', ['R', 'column', 'table alias', 'on right', 'insert column', 'conflict target'],
           by_first(WIDE, n), 'all names of length <=%d over %r' % (n, WIDE))
    family('references', ['R'], by_first(CORE + ' ', 7 if deep else 6),
           'R(): all names of length <=%d over %r' % (7 if deep else 6, CORE + ' '))
    family('quoted parts', ['R'], by_first('"`.', 9 if deep else 8),
           'R(): all names of length <=%d over %r' % (9 if deep else 8, '"`.'))
    top = 0x110000 if deep else 0x10000
    points = [range(i, i + 0x2000) for i in range(0, top, 0x2000)]
    family('code points', ['R'], [
        lambda r=r: (chr(i) for i in r if i and not 0xd800 <= i < 0xe000) for r in points],
        'every code point below U+%X alone' % top)
    family('code points in context', ['column alias'], [
        lambda r=r: ('a' + chr(i) + '"' for i in r if i and not 0xd800 <= i < 0xe000) for r in points],
        'every code point below U+%X inside a name' % top)
    family('pairs', ['R'], [lambda c=c: (c + d for d in LARGE) for c in LARGE],
           'all pairs of %d characters' % len(LARGE))
    lengths = list(range(1, 130)) + [p + d for p in (255, 256, 1000, 1024, 4096) for d in (-1, 0, 1)]
    family('lengths', ['R', 'table'], [
        lambda c=c: itertools.chain.from_iterable(
            ('a' * n + c, c + 'a' * n, c * min(n, 300), ('a' + c) * min(n, 300)) for n in lengths) for c in '"`.\n%'],
        'names of %d lengths with a special character' % len(lengths))

    family('long names everywhere', NAMES, [lambda: [make(n) for n in (30, 31, 63, 64, 65, 127, 128, 129, 255, 256, 1000) for make in (
        lambda n: 'a' * n, lambda n: 'a' * (n - 1) + '"', lambda n: 'b.' + 'a' * n, lambda n: '"' + '.' * n + '"')]], 'every position x 44 long names')

    def two_cases(shard):
        b, position = shard
        for x, y in itertools.product(TELLING, repeat=2):
            if expected_parts(x, b) and expected_parts(y, b):
                yield (b, position, x, y)

    fams.append(Family('two names', [(b, p) for b in BACKENDS for p, (k, l, _) in TWO.items() if 'value' not in (k, l)], two_cases, judge_two,
                       'all pairs of %d names as two names of one statement' % len(TELLING)))

    def sqlite_cases(shard):
        b, c = shard
        for s in strings(CORE + " '", 4 if deep else 3):
            yield (b, c + s)

    fams.append(Family(
        'SQLite execution', [(b, c) for b in BACKENDS for c in CORE + " '"], sqlite_cases, judge_sqlite,
        'aliases of length <=%d executed by SQLite' % (5 if deep else 4)))

    # What was rendered before, on whatever backend, does not matter.
    def after_cases(shard):
        first, second, position = shard
        for x, y in itertools.product(TELLING, repeat=2):
            yield (first, x, second, y, position)

    def judge_after(ctx, case):
        first, x, second, y, position = case
        use(first)
        for p in (position, 'R'):
            if term_at(NAME, p, first, 'a') is not None:
                outcome(lambda: str(builder.build(term_at(NAME, p, first, x))))
        return judge(ctx, (second, position, y))

    fams.append(Family('one after another', [(f, s, p) for f in BACKENDS for s in BACKENDS for p in AFTER], after_cases, judge_after,
                       'all pairs of %d texts, the first rendered on any backend, the second on any' % len(TELLING)))
    return fams
