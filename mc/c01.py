"""C01: a string value stays one literal and means that string."""
import itertools
import sqlite3

from . import lex, spec
from .core import Family, Problem, builder, outcome, use
from .positions import STRING_ONLY, TWO, VALUE, holes, term_at
from .spec import BACKENDS
from .terms import Sub, plain

ASSUMPTIONS = (
    'the lexical rules of the databases are those of mc/lex.py (MySQL default sql_mode; PostgreSQL with '
    'standard_conforming_strings on; plain SQL read with backslash escapes and, for containment, also without)',
    'U+0000 and lone surrogates are not explored (no database text can hold them)',
)

POSITIONS = dict(VALUE, **STRING_ONLY)
NAMES = list(POSITIONS) + ['upsert']
MARK = 'mArK7'

SMALL = "'\\a\"`.\n"                       # the characters quoting depends on
MEDIUM = SMALL + '; -%{}'
LARGE = ''.join(chr(i) for i in range(1, 128)) + '\x85\xa0\u2028\u3000\u02bc\uff07é𝄞'
TEXTS = [
    '%s', '%(where)s', '%(tables)s', '%(val)s', '%(col)s', '%d', '%%', '{}', '{0}', '{quote}', '{col}', '{val}',
    '\\x41', '\\u0041', '\\0', "\\'", "\\\\'", "';DROP TABLE users;--", "' OR '1'='1", "'; --", '"; --', '`; --',
    '/*', '*/', '--', '#', 'NULL', 'null', 'None', 'true', 'false', 'True', '1', '0', '1.5', '-1', '*', 't.c',
    '(SELECT 1)', 'CURRENT_TIMESTAMP', "x'41'", "E'a'", "E'\\\\'", '2020-01-01', '2020-01-01T00:00:00', "''", "'a'",
    '"t"', '"t"."c"', '"t".c', '"t".*', ' "t" ', '\n"t"."c"\t', '"t"."c"."d"', '"t"."c"."d"."e"', '"a""b"', '""',
    '"""a"""', '"""".a." ; DROP TABLE users; --"', '"t".c;--', '"t".\'', '`t`', '`t`.`c`', '`t`.c', '`a``b`', ' `t`',
    '"t"c', '"t" "c"', '"t". "c"', '"t" .c', 'a"t"', '"t"."', '"t".""', '"t"..c', '"', '`', "'", '\\', '\n', ' ',
    '', 'ASC', 'desc', 'IGNORE', '<undefined value>', 'UNION', 'a' * 300, "'" * 99, '\\' * 99, '"' * 99, '`' * 99,
    '\n' * 99, "\\'" * 50, "'\\" * 50, 'á' * 200,
]

# What looks like something else than a text: words, numbers, literals, placeholders of drivers, comments, directives.
WORDS = [
    'DEFAULT', 'default', 'NOW()', 'now()', 'CURRENT_DATE', 'CURRENT_USER', 'LOCALTIME', 'SYSDATE', 'TRUE', 'FALSE', 'UNKNOWN', 'NaN', 'nan', 'inf', '-inf', 'Infinity', '-Infinity',
    '0x41', '0X41', '0b01', "0b'1'", "b'1'", "B'1'", "X'41'", "n'a'", "N'a'", "_utf8'a'", "_binary'a'", "U&'\\0041'", "e'\\n'", "r'a'", 'u0041', '\\x00ff', '\\N', '\\%', '\\_', '\\n', '\\r', '\\t', '\\Z', '\\b',
    '1e5', '1E-5', '.5', '5.', '+1', '00', '007', '1_000', '1,5', '1 2', '12345678901234567890', '1.50000', '0.0', '-0', '1j', '١', '²', 'Ⅷ',
    ':a', ':1', ':a:', '::text', 'a::text', '?', '??', '?1', '$1', '$a', '$$', '$$a$$', '$q$a$q$', '@a', '@@version', '%(a)s', '%1$s', '{a}', '{0!r}', '${a}', '#{a}', '{{a}}', '<a>', '[a]', '[[a]]', '(a)', '(1, 2)', '()', '{1,2}', 'ARRAY[1]',
    '/*!50000 a */', '-- a', '--a', '#a', '/**/', 'a--', 'a -- b', ';', 'a;', 'a; b', '\\', '\\\\', "a\\", 'null ', ' NULL', 'Null', 'NONE', 'undefined', 'nil',
    'SELECT', 'SELECT 1', 'select * from t', '(select 1)', 'INTERVAL 1 DAY', "DATE '2020-01-01'", '2020-02-30', '10:20:30', '2020-01-01 10:20:30', '2020-01-01T10:20:30+00:00', 'P1D', 'a.b', 'a.b.c', 'a.*', '*.*', 'COUNT(*)', 'a AS b', 'a = b', 'a, b', 'a()',
    'http://a/?b=c&d', 'a@b.c', 'C:\\a', '../a', '&amp;', '&#39;', '&quot;', "\\'a\\'", '\\"', '\\`', "''a''", '""a""', '\u2018a\u2019', '\u201ca\u201d', '\uff07', '\ufeffa', 'a\u200b', '\u202ea', 'e\u0301', '\xe9', '\xdf', '\u0130', '\ufb01', '\U0001f600',
    ' a', 'a ', '\ta', 'a\n', '\r\n', '\r', '\x0b', '\x0c', '\x1a', '\x7f', '\x08', '\x1b[0m', '\x85', '\xa0', '\u3000', 'a\r\nb',
]

TELLING = ['a', "'", '\\', '"', '`', '"a"', '`a`', '"a".b', '`a`.b', "\\'", '\n', "a'b", 'a\\b', "'a'", '', ' ', '%s', '1', 'a.b', '*', '"', '\r\n', 'NULL', '"a"."b"', 'a"b', 'a`b', 'á']
AFTER = ['V', 'where pair', 'insert']


def judge(ctx, case):
    b, position, given = case
    text = plain(given)
    use(b)
    ctx.state(position, b, given)
    term = term_at(POSITIONS, position, b, given)
    got = outcome(lambda: str(builder.build(term)))
    if got[0] != 'ok':
        return Problem('a string was refused', 'SQL', got)
    mark = str(builder.build(term_at(POSITIONS, position, b, MARK)))
    head, _, tail = mark.partition("'" + MARK + "'")
    whole = got[1]
    if len(whole) < len(head) + len(tail) or not whole.startswith(head) or not whole.endswith(tail):
        return Problem('the rest of the statement depends on the string', (head, tail), whole)
    middle = whole[len(head):len(whole) - len(tail)]
    ctx.saw(middle)
    reference = spec.quoted_reference(text, b)
    if reference is not None:
        if middle != reference:
            return Problem('quoted reference', reference, middle)
        return None
    value = lex.read_string(middle, b)
    if value != text:
        return Problem('does not decode to the string that was given (whole text %r)' % whole, text, (middle, value))
    if b == 'sql' and not lex.contained(middle):
        return Problem('literal not contained for a reader without backslash escapes', text, middle)
    return None


def quoted(kind, mark, b):
    return "'%s'" % mark if kind == 'value' else lex.QUOTE[b] + mark + lex.QUOTE[b]


def reads_back(kind, text, piece, b):
    """The piece of SQL is the value respectively the name."""
    if kind == 'value':
        reference = spec.quoted_reference(text, b)
        return piece == reference if reference is not None else lex.read_string(piece, b) == text
    return lex.read_chain(piece, b) == [lex.STAR if part == '*' and not q else part for part, q in spec.name_parts(text, lex.QUOTE[b])]


def judge_two(ctx, case):
    """Two texts in one statement: each in its place, whatever the other one is."""
    b, position, x, y = case
    use(b)
    ctx.state(*case)
    first, second, make = TWO[position]
    marks = ('mArK7', 'mArK8')
    if not x and first != 'value' or not y and second != 'value':
        return None
    got = outcome(lambda: str(builder.build(make(x, y))))
    ctx.saw(got)
    parts = outcome(holes, make, lambda term: str(builder.build(term)), marks, (quoted(first, marks[0], b), quoted(second, marks[1], b)), x, y)
    if parts[0] != 'ok' or parts[1] is None or got[0] != 'ok':
        return Problem('refused, or the rest of the statement depends on the text', parts, got)
    one, two, whole = parts[1]
    if got[1] != whole:
        return Problem('the two texts disturb each other', whole, got[1])
    if not reads_back(first, x, one, b) or not reads_back(second, y, two, b):
        return Problem('does not read back as the texts given', (x, y), (one, two))
    return None


_DB = []


def judge_sqlite(ctx, case):
    """The literal of the SQLite backend, read by SQLite itself."""
    (text,) = case
    use('sqlite')
    if not _DB:
        _DB.append(sqlite3.connect(':memory:'))
    ctx.state('sqlite', text)
    literal = str(builder.build(VALUE['V'](text)))
    if spec.quoted_reference(text, 'sqlite') is not None:
        return None
    got = outcome(lambda: _DB[0].execute('SELECT ' + literal).fetchall())
    ctx.saw(got)
    if got != ('ok', [(text,)]):
        return Problem('SQLite reads another value', text, (literal, got))
    return None


def strings(alphabet, n, start=0):
    for k in range(start, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, positions, texts, bound, backends=BACKENDS):
        """texts: list of thunks giving iterables (shards)"""
        shards = [(b, tuple(positions[i:i + 4]), part) for b in backends for i in range(0, len(positions), 4)
                  for part in texts]

        def cases(shard):
            b, chosen, part = shard
            for text in part():
                for position in chosen:
                    if position == 'upsert' and b in ('sql', 'sqlite'):
                        continue
                    yield (b, position, text)
        fams.append(Family(name, shards, cases, judge, bound))

    def by_first(alphabet, n):
        return [lambda: ['']] + [
            lambda c=c: (c + s for s in strings(alphabet, n - 1)) for c in alphabet]

    family('texts everywhere', NAMES, [lambda: TEXTS], 'every position x %d telling strings' % len(TEXTS))
    family('words everywhere', NAMES, [lambda: WORDS], 'every position x %d texts that look like something else' % len(WORDS))
    family('subclasses', NAMES, [lambda: [Sub(x, kind) for x in TELLING for kind in ('plain', 'text', 'enum')]],
           'every position x %d texts as instances of a subclass of str, of one with its own __str__, of an enum' % len(TELLING))
    family('short strings everywhere', NAMES, [lambda: strings(SMALL, 4 if deep else 3)],
           'every position x all strings of length <=%d over %r' % (4 if deep else 3, SMALL))
    family('medium alphabet', ['V', 'where pair', 'insert', 'update', 'LIKE', 'IN with None', 'separator', 'upsert'],
           by_first(MEDIUM, 4 if deep else 3), 'all strings of length <=%d over %r' % (4 if deep else 3, MEDIUM))
    family('literals', ['V'], by_first(SMALL, 7 if deep else 5),
           'V(): all strings of length <=%d over %r' % (7 if deep else 5, SMALL))
    family('reference-like strings', ['V'], by_first('"`. a*', 7 if deep else 5),
           'V(): all strings of length <=%d over \'"`. a*\'' % (7 if deep else 5))
    top = 0x110000 if deep else 0x10000
    points = [range(i, i + 0x2000) for i in range(0, top, 0x2000)]
    family('code points', ['V'], [
        lambda r=r: (chr(i) for i in r if i and not 0xd800 <= i < 0xe000) for r in points],
        'every code point below U+%X alone' % top)
    family('code points in context', ['where pair'], [
        lambda r=r: ("'" + chr(i) + "\\" for i in r if i and not 0xd800 <= i < 0xe000) for r in points],
        'every code point below U+%X between a quote and a backslash' % top)
    family('pairs', ['V'], [lambda c=c: (c + d for d in LARGE) for c in LARGE],
           'all pairs of %d characters (ASCII and telling others)' % len(LARGE))
    lengths = list(range(0, 130)) + [p + d for p in (255, 256, 1000, 1024, 4096, 65535, 65536) for d in (-1, 0, 1)]
    family('lengths', ['V', 'update'], [
        lambda c=c: itertools.chain.from_iterable(
            ('a' * n + c, c + 'a' * n, c * min(n, 5000)) for n in lengths) for c in "'\\\"`\n%"],
        'strings of %d lengths up to 65537 with a special character at the start, at the end, everywhere' % len(lengths))

    family('long texts everywhere', NAMES, [lambda: [make(n) for n in (64, 65, 255, 256, 257, 1000, 1025, 5000) for make in (
        lambda n: 'a' * n, lambda n: 'a' * (n - 1) + "'", lambda n: "'" + '\\' * n)]], 'every position x 24 long strings')

    def two_cases(shard):
        b, position = shard
        for x, y in itertools.product(TELLING, repeat=2):
            yield (b, position, x, y)

    fams.append(Family('two texts', [(b, p) for b in BACKENDS for p, (k, l, _) in TWO.items() if 'value' in (k, l)], two_cases, judge_two,
                       'all pairs of %d texts as two values, or a value and a name, of one statement' % len(TELLING)))

    def sqlite_cases(shard):
        for text in shard():
            yield (text,)

    fams.append(Family(
        'SQLite execution', by_first(SMALL + ';%', 6 if deep else 5), sqlite_cases, judge_sqlite,
        'literals of all strings of length <=%d executed by SQLite' % (6 if deep else 5)))

    # What was rendered before, on whatever backend, does not matter.
    def after_cases(shard):
        first, second, position = shard
        for x, y in itertools.product(TELLING, repeat=2):
            yield (first, x, second, y, position)

    def judge_after(ctx, case):
        first, x, second, y, position = case
        use(first)
        for p in (position, 'V'):
            if term_at(POSITIONS, p, first, 'a') is not None:
                outcome(lambda: str(builder.build(term_at(POSITIONS, p, first, x))))
        return judge(ctx, (second, position, y))

    fams.append(Family('one after another', [(f, s, p) for f in BACKENDS for s in BACKENDS for p in AFTER], after_cases, judge_after,
                       'all pairs of %d texts, the first rendered on any backend, the second on any' % len(TELLING)))
    return fams
