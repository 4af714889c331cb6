"""C15: has() tells the truth about what the query contains."""
import itertools
import re

from . import scale, spec
from .core import Family, Problem, builder, outcome, use
from .hist import expected, query_term
from .spec import BACKENDS, OPTION_GROUPS
from .terms import C, D, F, Not, Or, Q, Rel, V, op, sel

ASSUMPTIONS = (
    'where the searched text itself begins or ends with a non-word character next to a word character of the clause, '
    '"whole word" is not defined and no answer is demanded',
)

PARTS = {
    'select': ['select_options', 'columns', 'tables', 'where', 'group_by', 'having', 'order_by', 'limit', 'into_outfile', 'select_for_update'],
    'insert': ['keyword', 'insert_options', 'tables', 'values', 'on_duplicate_key_update', 'on_conflict_do_update'],
    'update': ['update_options', 'tables', 'values', 'where'],
    'delete': ['delete_options', 'tables', 'references', 'where'],
}
OPTION_PARTS = {'select_options', 'insert_options', 'update_options', 'delete_options'}
SUB = sel(op('columns', 'k'), op('from_', 's'))
OPS = {
    'select': [
        op('columns', 'id', ('name', 'n')), op('columns', C('a+b')), op('columns', F('count', 'id')), op('from_', 't'), op('from_', ('user', 'u')), op('join', 'j'), op('on', 'a.id', 'j_id'),
        op('where', 'id', 1), op('where', name='x.y'), op('where', Q()), op('where', 's', "a(b)[c]*+?\\^$|{1}"), op('where', Or(Q(a=1), Q(b=2))), op('where', 'i', Rel('IN', SUB)), op('where', 'm', 'a\nb'),
        op('having', 'cnt', Rel('GT', 5)), op('having', Not()), op('group_by', 'id'), op('order_by', ('id', 'desc')), op('limit', 10), op('limit', 10, 20), op('limit', None), op('offset', 3), op('offset', 0),
        op('into_outfile', '/tmp/x'), op('fields_terminated_by', ','), op('for_update'), op('for_update', False), op('distinct'), op('distinct', False), op('distinctrow'), op('all'), op('sql_cache'), op('sql_no_cache'), op('high_priority'),
        op('sql_calc_found_rows'), op('straight_join'), op('columns', V('é')),
        op('where', 'jméno', 'naïve x'), op('columns', 'žluťoučký', ('x１', '名前')), op('order_by', 'ñ_1'), op('where', 'a', 'x²y ¼ e\u0301 a\u200bb c\xa0d'),
    ],
    'insert': [op('values', id=1), op('values', name='x'), op('values', D(('id', 2), ('k', None))), op('ignore'), op('ignore', False), op('into', 'u'), op('on_duplicate_key_update', id=1), op('on_duplicate_key_update', 'id', k=2), op('on_duplicate_key_update')],
    'update': [op('set', id=1), op('set', C('x = y')), op('where', 'id', 1), op('where', Q()), op('where', Q(a=1, b='x')), op('ignore'), op('ignore', False), op('join', 'j'), op('on', 'id', 'j.id'), op('allow_update_all'), op('table', 'u')],
    'delete': [op('delete', 'd'), op('where', 'id', 1), op('where', Q()), op('where', Q(a=1, b='x')), op('ignore'), op('ignore', False), op('join', 'j'), op('on', 'id', 'j.id'), op('allow_delete_all'), op('from_', 'u')],
}
STARTS = {'select': [('select', ()), ('select_from', ('t',))], 'insert': [('insert', ()), ('insert_into', ('t',))], 'update': [('update', ('t',))], 'delete': [('delete', ()), ('delete_from', ('t',))]}
WORDS = ['id', 'i', 'd', 'name', 'x', 'y', 'x.y', '1', '10', '0', 'a', 'DISTINCT', 'distinct', 'DISTINCTROW', 'ROW', 'ALL', 'IGNORE', 'ignore', 'UPDATE', 'FOR', 'INSERT', 'REPLACE', 'NULL', 'AS', 'user', 'use', 'ser', 'COUNT',
         'SQL_CACHE', 'sql_cache', 'CACHE', 'SQL', 'NO', 'LIMIT', 'OFFSET', 'é', 'k', 't', 'tmp', '(', ')', '*', '.', '+', '?', '[', '\\', '^', '$', '|', 'a+b', 'a.b', 'axb', '.*', 'i.', '[a-z]+', '(id', 'id)', 'a(b)', '"', '`', "'x'",
         '"id"', '`id`', '= 1', 'WHERE', 'x|y', '\\w', '{1}', ' ', 'zzz', 'j_id', 'b)[c', '\n', 'a\nb', 1, 10, 11, 'ID', 'Id', 'X', 'A', 'As', 'É', 'where', 'From', 'Distinct', 'İd', 'ıd', 'K', 'Ｋ', 'ſ']


def word(c):
    return c == '_' or c.isalnum()


def contains(text, needle):
    """True / False / None (undefined)"""
    strict = lenient = False
    i = text.find(needle)
    while i >= 0:
        end = i + len(needle)
        before, after = text[i - 1:i], text[end:end + 1]
        if not (before and word(before)) and not (after and word(after)):
            strict = True
        elif not (before and word(before) and word(needle[0])) and not (after and word(after) and word(needle[-1])):
            lenient = True
        i = text.find(needle, i + 1)
    return True if strict else None if lenient else False


def clause_texts(model, b):
    out = {}
    for name, text in model.clauses(b):
        if name is not None:
            out[name] = text
    return out


def derived(text):
    """Texts to look for made of the clause itself: its words, in other case, shortened, prolonged, with wildcards."""
    out = {text, text[:-1], text[1:], text + 'x', 'x' + text, text.swapcase(), text + text}
    for w in set(re.findall(r'[A-Za-z0-9_]+', text)):
        out |= {w, w + 'é', 'é' + w}
    for w in set(re.findall(r'\w+', text)):
        out |= {w, w.upper(), w.lower(), w.capitalize(), w.swapcase(), w[:-1], w[1:], w + 'x', 'x' + w, w + '_', '1' + w, w[:-1] + '.', '.' + w[1:], w + '*', w + '?',
                w + '|x', '(' + w + ')', '[' + w + ']', '^' + w, w + '$', '\\b' + w, w + w, w + ' ', ' ' + w}
    for w in re.findall(r'(?=(\w+\W+\w+))', text):
        out |= {w, w[1:], w[:-1], w.replace(' ', '  '), w.replace(' ', '.'), w.swapcase()}
    return sorted(w for w in out if w)


def judge_derived(ctx, case):
    b, kind, term = case
    use(b)
    got = outcome(lambda: clause_texts(spec.build(term, b), b))
    words = derived(' '.join(t for t in got[1].values() if t)) if got[0] == 'ok' else ()
    return judge(ctx, (b, kind, term, tuple(words)))


def judge(ctx, case, along=False):
    b, kind, term, words = case
    use(b)
    model = spec.new(term, b)
    real = builder.new(term)
    for o in term[4]:
        if along:
            problem = check(ctx, b, kind, model, real, words)
            if problem:
                return problem
        trial = model.copy()
        if expected(trial.apply, o, b)[0] == 'ok':
            model = trial
        outcome(builder.apply, real, o)
    return check(ctx, b, kind, model, real, words)


def judge_along(ctx, case):
    return judge(ctx, case, True)


def check(ctx, b, kind, model, real, words):
    texts = clause_texts(model, b)
    ctx.state(b, kind, tuple(sorted(texts.items(), key=str)))
    for part in PARTS[kind]:
        text = texts[part]
        problem = ask(ctx, real, (part,), text is not None)
        if problem:
            return problem
        for w in words:
            want = text is not None and contains(text, str(w).upper() if part in OPTION_PARTS else str(w))
            if want is not None:
                problem = ask(ctx, real, (part, w), want)
                if problem:
                    return problem
    # option names directly
    if kind == 'select':
        on = set(model.options.values())
        for method, (_, name) in OPTION_GROUPS.items():
            problem = ask(ctx, real, (method,), name in on)
            if problem:
                return problem
            for nowhere in ('nonsense', 'wher', 'qq', '?*'):
                problem = ask(ctx, real, (method, nowhere), False)
                if problem:
                    return problem
    for unknown in ('nonsense', 'wher', '_where', 'keywords'):
        problem = ask(ctx, real, (unknown,), False) or ask(ctx, real, (unknown, 'id'), False)
        if problem:
            return problem
    return None


def ask(ctx, real, args, want):
    got = outcome(lambda: real.has(*args))
    ctx.count('questions')
    if got[0] != 'ok' or got[1] is not want and bool(got[1]) != want:
        return Problem('has(%s)' % ', '.join(map(repr, args)), want, got)
    ctx.saw((args, want))
    return None


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, depth, kinds, backends, words, bound):
        shards = [(b, k, start, n, first) for b in backends for k in kinds for start in STARTS[k] for n in range(depth + 1) for first in itertools.product(OPS[k], repeat=min(n, 1))]

        def cases(shard):
            b, kind, (ctor, args), n, first = shard
            for rest in itertools.product(OPS[kind], repeat=n - len(first)):
                yield (b, kind, query_term(ctor, first + rest, args), words)
        fams.append(Family(name, shards, cases, judge, bound))

    few = ('id', 'i', 'x', 'a+b', '(', 'distinct', '1', '[', 'ALL')
    small = ('insert', 'update', 'delete')
    family('one call, all texts', 1, tuple(OPS), BACKENDS, tuple(WORDS), '<=1 call, all parts, all %d texts' % len(WORDS))
    family('two calls', 2, tuple(OPS), BACKENDS if deep else ('sql', 'mysql'), tuple(WORDS) if deep else few + ('x.y', '.'), '<=2 calls, all parts')
    family('three calls', 3, small, BACKENDS if deep else ('mysql', 'sqlite'), few if deep else few[:4], '<=3 calls, all parts')
    if deep:
        family('three calls of select', 3, ('select',), ('sql',), few, '<=3 calls, all parts')

    def derived_cases(shard):
        b, kind, (ctor, args), first = shard
        yield (b, kind, query_term(ctor, (first,), args))
        for second in OPS[kind][::1 if deep else 3]:
            yield (b, kind, query_term(ctor, (first, second), args))

    fams.append(Family('words of the query', [(b, k, start, first) for b in (BACKENDS if deep else ('sql', 'mysql')) for k in OPS for start in STARTS[k] for first in OPS[k]], derived_cases, judge_derived,
                       '<=2 calls, every word of the query, in other case, shortened, prolonged and as a pattern, in every part'))

    # Asked before every call as well.
    ALONG = {
        'select': [op('order_by', 'a'), op('order_by', ('a', 'desc')), op('group_by', ('a', 'desc')), op('group_by', 'a'), op('limit', 1), op('limit', 10, 2), op('limit', None), op('offset', 10), op('distinct'), op('distinctrow'), op('distinct', False), op('all'), op('where', 'a', 1),
                   op('where', 'a', 10), op('join', 'a'), op('left_join', ('a', 'x')), op('on', 'a', 'x'), op('for_update'), op('for_update', False), op('into_outfile', 'a'), op('into_outfile', 'x'), op('fields_terminated_by', 'x'), op('columns', 'a'), op('columns', ('a', 'x')), op('from_', 'x'), op('having', 'x', 1), op('from_', 'x', 5)],
        'insert': OPS['insert'], 'update': OPS['update'], 'delete': OPS['delete'],
    }

    def along_cases(shard):
        b, kind, (ctor, args), first = shard
        for n in (1, 2) if deep or kind != 'select' else (1,):
            for rest in itertools.product(ALONG[kind], repeat=n):
                yield (b, kind, query_term(ctor, (first,) + rest, args), ('a', 'x', 'DESC', '1', '10', 'LEFT', 'id', 'NULL', 'AND'))

    fams.append(Family('asked all along', [(b, k, start, first) for b in (BACKENDS if deep else ('mysql', 'sql')) for k in ALONG for start in STARTS[k] for first in ALONG[k]], along_cases, judge_along,
                       '<=%d calls, asked also before each of them' % 3))

    # All texts over an alphabet with regular expression characters, on one query.
    alphabet = 'ab_1.*+?()[]\\^$|{}" =' if not deep else 'abAi_1.*+?()[]\\^$|{}" =\'\n-'

    def text_cases(shard):
        b, first = shard
        term = query_term('select_from', (op('where', 'ab', "b.a*a+?(a)[b]\\^$|{1}"), op('where', 'b_1', 1), op('columns', C('a_b')), op('columns', C('(a.b)'))), ('t',))
        for n in (0, 1, 2) if not deep else (0, 1, 2, 3):
            for rest in itertools.product(alphabet, repeat=n):
                yield (b, 'select', term, (first + ''.join(rest),))

    fams.append(Family('all texts', [(b, c) for b in ('sql', 'mysql') for c in alphabet], text_cases, judge, 'all texts of <=%d characters over %r' % (4 if deep else 3, alphabet)))

    def grown(b, term):
        kind = {'select': 'select', 'select_from': 'select', 'insert_into': 'insert', 'update': 'update', 'delete_from': 'delete', 'delete': 'delete'}[term[1]]
        text = repr(term)
        most = max([int(i) for i in re.findall(r"'x?c(\d{3})'", text)] or [0])
        words = [w for i in (0, 1, most // 2, most - 1, most, most + 1) for w in ('c%03d' % i, 'xc%03d' % i, str(i), 'j%d' % i)]
        return (b, kind, term, tuple(words) + ('c0', '00', 'z', 'zz', 'x', 'AND', 'OR', 'DESC', ',', '=', '('))

    fams.append(scale.family(tier, ('select', 'joins', 'nested', 'insert', 'update', 'delete', 'upsert'), BACKENDS if deep else ('mysql',), judge, grown, top=1000 if deep else 65))
    return fams
