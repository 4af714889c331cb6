"""C13: only the configured backend decides the dialect, in every history."""
import asyncio
import contextvars
import itertools
import threading

from . import scale, spec
from .core import Family, Problem, builder, outcome, sp
from .hist import Pair, differs, expected, query_term
from .spec import BACKENDS
from .terms import And, C, D, Exists, F, Not, OD, Obj, Or, Q, Query, R, Rel, T, Un, V, op, sel

SUB = sel(op('columns', 'k', (V(True), 'z')), op('from_', 's'), op('where', 'n', 'it\'s\\ \n'))

# Statements in which every construct depends on the dialect.
PROBES = {
    'select': sel(
        op('columns', 'a.b', ('c', 'x'), V(True), V(b'\x01\xff'), V('b\\c\n\'d'), F('concat', 'q"q', V('\\')), F('group_concat', 'g', mods=(op('order_by', 'o'), op('separator', '\n')))), op('from_', ('t', 'y`y')),
        op('join', ('j', 'jj')), op('on', 'y.id', 'jj.id'), op('on', 'y.f', True), op('where', 'e', 'it\'s \\ "x" \n'), op('where', f=False, g=[True, None, 'z\\']), op('where', Or(Q(h=True, i='\\'), Q(Not(k=False)))),
        op('where', 'l', Rel('IS', True)), op('where', 'm', Rel('LIKE', '%\\_')), op('having', 'n', V(b'\x00')), op('group_by', 'o'), op('order_by', ('p', 'desc')), op('into_outfile', 'C:\\x'), op('limit', 3)),
    'quoted': sel(op('columns', '"a"', '`b`', '"c.d".e', '`f.g`.h'), op('from_', 't'), op('where', 'i', '"j"'), op('where', 'k', '`l`'), op('where', 'm', '"n"."o"'), op('where', 'p', '`q`.`r`'), op('where', R('"s"'), V('`u`'))),
    'nested': sel(op('columns', (SUB, 'x')), op('from_', (Un(SUB, '&', SUB), 'y')), op('where', Exists(SUB)), op('where', 'a', Rel('IN', SUB))),
    'insert': Query('insert_into', op('values', a=True, b=b'\x0f', c='\\'), op('values', D(('d', "x'y\n"), ('a', False))), op('ignore'), args=('t.u',)),
    'update': Query('update', op('set', a=True, b=b'\x0f', c='\\\''), op('where', 'x', False), op('left_join', 'j'), op('on', 'a', 'b'), args=(('t', 'u'),)),
    'delete': Query('delete', op('from_', ('t', 'v'), 'w'), op('where', And(Q(a=True), Q(b='\\'))), args=('v',)),
    'union': Un(Un(SUB, '|', SUB), '&', sel(op('columns', V('\n')))),
    'V': V([True, b'a', '\\', None, 1, 2.5]), 'R': R('a.b.c'), 'Q': Or(Q(a=True, b='\\'), And(Q(c=1), Q(d='\n'))), 'Not': Not(a=[True, 'x\\']),
    'function': F('max', ['a', V(True), V('\\')]),
}
VALID = ['sql', 'mysql', 'postgresql', 'sqlite']
CASES = ['MySQL', 'SQL', 'PostgreSQL', 'SQLite', 'MYSQL', 'mYsQl', 'Sqlite', 'POSTGRESQL', 'SQLITE', 'Sql', T(('Sub', 'MySql'))]
INVALID = ['', 'oracle', 'mysq', 'mysql ', ' mysql', 'my sql', 'postgres', 'sqlite3', 'mssql', 'none', 'mysqlmysql', 'sql\n', None, 0, 1, True, False, b'mysql', (), [], {}, ['mysql'], ('mysql',), 1.5, Obj(), 'backend', 'SqlBackend', 'MYSQL2', '__class__', 'my\u017fql', '\u017fql', 'po\u017ftgresql', 'M\u00ddSQL', '\uff53\uff51\uff4c', 'sql\u0301', '\ufeffsql', 'sql\x00', 'sql;', 'mysql.', 'MySqlBackend', 'sql-mysql', 'mysql,sqlite']


def target(name):
    """The backend a name means, or None."""
    if type(name) is T and name[0] == 'Sub':
        name = name[1]
    if type(name) is str and all(ord(c) < 128 for c in name):
        lower = ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in name)
        return lower if lower in VALID else None
    return None


def configure(name):
    return outcome(sp.configure, builder.build(name))


def step(current, name):
    """-> (backend afterwards, Problem or None)"""
    want = target(name)
    got = configure(name)
    if want is None:
        if got[0] == 'ok':
            return current, Problem('configure(%r) was accepted' % (name,), 'an exception of the library', 'accepted')
        if not got[2]:
            return current, Problem('configure(%r) raised a foreign exception' % (name,), 'an exception of the library', got)
        return current, None
    if got[0] != 'ok':
        return current, Problem('configure(%r) was refused' % (name,), 'accepted', got)
    return want, None


def check_probe(what, obj, term, b):
    want = expected(spec.text_of, term, b)
    got = outcome(str, obj)
    if differs(want, got):
        return Problem('%s on %s' % (what, b), want, got)
    return None


def judge_history(ctx, case):
    """case: (names, index after which the probes are built, probes): rendered after every configure call."""
    names, built_at, probes = case
    current, problem = step(None, 'sql')
    objs = {}
    for i, name in enumerate(('sql',) + tuple(names)):
        current, problem = step(current, name)
        if problem:
            return problem
        if i == built_at:
            objs = {p: builder.build(PROBES[p]) for p in probes}
        for p in objs:
            problem = check_probe('%s built after %d of the calls %r, rendered after %d of them' % (p, built_at, names, i), objs[p], PROBES[p], current)
            if problem:
                return problem
            ctx.count('renders')
        ctx.state(current, name, i, built_at)
    for p in probes:            # and built under the last one
        problem = check_probe('%s after %r' % (p, names), builder.build(PROBES[p]), PROBES[p], current)
        if problem:
            return problem
        ctx.saw(outcome(lambda: str(builder.build(PROBES[p]))))
    return None


def judge_initial(ctx, case):
    """In a process that never configured anything (shards run in processes of their own), plain SQL is used."""
    probe, names = case
    current = 'sql'
    problem = check_probe('before any configuration, ' + probe, builder.build(PROBES[probe]), PROBES[probe], 'sql')
    for name in names:
        if problem:
            return problem
        current, problem = step(current, name)
        problem = problem or check_probe('%s after first %r' % (probe, names), builder.build(PROBES[probe]), PROBES[probe], current)
    ctx.state(probe, names)
    ctx.saw(current)
    return problem


def judge_mixed(ctx, case):
    """case: (probe, a backend per call, backend for rendering): calls made under different backends."""
    probe, backends, last = case
    term = PROBES[probe]
    sp.configure('sql')
    q = builder.new(term)
    for i, o in enumerate(term[4]):
        sp.configure(backends[i % len(backends)])
        builder.apply(q, o)
    sp.configure(last)
    ctx.state(probe, backends, last)
    ctx.saw(outcome(str, q))
    return check_probe('%s built under %r' % (probe, backends), q, term, last)


FULL = [
    (op('full_join', 'j'),), (op('full_join', 'j'), op('on', 'a', 'b')), (op('join', 'k'), op('full_join', ('j', 'x'))), (op('full_join', 'j'), op('on', 'a', 'b'), op('left_join', 'j'), op('on', 'a', 'b')),
    (op('full_join', 'j'), op('where', 'a', True)), (op('left_join', 'j'), op('full_join', 'j')), (op('full_join', 'j'), op('full_join', 'j')),
]
UPSERTS = [
    op('on_duplicate_key_update', *a, **k) for a, k in [
        ((), {}), (('a', 1), {}), ((), {'a': True}), ((D(('a', 1), ('b', 'x')),), {}), (([('a', 1)],), {}), (('i', 'a', 1), {}), (('i',), {'a': True}), (('i', D(('b', 2), ('a', 1))), {}), (('i.j', [('a', 1), ('b', '\\')]), {}),
        ((1,), {'a': 1}), ((None,), {'a': 1}), ((True,), {'a': 1}), (('i', OD(('b', 1), ('a', 2))), {}), ((C('x = 1'),), {}), (('i', C('x = 1')), {}), (('i',), {}), ((D(),), {}), (('"i"',), {'a': False}), (('`i`', 'a', '`b`'), {}),
    ]
]


def judge_gated(ctx, case):
    """case: (names configured, query term): accepted, refused and rendered as the latest backend demands."""
    names, term = case
    current = None
    for name in ('sql',) + tuple(names):
        current, problem = step(current, name)
        if problem:
            return problem
    pair = Pair(term, current)
    problem = pair.check()
    ctx.state(current, term)
    if pair.real is not None:
        ctx.saw(outcome(str, pair.real))
    return problem


def in_thread(func, *args):
    got = []
    thread = threading.Thread(target=lambda: got.append(outcome(func, *args)))
    thread.start()
    thread.join()
    return got[0]


async def in_coroutine(func, args):
    return outcome(func, *args)


CARRIERS = {
    'main': lambda func, *args: outcome(func, *args),
    'thread': in_thread,
    'context': lambda func, *args: contextvars.copy_context().run(outcome, func, *args),
    'empty context': lambda func, *args: contextvars.Context().run(outcome, func, *args),
    'coroutine': lambda func, *args: asyncio.run(in_coroutine(func, args)),
}


def judge_carried(ctx, case):
    """case: (where each configuration happens, where the query is built and where rendered, what is configured)."""
    places, made, shown, names = case
    current = 'sql'
    sp.configure('sql')
    for place, name in zip(places, names):
        done = CARRIERS[place](step, current, name)
        if done[0] != 'ok' or done[1][1]:
            return done[1][1] if done[0] == 'ok' else Problem('configure(%r) in %s' % (name, place), 'accepted or refused', done)
        current = done[1][0]
    term = PROBES['select']
    built = CARRIERS[made](builder.build, term)
    if built[0] != 'ok':
        return Problem('building in %s' % made, 'a query', built)
    got = CARRIERS[shown](str, built[1])
    ctx.state(case)
    ctx.saw(got)
    want = expected(spec.text_of, term, current)
    if differs(want, got):
        return Problem('configured %r in %r, built in %s, rendered in %s' % (names, places, made, shown), want, got)
    return None


def families(tier):
    deep = tier == 'thorough'
    fams = []
    names = VALID + CASES + INVALID
    small = VALID + ['MySQL', 'oracle', None, 'POSTGRESQL', ['mysql']]

    def histories(shard):
        first, n, pool = shard
        for rest in itertools.product(pool, repeat=n - 1):
            seq = (first,) + rest
            for at in range(n + 1):
                yield (seq, at, tuple(PROBES) if n < 3 else ('select', 'quoted', 'insert'))

    shards = [(f, 1, names) for f in names] + [(f, 2, names) for f in names] + [(f, 3, names if deep else small) for f in (names if deep else small)]
    if deep:
        shards += [(f, 4, small) for f in small]
    fams.append(Family('configure histories', shards, histories, judge_history,
                       'all sequences of <=2 of %d names, 3 of %d; probes built at every point, rendered at every later point' % (len(names), len(names) if deep else len(small))))

    initial = [(p, (n,)) for p in PROBES for n in ('oracle', 'MySQL', None)] + [('select', (n,)) for n in names]
    fams.append(Family('unconfigured', [[c] for c in initial], lambda shard: iter(shard), judge_initial, 'fresh processes without configuration'))

    def mixed(shard):
        probe, first = shard
        for backends in itertools.product(VALID, repeat=4 if deep else 3):
            for last in VALID:
                yield (probe, (first,) + backends, last)

    fams.append(Family('mixed building', [(p, f) for p in ('select', 'quoted', 'nested', 'insert', 'update', 'delete') for f in VALID], mixed, judge_mixed, 'every call of a statement under any backend, rendered under any'))

    def gated(shard):
        for seq in itertools.chain(((n,) for n in names), itertools.product(small, repeat=2), itertools.product(small, repeat=3) if deep else ()):
            if target(seq[-1]) == shard or (target(seq[-1]) is None and shard == 'invalid'):
                for ops in FULL:
                    yield (seq, query_term('select_from', ops, ('t',)))
                for u in UPSERTS:
                    yield (seq, query_term('insert_into', (op('values', a=1), u), ('t',)))
                if len(seq) == 1:
                    for u in UPSERTS:
                        yield (seq, query_term('insert_into', (u, op('values', a=1)), ('t',)))
                        for v in UPSERTS:
                            yield (seq, query_term('insert_into', (op('values', a=1), u, v), ('t',)))
                            yield (seq, query_term('insert_into', (op('values', a=1), u, op('ignore'), v), ('t',)))

    fams.append(Family('features', VALID + ['invalid'], gated, judge_gated, 'FULL JOIN and %d upsert calls (and pairs of them) after every configuration' % len(UPSERTS)))

    def switch(shard):
        """The gate follows the latest configuration even for a query made before."""
        for first, second in itertools.product(VALID, repeat=2):
            if first == shard:
                for bad in (None, 'oracle', ''):
                    yield (first, second, bad)

    def judge_switch(ctx, case):
        first, second, bad = case
        sp.configure(first)
        q, i = sp.select_from('t'), sp.insert_into('t').values(a=1)
        sp.configure(second)
        configure(bad)
        got = outcome(q.full_join, 'j')
        if (got[0] == 'ok') != (second == 'postgresql') or (got[0] == 'exc' and not got[2]):
            return Problem('FULL JOIN on a query made under %s, now %s' % (first, second), second == 'postgresql', got)
        outcome(i.on_duplicate_key_update, *(() if second == 'sqlite' else ('i', {'b': 2}) if second == 'postgresql' else ({'b': 2},)))
        want = spec.text_of(Query('insert_into', op('values', a=1), op('on_duplicate_key_update', *(() if second == 'sqlite' else ('i', D(('b', 2))) if second == 'postgresql' else (D(('b', 2)),))), args=('t',)), second)
        got = outcome(str, i)
        ctx.state(case)
        ctx.saw(got)
        return None if got == ('ok', want) else Problem('upsert on a query made under %s, now %s' % (first, second), want, got)

    fams.append(Family('switches', VALID, switch, judge_switch, 'features asked for after a switch'))

    def long_histories(shard):
        for n in shard:
            for pool in (VALID, ['mysql', 'postgresql'], ['sqlite', 'mysql'], ['mysql', 'oracle'], ['MySQL', 'mysql', 'SQL'], VALID[::-1] + [None], ['postgresql'], ['mysql', 'mysql', 'mysql', 'sql'], ['sqlite', '', None, 'x']):
                for last in VALID:
                    seq = tuple(pool[i % len(pool)] for i in range(n)) + (last,)
                    yield (seq, n // 2, ('select', 'insert'))

    def carried(shard):
        for made, shown in itertools.product(CARRIERS, repeat=2):
            for names in itertools.product(VALID + ['oracle'], repeat=2):
                yield (shard, made, shown, names)

    fams.append(Family('threads and contexts', list(itertools.product(CARRIERS, repeat=2)), carried, judge_carried,
                       'two configurations, building and rendering, each in the main thread, another thread, another context or a coroutine'))

    big = [n for n in scale.sizes(tier) if n <= (1000 if deep else 65)]
    fams.append(Family('long configure histories', [big[i::12] for i in range(12)], long_histories, judge_history, 'up to %d configure calls in 9 patterns' % big[-1]))
    return fams
