"""C16: threads sharing or separately building queries never disturb each other."""
import itertools
import os
import pickle
import signal

from .core import Family, Problem, builder, outcome, sp, use
from .sched import Run
from .terms import C, D, Exists, F, Gen, Not, OD, Or, Q, R, Rel, T, Un, V, op, sel

ASSUMPTIONS = (
    'two threads; scheduling points are the calls, lines or bytecodes that may touch shared memory (see the '
    'families) of the library, in the thorough tier also lines of copy.py, so C functions called there run atomically, as they do under the GIL',
    'sqlpuzzle.configure is not called while other threads work (it is a global setting)',
    'no thread changes a query the other one uses',
)

SUB = sel(op('columns', 'id'), op('from_', 's'), op('left_join', 'k'), op('on', 's.a', 'k.a'), op('join', 'k'), op('on', 'k.a', 's.a'))
QUERIES = {
    'joins': sel(op('columns', 'a', ('b', 'x')), op('from_', 't'), op('left_join', 'j'), op('on', 't.a', 'j.a'), op('join', 'j'), op('on', 'j.a', 't.a'), op('right_join', 'k')),
    'conditions': sel(op('from_', 't'), op('where', 'a', [1, None, "x'y"]), op('where', Or(Q(a=1, b=2), Q(c='z'))), op('where', Not(d=V('q'))), op('having', 'h', Rel('GT', 5)), op('where', 's', Rel('IN', {3, 1}))),
    'clauses': sel(op('columns', F('group_concat', 'c', 'c', mods=(op('order_by', ('d', 'desc')), op('separator', '-')))), op('columns', F('count_distinct', 'a')), op('from_', 't'), op('group_by', 'a'), op('order_by', OD(('z', 'desc'), ('a', 'asc'))), op('limit', 5, 6), op('distinct'),
                   op('sql_cache'), op('for_update')),
    'subselect': sel(op('columns', (SUB, 'x')), op('from_', 't'), op('where', 'a', Rel('IN', SUB))),
    'insert': T(('Query', 'insert_into', ('t',), (), (op('values', D(('b', 1), ('a', None))), op('values', c='x'), op('values', [('a', 3)]), op('ignore'), op('on_duplicate_key_update', a=1)))),
    'update': T(('Query', 'update', ('t',), (), (op('set', D(('b', 1), ('a', 'x'))), op('set', 'c', R('d')), op('join', 'j'), op('on', 'a', 'b'), op('where', a=1)))),
    'unguarded update': T(('Query', 'update', ('t',), (), (op('set', a=1),))),
    'delete': T(('Query', 'delete_from', ('t',), (), (op('delete', 't'), op('left_join', 'j'), op('on', 'a', 'b'), op('where', 'a', Gen(1, None, 2))))),
    'union': Un(sel(op('columns', 'a'), op('from_', 't')), '|', sel(op('columns', 'b'), op('from_', 'u'), op('where', a=1))),
}

def query(what, backend):
    term = {**QUERIES, **SMALL}[what]
    if what == 'insert' and backend in ('postgresql', 'sqlite'):
        upsert = op('on_duplicate_key_update', 'id', a=True) if backend == 'postgresql' else op('on_duplicate_key_update')
        term = T(term[:4] + (term[4][:-1] + (op('values', s="a'b\\", y=b'\x01', n=True), upsert),))
    return term


SMALL = {
    'small joins': sel(op('columns', 'a'), op('from_', 't'), op('left_join', 'j'), op('on', 'a', 'b')),
    'small conditions': sel(op('from_', 't'), op('where', Or(Q(a=1), Q(c=V('z'))))),
    'small insert': T(('Query', 'insert_into', ('t',), (), (op('values', a=1), op('values', c='x')))),
    'small functions': sel(op('columns', F('group_concat', 'c', mods=(op('order_by', 'd'),)))),
}


def see_compare(q):
    same, other = q.copy(), builder.build(QUERIES['unguarded update'])
    return (q == same, same == q, q != same, q == other)


def see_copy(q):
    new = q.copy()
    return (str(new), new == q)


def see_has(q):
    return [(part, text, outcome(lambda: bool(q.has(part, text)))) for part in ('where', 'tables', 'columns', 'limit') for text in (None, 'a')]


OBSERVERS = {
    'render': lambda q: str(q),
    'repr': lambda q: repr(q),
    'compare': see_compare,
    'copy': see_copy,
    'has': see_has,
    'use': lambda q: str(sp.select(q).from_((q, 'x')).where('y', q)),
    'sort': lambda q: [str(i) for i in sorted([q, sp.C('SELECT 1'), sp.C('zzz')])],
}
PARTS = {'union': ('render', 'compare', 'copy', 'use')}


def shared_objects():
    return {
        'Q': sp.Q(a=1, b=[2, None]), 'tree': sp.Q(a=1, b=2) | sp.Q(c=3), 'not': sp.Not(a=1), 'F': sp.group_concat('c').order_by('d').separator('-'),
        'sub': builder.build(SUB), 'exists': sp.exists(builder.build(SUB)), 'rel': sp.relations.IN([1, None, 2]), 'V': sp.V([1, 2]), 'R': sp.R('a.b'), 'C': sp.C('x = y'),
        'dict': {'b': 1, 'a': 2}, 'list': [3, None, 4], 'set': {1, 2, 3}, 'order': [('a', 'desc'), ('b', 'asc')],
    }


def build_select(s):
    q = sp.select('a', s['F'], (s['sub'], 'x')).from_('t').join('u').on('t.id', 'u.id').left_join((s['sub'], 'v'))
    return str(q.group_by('a').order_by(*s['order']).limit(3).offset(4).distinct())


def build_where(s):
    q = sp.select_from('t').where(s['tree']).where(s['Q'], s['not']).where('z', s['list']).where(s['dict'])
    return str(q.where('y', s['rel']).where(s['exists']).having('n', s['V']))


def build_conditions(s):
    tree = (s['Q'] & s['tree']) | sp.Q(s['dict'], x='y')
    return [str(tree), str(sp.Not(s['Q'], s['exists'])), str(s['tree'] & s['tree']), tree == ((s['Q'] & s['tree']) | sp.Q(s['dict'], x='y'))]


def build_insert(s):
    return str(sp.insert_into('t').values(s['dict']).values(a=s['sub'], z=s['F']).values([('q', s['list'])]).ignore())


def build_update(s):
    return str(sp.update('t').set(s['dict']).set('c', s['R']).where('v', s['set'] and s['rel']).where(s['tree']).ignore())


def build_delete(s):
    q = sp.delete_from('t').where(s['C']).where('a', s['V'])
    return [str(q), str(q.copy().where(s['Q'])), outcome(lambda: str(sp.delete_from('t')))]


def build_functions(s):
    return [str(sp.concat('a', s['F'], 'a')), str(sp.count(s['sub'], 'b').distinct()), str(sp.avg(sp.sum('x'))), str(sp.group_concat(s['F'], s['F']).separator("'"))]


def build_refused(s):
    q = sp.select_from('t').where(a=1)
    first = outcome(lambda: str(q.where([('b', 2), (5, 6)])))
    return [first, outcome(lambda: str(q.where('c', s['list']).columns(True))), outcome(lambda: str(q.order_by(('a', 'up')))), str(q), outcome(lambda: str(sp.V(object()))), outcome(lambda: str(sp.V([])))]


BUILDERS = {'select': build_select, 'where': build_where, 'conditions': build_conditions, 'insert': build_insert, 'update': build_update, 'delete': build_delete, 'functions': build_functions, 'refused': build_refused}


def make(scenario, backend):
    """Fresh shared objects and the bodies of the two threads."""
    kind, what, first, second = scenario
    if kind == 'observe':
        shared = builder.build(query(what, backend))
        table = OBSERVERS
    else:
        shared = shared_objects()
        table = BUILDERS
    return shared, [lambda: outcome(table[first], shared), lambda: outcome(table[second], shared)]


def afterwards(scenario, shared):
    if scenario[0] == 'observe':
        return outcome(str, shared)
    return outcome(lambda: sorted((k, str(v)) for k, v in shared.items()))


def solo(scenario, backend):
    use(backend)
    out = []
    for i in (0, 1):
        _, bodies = make(scenario, backend)
        out.append(bodies[i]())
    shared, _ = make(scenario, backend)
    return out + [afterwards(scenario, shared)]


def in_child(func, *args):
    """Runs func in a forked process: the library there is as freshly imported."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            data = pickle.dumps(func(*args))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def schedule(case):
    backend, mode, scenario, grain, start, switches = case
    use(backend)
    shared, bodies = make(scenario, backend)
    run = Run(bodies, start, switches, grain).execute()
    if run.deadlock:
        return {'deadlock': True, 'results': [None, None, None], 'used': run.used, 'blocked': run.blocked}
    return {'deadlock': False, 'results': list(run.results) + [afterwards(scenario, shared)], 'used': run.used, 'blocked': run.blocked}


_SOLO = {}
_LAST = {}          # feedback to the enumeration: did the last schedule take all its switches?


def judge(ctx, case):
    backend, mode, scenario, grain, start, switches = case
    key = (backend, scenario)
    if key not in _SOLO:
        _SOLO[key] = in_child(solo, scenario, backend)
    want = _SOLO[key]
    if mode == 'warm':
        got = schedule(case)
    else:
        got = in_child(schedule, case)
    _LAST['used'] = len(switches) if got is None else got['used']
    if got is None:
        return Problem('the process of the two threads died', want, None)
    if got['deadlock']:
        return Problem('the threads wait for each other', want, 'deadlock')
    ctx.state(scenario, start, switches, grain)
    ctx.transitions += sum(switches)
    ctx.count('schedules')
    if got['blocked']:
        ctx.count('schedules_with_blocked_thread')
    ctx.saw((scenario, got['results']))
    for i, who in enumerate(('first thread', 'second thread', 'shared objects afterwards')):
        if got['results'][i] != want[i]:
            return Problem('result of the %s differs from working alone' % who, want[i], got['results'][i])
    return None


def one_switch(shard):
    backend, mode, scenario, grain, start, residue, step = shard
    k = residue
    while True:
        yield (backend, mode, scenario, grain, start, (k,))
        if _LAST.get('used', 0) < 1:
            return
        k += step


def two_switches(shard):
    backend, mode, scenario, grain, start, residue, step = shard
    k = residue
    while True:
        n = 0
        while True:
            yield (backend, mode, scenario, grain, start, (k, n))
            if _LAST.get('used', 0) < 2:
                break
            n += 1
        if _LAST.get('used', 0) < 1:
            return
        k += step


def observe_scenarios(queries, observers):
    for what in queries:
        for a, b in itertools.combinations_with_replacement([o for o in observers if o in PARTS.get(what, OBSERVERS)], 2):
            yield ('observe', what, a, b)


def build_scenarios(builders):
    for a, b in itertools.combinations_with_replacement(builders, 2):
        yield ('build', 'shared', a, b)


def shards_of(scenarios, mode, grain, step, backend='sql'):
    out = []
    for s in scenarios:
        for start in (0, 1) if s[2] != s[3] else (0,):
            out += [(backend, mode, s, grain, start, r, step) for r in range(step)]
    return out


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def add(name, scenarios, mode, grain, gen, step, backend='sql'):
        bound = 'all schedules with %d preemption(s) at %s%s' % (
            1 if gen is one_switch else 2, grain, ', library freshly imported' if mode == 'cold' else '')
        fams.append(Family(name, shards_of(list(scenarios), mode, grain, step, backend), gen, judge, bound))

    all_q, all_o, all_b = tuple(QUERIES), tuple(OBSERVERS), tuple(BUILDERS)
    render = [('observe', q, 'render', 'render') for q in all_q]
    same = [('build', 'shared', b, b) for b in all_b]
    if not deep:
        add('observing', [s for s in observe_scenarios(all_q, all_o) if s[2] == 'render' and (s[1] == 'joins' or s[3] == 'copy' or (s[1] == 'conditions' and s[3] in ('compare', 'has')))], 'warm', 'lines', one_switch, 1)
        add('cold: rendering', render, 'cold', 'lines', one_switch, 1)
        add('cold: building', same, 'cold', 'lines', one_switch, 2)
        add('building with shared objects', [s for s in build_scenarios(all_b) if s[2] != s[3]], 'warm', 'calls', one_switch, 1)
        add('observing, all pairs', observe_scenarios(tuple(SMALL) + ('unguarded update', 'union'), ('render', 'compare', 'copy', 'has')), 'warm', 'calls', one_switch, 1, 'postgresql')
        add('observing, other queries', [s for s in observe_scenarios(all_q, ('render', 'compare', 'has')) if s[2] == 'render' != s[3]], 'warm', 'calls', one_switch, 1, 'mysql')
        for b in ('mysql', 'postgresql', 'sqlite'):
            add('cold: rendering, ' + b, render, 'cold', 'calls', one_switch, 1, b)
            add('cold: rendering strings and rows, ' + b, [('observe', q, 'render', 'render') for q in ('conditions', 'insert')], 'cold', 'lines', one_switch, 2, b)
            add('building, ' + b, same, 'warm', 'calls', one_switch, 1, b)
        add('bytecode: rendering', render[:5], 'warm', 'bytecodes', one_switch, 2)
        add('two preemptions', [('observe', q, 'render', 'render') for q in ('small joins', 'small functions')], 'warm', 'calls', two_switches, 8)
    else:
        add('observing, all pairs', observe_scenarios(all_q + tuple(SMALL), all_o), 'warm', 'calls', one_switch, 1, 'postgresql')
        for b in ('mysql', 'postgresql', 'sqlite'):
            add('cold: rendering, ' + b, render, 'cold', 'lines', one_switch, 1, b)
            add('cold: building, ' + b, same, 'cold', 'calls', one_switch, 1, b)
        add('observing', observe_scenarios(all_q, all_o), 'warm', 'lines', one_switch, 1)
        add('copying', [s for s in observe_scenarios(all_q, ('render', 'compare', 'copy')) if 'copy' in s[2:]], 'warm', 'lines+copy', one_switch, 4)
        add('cold: observing', [s for s in observe_scenarios(all_q, all_o) if 'render' in s[2:]], 'cold', 'lines', one_switch, 2)
        add('cold: building', build_scenarios(all_b), 'cold', 'lines', one_switch, 2)
        add('building, mysql', build_scenarios(all_b), 'warm', 'lines', one_switch, 2, 'mysql')
        add('bytecode: observing', [s for s in observe_scenarios(all_q, all_o) if s[2] == 'render'], 'warm', 'bytecodes', one_switch, 4)
        add('bytecode: building', same, 'cold', 'bytecodes', one_switch, 8)
        add('two preemptions', [('observe', q, 'render', 'render') for q in SMALL], 'warm', 'lines', two_switches, 64)
        add('two preemptions, larger', render, 'warm', 'calls', two_switches, 64)
        add('two preemptions, building', same, 'warm', 'calls', two_switches, 16)
    return fams
