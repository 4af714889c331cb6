"""C06: UPDATE or DELETE of all rows is impossible without explicit consent."""
import itertools

from . import scale, spec
from .core import Family, Problem, builder, outcome, use
from .hist import expected, show
from .spec import BACKENDS
from .terms import And, C, D, Exists, Not, OD, Obj, Or, Q, R, Rel, V, op, sel

ASSUMPTIONS = (
    'which condition objects are empty (add nothing) is decided by the reference model in mc/spec.py from the '
    'description of the calls alone',
)

SUB = sel(op('columns', 'k'), op('from_', 's'))
CONDITIONS = [     # add a condition, however false its value looks
    op('where', 'a', 1), op('where', a=0), op('where', a=None), op('where', a=''), op('where', a=False),
    op('where', Q(a=1)), op('where', Or(Q(), Q(a=2))), op('where', Not(a=1)), op('where', C('x > y')),
    op('where', Exists(SUB)), op('where', Q(Q(), Q(b=0))), op('where', Q(), b=3),
]
MORE_CONDITIONS = [
    op('where', [('a', 1), ('b', None)]), op('where', ('a', 1), ('b', 2)), op('where', D(('a', 1), ('b', ''))),
    op('where', OD(('b', 1), ('a', 1))), op('where', 'a', [None]), op('where', a=(1, None)), op('where', 'a', Rel('NE', 0)),
    op('where', 'a', Rel('IS', None)), op('where', 'a', R('b')), op('where', V(1), 1), op('where', Not(Q(), b=2)),
    op('where', And(And(Q(), Q()), Q(a=0))), op('where', Or(Or(Q(a=1), Q()), Q())), op('where', Not(Not(a=1))),
    op('where', a=0.0), op('where', 'a', Rel('LIKE', '')), op('where', Q(a=1), Q(b=2)), op('where', Not(Exists(SUB))),
]
EMPTY = [          # add nothing
    op('where'), op('where', Q()), op('where', Not()), op('where', And(Q(), Q())), op('where', Or(Q(), Q())),
    op('where', Q(Q(), Q())), op('where', D()), op('where', Not(Q())), op('where', Q(), Q()),
]
MORE_EMPTY = [
    op('where', OD()), op('where', Q(Q(Q()))), op('where', And(Or(Q(), Q()), Q())), op('where', Not(Not())),
    op('where', Or(Q(Q()), And(Q(), Q()))), op('where', Q(D())), op('where', Q(Not())), op('where', Not(), Q()),
    op('where', And(Q(Not()), Q())),
]
REJECTED = [op('where', 'a'), op('where', 1, 2), op('where', 'a', Obj()), op('where', 'a', 1, 2), op('where', True, 1)]
OTHER = {
    'update': [op('set', 'z', 1), op('set', C('z = 1')), op('ignore'), op('ignore', False), op('join', 'j'),
               op('on', 't.a', 'j.b'), op('table', 'u')],
    'delete': [op('delete', 'u'), op('ignore'), op('ignore', False), op('join', 'j'), op('on', 't.a', 'j.b'),
               op('from_', 'u'), op('from_table', 'v', 'w')],
}
CTOR = {'update': ('update', ('t',)), 'delete': ('delete_from', ('t',))}
OBSERVE = ['render', 'copy', 'copy+allow', 'copy+forbid', 'copy+where', 'other+allow', 'has', 'compare']


def consent(kind):
    return [op('allow_%s_all' % kind), op('forbid_%s_all' % kind)]


def observe(kind, real, step):
    """Steps that must not matter; returns the query to go on with."""
    if step == 'render':
        outcome(str, real)
        outcome(repr, real)
    elif step == 'copy':
        return real.copy()
    elif step == 'other+allow':
        getattr(builder.new(sel_term(kind)), 'allow_%s_all' % kind)().where(x=1)
    elif step == 'has':
        real.has('where')
        outcome(real.has, 'where', 'a')
    elif step == 'compare':
        bool(real == real.copy())
    else:
        copy = real.copy()
        if step == 'copy+where':
            copy.where(zz=1)
        else:
            getattr(copy, '%s_%s_all' % (step[5:], kind))()
    return real


def sel_term(kind):
    ctor, args = CTOR[kind]
    return ('Query', ctor, args, (), ())


def judge(ctx, case):
    b, kind, steps = case
    use(b)
    model = spec.new(sel_term(kind), b)
    real = builder.new(sel_term(kind))
    for step in steps:
        if isinstance(step, str):
            real = observe(kind, real, step)
            continue
        trial = model.copy()
        want = expected(trial.apply, step, b)
        got = outcome(builder.apply, real, step)
        if want[0] == 'ok':
            model = trial
            if got[0] != 'ok':
                if step[0] == 'where':
                    return Problem('%s was refused' % show(step), 'accepted', got)
                return None         # another property's business
        elif got[0] == 'ok':
            return None             # same
    return check(ctx, b, kind, model, real)


def check(ctx, b, kind, model, real):
    got = outcome(str, real)
    ctx.saw(got)
    ctx.state(b, kind, model.consent, model.where.is_set and model.where.text(b), got)
    confirm = 'Confirm%sAllException' % kind.capitalize()
    if not model.where.is_set and not model.consent:
        return None if got == ('exc', confirm, True) else Problem('no condition and no consent', confirm, got)
    if got[0] != 'ok':
        if got[1] == confirm or model.where.is_set:
            return Problem('refused in spite of %s' % ('a condition' if model.where.is_set else 'consent'), 'SQL', got)
        return Problem('refused in spite of consent', 'SQL', got)
    if model.where.is_set:
        text = ' WHERE ' + model.where.text(b)
        if not got[1].endswith(text):
            return Problem('the condition is not (completely) in the statement', '...' + text, got)
    elif 'WHERE' in got[1]:
        return Problem('a WHERE clause without a condition', 'no WHERE', got)
    return None


def families(tier):
    deep = tier == 'thorough'
    fams = []

    def family(name, alphabet, depth, backends, bound, split=1, kinds=('update', 'delete')):
        shards = []
        for b in backends:
            for kind in kinds:
                steps = alphabet(kind)
                for n in range(depth + 1):
                    k = split if n == depth else 0
                    for prefix in itertools.product(steps, repeat=min(k, n)):
                        shards.append((b, kind, prefix, n - len(prefix)))

        def cases(shard):
            b, kind, prefix, free = shard
            for rest in itertools.product(alphabet(kind), repeat=free):
                yield (b, kind, prefix + rest)
        fams.append(Family(name, shards, cases, judge, bound % depth))

    family('all steps', lambda k: consent(k) + CONDITIONS + EMPTY + REJECTED + OTHER[k] + OBSERVE, 3,
           ('sql',) if not deep else BACKENDS, 'all sequences of <=%d steps')
    family('all conditions', lambda k: consent(k) + CONDITIONS + EMPTY + MORE_CONDITIONS + MORE_EMPTY + REJECTED, 3 if deep else 2,
           BACKENDS, 'all sequences of <=%d conditions, empty conditions and refused ones')
    core = lambda k: consent(k) + ['render', 'copy', op('where', 'a', 1), op('where', Q()), op('where'), 'copy+allow']  # noqa: E731
    family('consent and copies', core, 6 if deep else 5, ('sql',), 'all sequences of <=%d of 8 core steps', 2)
    family('consent only', lambda k: consent(k) + ['copy', 'render', op('where', Not())], 8 if deep else 6, ('mysql',),
           'all sequences of <=%d of 5 steps', 2)
    if deep:
        some = lambda k: (consent(k) + CONDITIONS[::3] + EMPTY[::2] + REJECTED[:2] + OTHER[k][::2] + OBSERVE[:5])  # noqa: E731
        family('every other step', some, 4, ('postgresql', 'sqlite'), 'all sequences of <=%d of about half of the steps', 2)

    # Everything else that can be called, in all sequences: none of it is a condition.
    joins = [op(m, t) for m in ('join', 'left_join', 'right_join', 'inner_join') for t in ('j', ('k', 'x'), (SUB, 's'))][::2]
    ons = [op('on', 't.a', 'j.b'), op('on', a='b', c=1), op('on', Q(a=1, b=2)), op('on', Or(Q(a=1), Q(b='c'))), op('on', C('a = b')), op('on', [('p', 1), ('q', None)]), op('on', Exists(SUB))]
    more = {'update': [op('set', a=1, b=2), op('set', [('where', 'where'), ('c', None)]), op('set', 'a', SUB), op('table', ('u', 'where')), op('set', C('x = y'))],
            'delete': [op('delete', 'u', ('v', 'w')), op('from_', 'u', ('where', 'x')), op('from_', D(('a', 'b'))), op('from_tables', 'p', 'q'), op('delete', 'where')]}
    family('other calls', lambda k: consent(k) + OTHER[k] + more[k] + joins + ons, 4 if deep else 3, BACKENDS if deep else ('sql', 'mysql'), 'all sequences of <=%d calls that add no condition')

    # Texts that may look like no condition.
    texts = ['f()', '()', '(())', '( )', 'NOT (a)', 'NOT ()', '1', '0', '1=1', '0=1', 'NULL', 'TRUE', 'FALSE', 'None', 'a', '(a)', '-- x', '/**/', "''", '""', '``', '%s', '%(where)s', '{}', '*', ',', ';', '()()', 'f() AND g()',
             'x() OR ()', '(SELECT 1)', 'EXISTS()', 'a IN ()', 'a IS NULL', '\\', '-', 'x' * 300, '((((((a))))))', '()' * 50]

    def text_cases(shard):
        b, kind = shard
        allow, forbid = consent(kind)
        for text in texts:
            for w in (op('where', C(text)), op('where', Q(C(text))), op('where', Q(Q(), C(text))), op('where', Not(C(text))), op('where', 'a', C(text)), op('where', C(text), 1),
                      op('where', 'a', text), op('where', text, 1), op('where', 'a', V(text)), op('where', 'a', Rel('NE', text)), op('where', 'a', [text]), op('where', And(Q(C(text)), Q())), op('where', Or(Q(), Q(C(text)))),
                      op('where', text, None), op('where', text, ''), op('where', 'a', R(text)), op('where', Not(Q(), Q(C(text))))):
                for steps in ((w,), (w, forbid), (allow, w), (w, w), (w, 'copy'), (op('where', Q()), w), (w, op('where', Not()))):
                    yield (b, kind, steps)

    fams.append(Family('conditions of any text', [(b, k) for b in BACKENDS for k in ('update', 'delete')], text_cases, judge, '%d texts as custom SQL, as a value, as a column' % len(texts)))

    def without(shard):
        b, kind, sizes = shard
        ctor, args = CTOR[kind]
        for n in sizes:
            for _, term in scale.terms(kind, n):
                if term[1] != ctor:
                    continue
                ops = tuple(o for o in term[4] if o[0] != 'where')
                for extra in ((), (op('where', Q()),), (consent(kind)[0],), consent(kind)):
                    yield (b, kind, ops + tuple(extra))
                    yield (b, kind, tuple(extra) + ops)

    big = scale.sizes(tier)
    fams.append(Family('growing without a condition', [(b, k, big[i::8]) for b in (BACKENDS if deep else ('mysql',)) for k in ('update', 'delete') for i in range(8)], without, judge,
                       scale.bound(('update', 'delete'), big)))

    def grown(shard):
        b, kind = shard
        allow, forbid = consent(kind)
        cond, empty, bad = op('where', 'a', 0), op('where', Q()), op('where', 'a')
        for n in scale.sizes(tier):
            fillers = [(s,) * n for s in OTHER[kind] + EMPTY + REJECTED + ['render', 'copy', 'copy+allow', 'copy+forbid', 'copy+where', 'other+allow']]
            fillers += [(allow, forbid) * n, (forbid, allow) * n, (allow,) * n, (forbid,) * n, (empty, 'render') * n, (allow, 'copy', forbid) * n]
            fillers += [tuple(op('where', Rel_chain) for Rel_chain in [scale.nest(min(n, 25), Q(), lambda x, i: wrap(x)) for wrap in (Q, Not, lambda x: And(x, Q()), lambda x: Or(Q(), x), lambda x: Q(x, Not()))])]
            fillers += [(op('where', *([Q()] * n)),), (op('where', *([Q(), Not()] * n)),)] if n else []
            fillers += [(op('where', *[Q(**{c: i}) for i, c in enumerate(scale.names(n))]),), (op('where', D(*[(c, None) for c in scale.names(n)])),), tuple(op('where', c, i) for i, c in enumerate(scale.names(n))),
                        (op('where', *([Q()] * n + [Q(a=0)])),), (op('where', *([Q(a=0)] + [Q()] * n)),), tuple(op('join', 'j%d' % i) for i in range(n))]
            for f in fillers:
                yield (b, kind, f)
                for more in ((allow,), (forbid,), (cond,), (empty,), (bad,), (allow, forbid), (cond, forbid)):
                    yield (b, kind, f + more)
                    yield (b, kind, more + f)

    fams.append(Family('long histories', [(b, k) for b in BACKENDS for k in ('update', 'delete')], grown, judge, 'the same steps repeated: 0-%d and up to %d times' % (60 if deep else 24, scale.sizes(tier)[-1])))
    return fams
