"""Running histories of builder calls on the real library and on the reference model side by side."""
import itertools

from . import spec
from .core import Problem, builder, outcome, use
from .terms import T, plain

CONFIRM = {'update_all': 'ConfirmUpdateAllException', 'delete_all': 'ConfirmDeleteAllException'}


def expected(func, *args):
    """Outcome demanded by the specification: ('ok', value) or ('exc', class name or None, True)."""
    try:
        return ('ok', func(*args))
    except spec.Reject as exc:
        return ('exc', CONFIRM.get(exc.kind), True)


def differs(want, got):
    if want[0] == 'ok':
        return got != want
    return got[0] != 'exc' or not got[2] or (want[1] is not None and got[1] != want[1])


def render(query):
    return outcome(str, query)


class Pair:
    """The real query and its model, moving in lock step."""

    def __init__(self, term, b, like=None):
        """like: the term the model runs, when that is not the same (see terms.plain)"""
        self.b = b
        self.problem = None
        want = expected(spec.new, like or term, b)
        got = outcome(builder.new, term)
        if want[0] != got[0] or (got[0] == 'exc' and not got[2]):
            self.problem = Problem('creating the query', want, got)
        self.real = got[1] if got[0] == 'ok' else None
        self.model = want[1] if want[0] == 'ok' else None
        if self.problem is None and self.real is not None:
            for o, same in zip(term[4], (like or term)[4]):
                self.step(o, same)
                if self.problem:
                    break

    def step(self, o, like=None):
        """Applies one call to both; a call the model rejects must be rejected by the library."""
        model = self.model.copy()
        want = expected(model.apply, like or o, self.b)
        got = outcome(builder.apply, self.real, o)
        if want[0] == 'ok':
            if got[0] != 'ok':
                self.problem = Problem('%s was refused' % show(o), 'accepted', got)
            elif got[1] is not self.real:
                self.problem = Problem('%s did not return the query (calls cannot be chained)' % show(o),
                                       'the query', repr(type(got[1])))
            self.model = model
            return 'ok'
        if got[0] != 'exc':
            self.problem = Problem('%s was accepted' % show(o), 'an exception of the library', 'accepted')
        elif not got[2]:
            self.problem = Problem('%s raised a foreign exception' % show(o), 'an exception of the library', got)
        return 'rejected'

    def check(self, what='rendering'):
        if self.problem is None and self.real is not None:
            want = expected(self.model.render, self.b)
            got = render(self.real)
            if differs(want, got):
                self.problem = Problem(what, want, got)
        return self.problem


def show(o):
    return '%s(%s)' % (o[0], ', '.join([repr(a) for a in o[1]] + ['%s=%r' % k for k in o[2]]))


def judge_query(ctx, case):
    """case: (backend, query term): the rendered text is exactly the specified one."""
    b, term = case
    use(b)
    pair = Pair(term, b)
    problem = pair.check()
    if problem is None and pair.real is not None:
        text = render(pair.real)
        ctx.state(b, text)
        ctx.saw(text)
    return problem


def judge_subclasses(ctx, case):
    """case: (backend, query term with subclasses in it): means the same as the plain one."""
    b, term = case
    use(b)
    pair = Pair(term, b, plain(term))
    problem = pair.check()
    if problem is None and pair.real is not None:
        ctx.state(b, term)
        ctx.saw(render(pair.real))
    return problem


def judge_term(ctx, case):
    """case: (backend, any SQL term)"""
    b, term = case
    use(b)
    want = expected(spec.text_of, term, b)
    got = outcome(lambda: str(builder.build(term)))
    ctx.saw(got)
    ctx.state(b, got)
    if differs(want, got):
        return Problem('rendering', want, got)
    return None


def sequences(ops, depth, start=0):
    for n in range(start, depth + 1):
        yield from itertools.product(ops, repeat=n)


def with_prefix(ops, depth, start=0):
    """Shards for `sequences`: (prefix) so that each shard enumerates the sequences starting with it."""
    return [()] + [(o,) for o in ops]


def query_term(ctor, ops, args=(), kwds=()):
    return T(('Query', ctor, tuple(args), tuple(kwds), tuple(ops)))


def seq_shards(ops, depth, backends, split=1):
    """Shards covering all sequences of 0..depth calls: (backend, prefix, number of free calls)."""
    shards = []
    for b in backends:
        for n in range(0, depth + 1):
            k = min(split, n)
            if n < depth and len(ops) ** n < 2000:
                k = 0
            for prefix in itertools.product(ops, repeat=k):
                shards.append((b, prefix, n - k))
    return shards


def seq_cases(ops, ctor, args=(), before=(), after=()):
    def cases(shard):
        b, prefix, free = shard
        for rest in itertools.product(ops, repeat=free):
            yield (b, query_term(ctor, tuple(before) + prefix + rest + tuple(after), args))
    return cases
