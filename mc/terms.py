"""
Terms: plain, printable descriptions of calls and values.

A term says *what the caller does* ("a Q object with these arguments", "select().from_('t')").  It has two
interpretations that share no code: `Builder.build` turns it into real sqlpuzzle objects by calling the
public API, and mc.spec turns it into the text the specification demands.  `repr` of a term can be
evaluated again (see `ev`), which is how counterexamples are stored and replayed.
"""
import collections
import datetime
import decimal
import enum


class T(tuple):
    """A tagged term; a tuple subclass so that it is hashable, picklable and printable."""
    __slots__ = ()

    def __repr__(self):
        return 'T(%s)' % tuple.__repr__(self)

    def __eq__(self, other):
        return type(other) is T and tuple.__eq__(self, other)

    def __ne__(self, other):
        return not self == other

    __hash__ = tuple.__hash__

    @property
    def tag(self):
        return self[0]


def C(text):
    return T(('C', text))


def V(value):
    return T(('V', value))


def R(value):
    return T(('R', value))


def Q(*args, **kwds):
    return T(('Q', args, tuple(kwds.items())))


def And(left, right):
    return T(('And', left, right))


def Or(left, right):
    return T(('Or', left, right))


def Not(*args, **kwds):
    return T(('Not', args, tuple(kwds.items())))


def Exists(query):
    return T(('Exists', query))


def Rel(name, *args):
    return T(('Rel', name, args))


def F(name, *args, mods=()):
    """Function call sqlpuzzle.<name>(*args) followed by method calls `mods`."""
    return T(('F', name, args, tuple(mods)))


def Gen(*items):
    return T(('Gen', items))


def OD(*items):
    return T(('OD', items))


def D(*items):
    """Plain dict with this insertion order (keys may be terms)."""
    return T(('D', items))


def Obj():
    return T(('Obj',))


def Sub(value, kind='plain'):
    """
    The value as an instance of a subclass of its type: a plain one, one with its own texts ('text'), a member of an enum
    with that type mixed in ('enum'), a defaultdict ('default') or a namedtuple ('named').
    """
    return T(('Sub', value, kind))


def plain(x):
    """The term without subclasses."""
    if type(x) is T and x[0] == 'Sub':
        return plain(x[1])
    if type(x) in (T, list, tuple):
        return type(x)(plain(i) for i in x)
    if type(x) is dict:
        return {plain(k): plain(v) for k, v in x.items()}
    return x


def subs(x, leaf, container):
    """The term with subclasses: leaf (kind) for all the texts and numbers, container (kind) for all the containers."""
    if type(x) is T:
        if x[0] in ('OD', 'D'):
            # keys of a dict that are no texts are ordered by their texts, so leave them alone
            inside = T((x[0], tuple((subs(k, leaf, container) if isinstance(k, str) else k, subs(v, leaf, container)) for k, v in x[1])))
            return Sub(inside, container) if container else inside
        if x[0] == 'F':
            return T((x[0], x[1], subs(tuple(x[2]), leaf, None) if not container else tuple(subs(a, leaf, container) for a in x[2]), x[3]))
        if x[0] == 'Q' or x[0] == 'Not':
            return T((x[0], tuple(subs(a, leaf, container) for a in x[1]), tuple((k, subs(v, leaf, container)) for k, v in x[2])))
        if x[0] == 'Rel':
            return T((x[0], x[1], tuple(subs(a, leaf, container) for a in x[2])))
        if x[0] in ('V', 'R'):
            return T((x[0], subs(x[1], leaf, container)))
        if x[0] in ('And', 'Or'):
            return T((x[0], subs(x[1], leaf, container), subs(x[2], leaf, container)))
        if x[0] == 'Query':
            return T((x[0], x[1], tuple(subs(a, leaf, container) for a in x[2]), tuple((k, subs(v, leaf, container)) for k, v in x[3]),
                      tuple((m, tuple(subs(a, leaf, container) for a in args), tuple((k, subs(v, leaf, container)) for k, v in kwds)) for m, args, kwds in x[4])))
        return x
    if type(x) in (list, tuple):
        inside = type(x)(subs(i, leaf, container) for i in x)
        return Sub(inside, container) if container else inside
    if leaf and type(x) in (str, int, float, decimal.Decimal):
        return Sub(x, leaf)
    return x


def op(method, *args, **kwds):
    return (method, args, tuple(kwds.items()))


def Query(ctor, *ops, args=(), kwds=()):
    return T(('Query', ctor, tuple(args), tuple(kwds), tuple(ops)))


def sel(*ops):
    return Query('select', *ops)


def Un(left, operator, right):
    """operator: '&' (UNION ALL) or '|' (UNION)."""
    return T(('Un', left, operator, right))


NAMESPACE = {
    'T': T, 'datetime': datetime, 'Decimal': decimal.Decimal, 'range': range, 'set': set,
    'frozenset': frozenset, 'nan': float('nan'), 'inf': float('inf'), 'True': True, 'False': False,
    'None': None, '__builtins__': {},
}


def ev(text):
    return eval(text, dict(NAMESPACE))  # our own replay files only


class _Opaque:
    """A value of a type no SQL library can know."""
    def __repr__(self):
        return 'OPAQUE1'
    __str__ = __repr__


_SUBCLASSES = {}


def _own_text(*_args):
    return "own' text"


def subclass_instance(value, kind='plain'):
    base = type(value)
    if kind == 'enum':
        if (base, value) not in _SUBCLASSES:
            _SUBCLASSES[base, value] = enum.Enum('Enum' + base.__name__, {'MEMBER': value}, type=base)
        return _SUBCLASSES[base, value].MEMBER
    if kind == 'default' and base is dict:
        return collections.defaultdict(list, value)
    if kind == 'named' and base is tuple:
        return collections.namedtuple('Named', ['n%d' % i for i in range(len(value))])(*value)
    if (base, kind) not in _SUBCLASSES:
        inside = {'__str__': _own_text, '__repr__': _own_text, '__format__': _own_text} if kind == 'text' else {}
        _SUBCLASSES[base, kind] = type('Sub' + base.__name__, (base,), inside)
    cls = _SUBCLASSES[base, kind]
    if base is datetime.datetime:
        return cls(value.year, value.month, value.day, value.hour, value.minute, value.second, value.microsecond, value.tzinfo)
    if base is datetime.date:
        return cls(value.year, value.month, value.day)
    return cls(value)


class Builder:
    """Interprets terms by calling the real library through its public interface."""

    def __init__(self, sp):
        self.sp = sp
        self.calls = 0

    def build(self, x):
        if type(x) is not T:
            if type(x) in (list, tuple):
                return type(x)(self.build(i) for i in x)
            if type(x) is dict:
                return {self.build(k): self.build(v) for k, v in x.items()}
            return x
        sp, tag = self.sp, x[0]
        self.calls += 1
        if tag == 'C':
            return sp.C(x[1])
        if tag == 'V':
            return sp.V(self.build(x[1]))
        if tag == 'R':
            return sp.R(self.build(x[1]))
        if tag == 'Q':
            return sp.Q(*self.build(x[1]), **self.kwds(x[2]))
        if tag == 'And':
            return self.build(x[1]) & self.build(x[2])
        if tag == 'Or':
            return self.build(x[1]) | self.build(x[2])
        if tag == 'Not':
            return sp.Not(*self.build(x[1]), **self.kwds(x[2]))
        if tag == 'Exists':
            return sp.exists(self.build(x[1]))
        if tag == 'Rel':
            return getattr(sp.relations, x[1])(*self.build(x[2]))
        if tag == 'F':
            obj = getattr(sp, x[1])(*self.build(x[2]))
            for method, args, kwds in x[3]:
                obj = getattr(obj, method)(*self.build(args), **self.kwds(kwds))
            return obj
        if tag == 'Gen':
            items = self.build(x[1])
            return (i for i in items)
        if tag == 'OD':
            return collections.OrderedDict((self.build(k), self.build(v)) for k, v in x[1])
        if tag == 'D':
            return {self.build(k): self.build(v) for k, v in x[1]}
        if tag == 'Sub':
            return subclass_instance(self.build(x[1]), *x[2:])
        if tag == 'Obj':
            return _Opaque()
        if tag == 'Un':
            left, right = self.build(x[1]), self.build(x[3])
            return left & right if x[2] == '&' else left | right
        if tag == 'Query':
            query = self.new(x)
            for o in x[4]:
                self.apply(query, o)
            return query
        raise AssertionError(x)

    def kwds(self, items):
        return {k: self.build(v) for k, v in items}

    def new(self, x):
        return getattr(self.sp, x[1])(*self.build(x[2]), **self.kwds(x[3]))

    def apply(self, query, o):
        self.calls += 1
        return getattr(query, o[0])(*self.build(o[1]), **self.kwds(o[2]))
