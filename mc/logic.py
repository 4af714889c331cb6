"""Three-valued evaluation of condition terms on a row (True, False or None), independent of any SQL text."""
import re

from .terms import T


def and3(values):
    out = True
    for v in values:
        if v is False:
            return False
        if v is None:
            out = None
    return out


def or3(values):
    out = False
    for v in values:
        if v is True:
            return True
        if v is None:
            out = None
    return out


def not3(v):
    return None if v is None else not v


EMPTY = object()     # a condition that adds nothing


def evaluate(x, row, b):
    """x: a condition term. Returns True/False/None or EMPTY."""
    tag = x[0]
    if tag == 'Q':
        return conj(list(conditions(x[1], x[2])), row, b)
    if tag in ('And', 'Or'):
        sides = [v for v in (evaluate(x[1], row, b), evaluate(x[2], row, b)) if v is not EMPTY]
        if not sides:
            return EMPTY
        return and3(sides) if tag == 'And' else or3(sides)
    if tag == 'Not':
        inner = conj(list(conditions(x[1], x[2])), row, b)
        return EMPTY if inner is EMPTY else not3(inner)
    if tag == 'Exists':
        return x[1][4][-1][1][0] != 'none'      # EXISTS(select .. from 'none'|'some')
    if tag == 'pair':
        return compare(column(x[1], row), x[2], row, b)
    raise AssertionError(x)


def conditions(args, kwds):
    """The conditions of one call, as terms; only the plain shapes are used here."""
    if args and all(type(a) is T and a[0] in ('Q', 'And', 'Or', 'Not', 'Exists') for a in args):
        yield from args
    elif len(args) == 2:
        yield T(('pair', args[0], args[1]))
    else:
        assert not args, args
    for k, v in kwds:
        yield T(('pair', k, v))


def conj(conds, row, b):
    values = [v for v in (evaluate(c, row, b) for c in conds) if v is not EMPTY]
    return and3(values) if values else EMPTY


# What the custom SQL texts used in the checks mean.
EXPRESSIONS = {
    'b + 1': ('b', lambda x: x + 1),
    'a + 1': ('a', lambda x: x + 1),
    'a % 2': ('a', lambda x: x % 2),
    "a * length('%(val)s')": ('a', lambda x: x * 7),
    "s || '%s'": ('s', lambda x: x + '%s'),
}


def column(c, row):
    return scalar(c, row) if type(c) is T else row[c]


def scalar(v, row):
    if type(v) is T:
        if v[0] == 'R':
            return row[v[1]]
        if v[0] == 'V':
            return v[1]
        if v[0] == 'C':
            name, function = EXPRESSIONS[v[1]]
            return None if row[name] is None else function(row[name])
    return v


def items(v):
    if type(v) is T and v[0] == 'Gen':
        return list(v[1])
    if type(v) is T and v[0] == 'Query':
        return [1, 2]            # the only subselect used: SELECT k FROM some
    return list(v)


def compare(left, value, row, b):
    if type(value) is T and value[0] == 'Rel':
        rel, args = value[1], value[2]
        value = args if len(args) > 1 else args[0] if args else []
    elif type(value) in (list, tuple, range) or (type(value) is T and value[0] == 'Gen'):
        rel = 'IN'
    elif value is None:
        rel = 'IS'
    else:
        rel = 'EQ'
    if rel in ('IN', 'NOT_IN'):
        members = [scalar(i, row) for i in items(value)]
        plain = [m for m in members if m is not None]
        with_null = None in members
        if left is None:
            found = True if with_null else None      # the caller's meaning: None matches NULL
        else:
            found = left in plain
        if rel == 'IN':
            return found
        return not3(found)
    right = scalar(value, row)
    if rel in ('IS', 'IS_NOT'):
        if right is None:
            result = left is None
        elif b == 'postgresql':
            result = left is not None and bool(left) == right
        else:
            result = left is not None and left == int(right)
        return result if rel == 'IS' else not result
    if left is None or right is None:
        return None
    if rel == 'EQ':
        return left == right
    if rel == 'NE':
        return left != right
    if rel == 'GT':
        return left > right
    if rel == 'GE':
        return left >= right
    if rel == 'LT':
        return left < right
    if rel == 'LE':
        return left <= right
    if rel in ('LIKE', 'NOT_LIKE'):
        pattern = ''.join('.*' if c == '%' else '.' if c == '_' else re.escape(c) for c in right)
        result = re.fullmatch(pattern, left, re.I) is not None
        return result if rel == 'LIKE' else not result
    if rel == 'REGEXP':
        return re.search(right, left) is not None
    raise AssertionError(rel)
