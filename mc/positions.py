"""Every place of the public interface that takes a value, a name or an alias (as terms with a hole)."""
from .terms import And, C, D, Exists, F, Gen, Not, OD, Or, Q, Query, R, Rel, Un, V, op, sel

BASE = (op('from_', 't'),)


def _where(value):
    return sel(*BASE, op('where', 'c', value))


VALUE = {
    'V': lambda v: V(v),
    'where pair': _where,
    'where keyword': lambda v: sel(*BASE, op('where', c=v)),
    'where dict': lambda v: sel(*BASE, op('where', D(('c', v)))),
    'where OrderedDict': lambda v: sel(*BASE, op('where', OD(('c', v)))),
    'where list of pairs': lambda v: sel(*BASE, op('where', [('c', v), ('d', 1)])),
    'where tuples': lambda v: sel(*BASE, op('where', ('c', v), ('d', 1))),
    'where V': lambda v: _where(V(v)),
    'having': lambda v: sel(*BASE, op('having', 'c', v)),
    'Q': lambda v: sel(*BASE, op('where', Q(c=v))),
    'Q and': lambda v: sel(*BASE, op('where', And(Q(c=v), Q(d=2)))),
    'Q or': lambda v: sel(*BASE, op('where', Or(Q(d=2, e=3), Q(c=v, f=4)))),
    'Not': lambda v: sel(*BASE, op('where', Not(c=v))),
    'IN first': lambda v: _where([v, 'z']),
    'IN last': lambda v: _where(('z', v)),
    'IN with None': lambda v: _where([None, v]),
    'IN generator': lambda v: _where(Gen(v)),
    'IN relation': lambda v: _where(Rel('IN', [v, 'z'])),
    'IN relation arguments': lambda v: _where(Rel('IN', 'z', v)),
    'NOT_IN': lambda v: _where(Rel('NOT_IN', ['z', v, None])),
    'V list': lambda v: sel(op('columns', V([v, 'z']))),
    'V nested list': lambda v: V([[v, 1], ['z', 2]]),
    'V tuple': lambda v: V((1, v)),
    'V generator': lambda v: V(Gen(1, v)),
    'where V list': lambda v: _where(V(['z', v])),
    'on V': lambda v: sel(*BASE, op('join', 'j'), op('on', 'c', V(v))),
    'on IN': lambda v: sel(*BASE, op('join', 'j'), op('on', 'c', [v])),
    'column V': lambda v: sel(op('columns', V(v), 'z')),
    'column V alias': lambda v: sel(op('columns', (V(v), 'z'))),
    'order V': lambda v: sel(*BASE, op('order_by', (V(v), 'desc'))),
    'group V': lambda v: sel(*BASE, op('group_by', V(v))),
    'function V': lambda v: sel(op('columns', F('max', V(v)))),
    'function list': lambda v: sel(op('columns', F('count', ['z', V(v)]))),
    'concat V': lambda v: sel(op('columns', F('concat', 'z', V(v), 'y'))),
    'condition column V': lambda v: sel(*BASE, op('where', V(v), 1)),
    'subselect': lambda v: sel(op('from_', (_where(v), 's'))),
    'subselect value': lambda v: sel(*BASE, op('where', 'x', Rel('IN', _where(v)))),
    'exists': lambda v: sel(*BASE, op('where', Exists(_where(v)))),
    'union left': lambda v: Un(_where(v), '&', sel()),
    'union right': lambda v: Un(sel(), '|', _where(v)),
    'insert': lambda v: Query('insert_into', op('values', c=v), args=('t',)),
    'insert pairs': lambda v: Query('insert_into', op('values', ('c', v), ('d', 1)), args=('t',)),
    'insert second row': lambda v: Query(
        'insert_into', op('values', c=1, d=2), op('values', [('a', 0), ('c', v)]), args=('t',)),
    'insert V': lambda v: Query('insert_into', op('values', 'c', V(v)), args=('t',)),
    'update': lambda v: Query('update', op('set', c=v), op('where', 'i', 1), args=('t',)),
    'update pairs': lambda v: Query('update', op('set', [('b', 0), ('c', v)]), op('allow_update_all'), args=('t',)),
    'update V': lambda v: Query('update', op('set', 'c', V(v)), op('allow_update_all'), args=('t',)),
    'update where': lambda v: Query('update', op('set', a=1), op('where', c=v), args=('t',)),
    'delete where': lambda v: Query('delete_from', op('where', 'c', v), args=('t',)),
}
for _rel in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP'):
    VALUE[_rel] = lambda v, _rel=_rel: _where(Rel(_rel, v))
    VALUE['having ' + _rel] = lambda v, _rel=_rel: sel(*BASE, op('having', 'c', Rel(_rel, v)))

# Values that have to be strings.
STRING_ONLY = {
    'separator': lambda v: sel(op('columns', F('group_concat', 'z', mods=(op('separator', v),)))),
    'separator and order': lambda v: sel(op('columns', F(
        'group_concat', 'z', mods=(op('separator', v), op('order_by', ('y', 'desc')))))),
    'outfile': lambda v: sel(*BASE, op('into_outfile', v)),
    'fields_terminated_by': lambda v: sel(*BASE, op('into_outfile', 'o'), op('fields_terminated_by', v)),
    'lines_terminated_by': lambda v: sel(*BASE, op('lines_terminated_by', v), op('into_outfile', 'o')),
    'optionally_enclosed_by': lambda v: sel(
        *BASE, op('into_outfile', 'o'), op('optionally_enclosed_by', v), op('for_update')),
}


def upsert(b, v):
    """The upsert position exists on two backends only."""
    if b == 'mysql':
        return Query('insert_into', op('values', c=1), op('on_duplicate_key_update', c=v), args=('t',))
    if b == 'postgresql':
        return Query('insert_into', op('values', c=1), op('on_duplicate_key_update', 'i', c=v), args=('t',))
    return None


NAME = {
    'R': lambda n: R(n),
    'column': lambda n: sel(op('columns', n), *BASE),
    'column constructor': lambda n: Query('select', args=('z', n)),
    'column with alias': lambda n: sel(op('columns', (n, 'z')), *BASE),
    'column dict': lambda n: sel(op('columns', D((n, 'z'))), *BASE),
    'table': lambda n: sel(op('from_', 'z', n)),
    'table constructor': lambda n: Query('select_from', args=(n,)),
    'table with alias': lambda n: sel(op('from_', (n, 'z'))),
    'from_table': lambda n: sel(op('from_table', n)),
    'where column': lambda n: sel(*BASE, op('where', n, 1)),
    'where column text': lambda n: sel(*BASE, op('where', n, 'v')),
    'where column dict': lambda n: sel(*BASE, op('where', D((n, 1)))),
    'where column IN': lambda n: sel(*BASE, op('where', n, [1, 2])),
    'where column IN None': lambda n: sel(*BASE, op('where', n, [None])),
    'where R': lambda n: sel(*BASE, op('where', 'z', R(n))),
    'where relation R': lambda n: sel(*BASE, op('where', 'z', Rel('LE', R(n)))),
    'having column': lambda n: sel(*BASE, op('having', n, Rel('GT', 1))),
    'Q column': lambda n: sel(*BASE, op('where', Or(Q((n, 1), ('y', 2)), Q(x=3)))),
    'Not column': lambda n: sel(*BASE, op('where', Not(n, 1))),
    'order': lambda n: sel(*BASE, op('order_by', n)),
    'order desc': lambda n: sel(*BASE, op('order_by', 'z', (n, 'desc'))),
    'group': lambda n: sel(*BASE, op('group_by', n)),
    'join': lambda n: sel(*BASE, op('join', n)),
    'left join with alias': lambda n: sel(*BASE, op('left_join', (n, 'z'))),
    'join dict': lambda n: sel(*BASE, op('right_join', D((n, 'z')))),
    'on left': lambda n: sel(*BASE, op('join', 'j'), op('on', n, 'z')),
    'on right': lambda n: sel(*BASE, op('join', 'j'), op('on', 'z', n)),
    'on relation': lambda n: sel(*BASE, op('join', 'j'), op('on', 'z', Rel('GE', n))),
    'on dict': lambda n: sel(*BASE, op('join', 'j'), op('on', D(('z', n)))),
    'function': lambda n: sel(op('columns', F('avg', n))),
    'function distinct': lambda n: sel(op('columns', F('sum_distinct', n))),
    'function list': lambda n: sel(op('columns', F('max', ['z', n]))),
    'concat': lambda n: sel(op('columns', F('concat', 'z', n))),
    'group_concat order': lambda n: sel(op('columns', F(
        'group_concat', 'z', mods=(op('order_by', (n, 'desc')),)))),
    'convert': lambda n: sel(op('columns', F('convert', n, 'signed'))),
    'insert table': lambda n: Query('insert_into', op('values', c=1), args=(n,)),
    'insert column': lambda n: Query('insert_into', op('values', D((n, 1))), args=('t',)),
    'update table': lambda n: Query('update', op('set', c=1), op('allow_update_all'), args=(n,)),
    'update column': lambda n: Query('update', op('set', n, 1), op('allow_update_all'), args=('t',)),
    'update join': lambda n: Query('update', op('join', n), op('set', c=1), op('allow_update_all'), args=('t',)),
    'update where': lambda n: Query('update', op('set', 'c', 1), op('where', n, None), args=('t',)),
    'delete table': lambda n: Query('delete_from', op('allow_delete_all'), args=(n,)),
    'delete target': lambda n: Query('delete', op('from_', 't'), op('allow_delete_all'), args=(n,)),
    'delete where': lambda n: Query('delete_from', op('where', n, 1), args=('t',)),
    'subselect column': lambda n: sel(op('from_', (sel(op('columns', n)), 's'))),
    'union column': lambda n: Un(sel(op('columns', n)), '|', sel(op('columns', 'y'))),
    'exists': lambda n: sel(*BASE, op('where', Exists(sel(op('from_', n))))),
    # aliases
    'column alias': lambda n: sel(op('columns', ('z', n)), *BASE),
    'column keyword alias': lambda n: sel(op('columns', z=n), *BASE),
    'custom column alias': lambda n: sel(op('columns', (C('1'), n)), *BASE),
    'subselect column alias': lambda n: sel(op('columns', (sel(), n))),
    'table alias': lambda n: sel(op('from_', ('z', n))),
    'from_table alias': lambda n: sel(op('from_table', 'z', n)),
    'subselect alias': lambda n: sel(op('from_', (sel(), n))),
    'subselect dict alias': lambda n: sel(op('from_', D((sel(), n)))),
    'join alias': lambda n: sel(*BASE, op('join', ('z', n))),
    'join subselect alias': lambda n: sel(*BASE, op('left_join', (sel(), n))),
}


def conflict_target(b, n):
    if b == 'postgresql':
        return Query('insert_into', op('values', c=1), op('on_duplicate_key_update', n, c=2), args=('t',))
    return None


def upsert_column(b, n):
    if b == 'mysql':
        return Query('insert_into', op('values', c=1), op('on_duplicate_key_update', n, 2), args=('t',))
    if b == 'postgresql':
        return Query('insert_into', op('values', c=1), op('on_duplicate_key_update', 'i', D((n, 2))), args=('t',))
    return None


PER_BACKEND = {'upsert': upsert, 'conflict target': conflict_target, 'upsert column': upsert_column}


def term_at(table, position, b, x):
    if position in PER_BACKEND:
        return PER_BACKEND[position](b, x)
    return table[position](x)


# Two holes.  Each entry: (kind of the first, kind of the second in the order of the text, term).
TWO = {
    'two conditions': ('value', 'value', lambda x, y: sel(*BASE, op('where', 'c', x), op('where', 'd', y))),
    'two conditions at once': ('value', 'value', lambda x, y: sel(*BASE, op('where', ('c', x), ('d', y)))),
    'where and having': ('value', 'value', lambda x, y: sel(*BASE, op('having', c=y), op('where', c=x))),
    'one Q': ('value', 'value', lambda x, y: sel(*BASE, op('where', Q(c=x, d=y)))),
    'Q or Q': ('value', 'value', lambda x, y: sel(*BASE, op('where', Or(Q(c=x), Q(c=y, d=1))))),
    'IN': ('value', 'value', lambda x, y: _where([x, y])),
    'IN with None': ('value', 'value', lambda x, y: _where([None, x, 1, y])),
    'NOT_IN': ('value', 'value', lambda x, y: _where(Rel('NOT_IN', x, y))),
    'LIKE': ('value', 'value', lambda x, y: sel(*BASE, op('where', 'c', Rel('LIKE', x)), op('where', 'c', Rel('NOT_LIKE', y)))),
    'V list': ('value', 'value', lambda x, y: V([x, y])),
    'V columns': ('value', 'value', lambda x, y: sel(op('columns', (V(x), 'p'), (V(y), 'q')))),
    'concat': ('value', 'value', lambda x, y: sel(op('columns', F('concat', V(x), V(y))))),
    'separator': ('value', 'value', lambda x, y: sel(op('columns', F('group_concat', V(x), mods=(op('separator', y),))))),
    'outfile': ('value', 'value', lambda x, y: sel(*BASE, op('lines_terminated_by', y), op('into_outfile', 'o'), op('fields_terminated_by', x))),
    'subselect': ('value', 'value', lambda x, y: sel(op('from_', (_where(x), 's')), op('where', 'd', y))),
    'union': ('value', 'value', lambda x, y: Un(_where(x), '&', _where([y]))),
    'insert': ('value', 'value', lambda x, y: Query('insert_into', op('values', c=x, d=y), args=('t',))),
    'insert rows': ('value', 'value', lambda x, y: Query('insert_into', op('values', c=x), op('values', c=y), args=('t',))),
    'update': ('value', 'value', lambda x, y: Query('update', op('set', c=x), op('where', c=y), args=('t',))),
    'update two': ('value', 'value', lambda x, y: Query('update', op('set', c=x, d=y), op('allow_update_all'), args=('t',))),
    'on V': ('value', 'value', lambda x, y: sel(*BASE, op('join', 'j'), op('on', 'c', V(x)), op('on', 'd', V(y)))),
    'condition': ('name', 'value', lambda x, y: sel(*BASE, op('where', x, y))),
    'condition Q': ('name', 'value', lambda x, y: sel(*BASE, op('where', Or(Q((x, y), ('z', 1)), Q(z=2))))),
    'condition IN': ('name', 'value', lambda x, y: sel(*BASE, op('having', x, ['v', y]))),
    'condition LIKE': ('name', 'value', lambda x, y: sel(*BASE, op('where', x, Rel('LIKE', y)))),
    'on': ('name', 'value', lambda x, y: sel(*BASE, op('join', 'j'), op('on', x, V(y)))),
    'column and condition': ('name', 'value', lambda x, y: sel(op('columns', x), *BASE, op('where', 'c', y))),
    'table and condition': ('name', 'value', lambda x, y: sel(op('from_', x), op('where', 'c', y))),
    'set': ('name', 'value', lambda x, y: Query('update', op('set', x, y), op('allow_update_all'), args=('t',))),
    'insert column': ('name', 'value', lambda x, y: Query('insert_into', op('values', D((x, y))), args=('t',))),
    'value with alias': ('value', 'alias', lambda x, y: sel(op('columns', (V(x), y)))),
    'condition and order': ('value', 'name', lambda x, y: sel(*BASE, op('order_by', y), op('where', 'c', x))),
    'column with alias': ('name', 'alias', lambda x, y: sel(op('columns', (x, y)), *BASE)),
    'table with alias': ('name', 'alias', lambda x, y: sel(op('from_', (x, y)))),
    'join with alias': ('name', 'alias', lambda x, y: sel(*BASE, op('join', (x, y)), op('on', 'p', 'q'))),
    'column and table': ('name', 'name', lambda x, y: sel(op('columns', x), op('from_', y))),
    'table and join': ('name', 'name', lambda x, y: sel(op('from_', x), op('left_join', y), op('on', 'p', 'q'))),
    'join on': ('name', 'name', lambda x, y: sel(*BASE, op('join', x), op('on', y, 'q'))),
    'on equal': ('name', 'name', lambda x, y: sel(*BASE, op('join', 'j'), op('on', x, y))),
    'on less': ('name', 'name', lambda x, y: sel(*BASE, op('join', 'j'), op('on', x, Rel('LT', y)))),
    'where R': ('name', 'name', lambda x, y: sel(*BASE, op('where', x, R(y)))),
    'group and order': ('name', 'name', lambda x, y: sel(*BASE, op('order_by', (y, 'desc')), op('group_by', x))),
    'column and group': ('name', 'name', lambda x, y: sel(op('columns', x), *BASE, op('group_by', y))),
    'function and column': ('name', 'name', lambda x, y: sel(op('columns', F('count', x)), op('columns', y))),
    'function of two': ('name', 'name', lambda x, y: sel(op('columns', F('concat', x, y)))),
    'group_concat': ('name', 'name', lambda x, y: sel(op('columns', F('group_concat', x, mods=(op('order_by', y),))))),
    'alias and order': ('alias', 'name', lambda x, y: sel(op('columns', ('z', x)), *BASE, op('order_by', y))),
    'alias and alias': ('alias', 'alias', lambda x, y: sel(op('columns', ('z', x)), op('from_', ('z', y)))),
    'update and where': ('name', 'name', lambda x, y: Query('update', op('set', x, 1), op('where', y, 1), args=('t',))),
    'insert table and column': ('name', 'name', lambda x, y: Query('insert_into', op('values', D((y, 1))), args=(x,))),
    'delete and where': ('name', 'name', lambda x, y: Query('delete_from', op('where', y, 1), args=(x,))),
    'delete target': ('name', 'name', lambda x, y: Query('delete', op('from_', y), op('allow_delete_all'), args=(x,))),
}


def holes(make, build, marks, rendered, x, y):
    """The texts in the places of x and y, or None when the rest of the statement is not the one around the marks."""
    plain = build(make(*marks))
    if plain.count(rendered[0]) != 1 or plain.count(rendered[1]) != 1:
        return None
    head, rest = plain.split(rendered[0])
    middle, tail = rest.split(rendered[1]) if rendered[1] in rest else (None, None)
    if middle is None:
        return None
    left = build(make(x, marks[1]))
    right = build(make(marks[0], y))
    after, before = middle + rendered[1] + tail, head + rendered[0] + middle
    if not (left.startswith(head) and left.endswith(after) and len(left) >= len(head) + len(after)):
        return None
    if not (right.startswith(before) and right.endswith(tail) and len(right) >= len(before) + len(tail)):
        return None
    cut = lambda text, start, end: text[len(start):len(text) - len(end)]
    one, two = cut(left, head, after), cut(right, before, tail)
    return one, two, head + one + middle + two + tail
