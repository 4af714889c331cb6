"""
Reference model of sqlpuzzle, written from its documentation and the property statements.

It interprets terms (mc.terms) - never sqlpuzzle objects - and says which text the statement has to
render as on a backend, or that the call has to be rejected.  Deliberately boring: plain lists, one
function per notion, no caching, no sharing of code with the library.
"""
import datetime
import decimal

from .terms import T

BACKENDS = ('sql', 'mysql', 'postgresql', 'sqlite')
QUOTE = {'sql': '"', 'mysql': '`', 'postgresql': '"', 'sqlite': '"'}

# Terms whose real objects are "SQL objects" (rendered as they are).
SQL_TAGS = {'C', 'V', 'R', 'Q', 'And', 'Or', 'Not', 'Exists', 'Rel', 'F', 'Query', 'Un'}
COND_TAGS = {'Q', 'And', 'Or', 'Not', 'Exists'}


class Reject(Exception):
    """The call (or the rendering) has to be refused. kind: any | update_all | delete_all"""
    def __init__(self, kind='any', why=''):
        super().__init__(kind, why)
        self.kind = kind


def is_sql(x):
    return type(x) is T and x[0] in SQL_TAGS


# ---------------------------------------------------------------- names

def name_parts(text, quote):
    """'a.b' -> ['a','b']; quoted parts are taken whole. Returns list of (name, was_quoted)."""
    parts, i = [], 0
    while i <= len(text):
        j = quoted_end(text, i, quote)
        if j is not None and (j == len(text) or text[j] == '.'):
            parts.append((text[i + 1:j - 1].replace(quote * 2, quote), True))
            i = j + 1
            continue
        j = text.find('.', i)
        if j < 0:
            j = len(text)
        if j > i:
            parts.append((text[i:j], False))
        i = j + 1
    return parts


def quoted_end(text, i, quote):
    """End of the quoted identifier starting at i (exclusive), or None."""
    if i >= len(text) or text[i] != quote:
        return None
    j = i + 1
    while j < len(text):
        if text[j] == quote:
            if text[j + 1:j + 2] == quote:
                j += 2
                continue
            return j + 1 if j > i + 1 else None
        j += 1
    return None


def ident(name, b):
    q = QUOTE[b]
    return q + name.replace(q, q * 2) + q


def name(text, b):
    out = []
    for part, was_quoted in name_parts(text, QUOTE[b]):
        out.append('*' if part == '*' and not was_quoted else ident(part, b))
    return '.'.join(out)


def quoted_reference(text, b):
    """Is the string (apart from outer white space) entirely a quoted reference?  Its text, else None."""
    q = QUOTE[b]
    text = text.strip()
    i, n = 0, 0
    out = []
    while n < 3:
        j = quoted_end(text, i, q)
        if j is not None:
            out.append(ident(text[i + 1:j - 1].replace(q * 2, q), b))
        elif n:
            j = i
            while j < len(text) and text[j] not in (q, '.', ' '):
                j += 1
            if j == i:
                return None
            out.append('*' if text[i:j] == '*' else ident(text[i:j], b))
        else:
            return None
        n += 1
        if j == len(text):
            return '.'.join(out)
        if text[j] != '.':
            return None
        i = j + 1
    return None


# ---------------------------------------------------------------- values

def literal(text, b):
    if b == 'sqlite':
        return "'" + text.replace("'", "''") + "'"
    if b == 'postgresql':
        if '\\' in text:
            return "E'" + text.replace('\\', '\\\\').replace("'", "''") + "'"
        return "'" + text.replace("'", "''") + "'"
    return "'" + text.replace('\\', '\\\\').replace("'", "''").replace('\n', '\\n') + "'"


def fixed5(x):
    d = x if isinstance(x, decimal.Decimal) else decimal.Decimal(x)
    sign, digits, exp = d.as_tuple()
    if not isinstance(exp, int):
        raise Reject()
    n = int(''.join(map(str, digits)) or '0')
    shift = exp + 5
    if shift >= 0:
        n *= 10 ** shift
    else:
        p = 10 ** (-shift)
        n, r = divmod(n, p)
        if 2 * r > p or (2 * r == p and n % 2):
            n += 1
    s = str(n).rjust(6, '0')
    return ('-' if sign else '') + s[:-5] + '.' + s[-5:]


def val(x, b):
    """Text of x where a value is expected."""
    if type(x) is T:
        if x[0] == 'Gen':
            return val(list(x[1]), b)
        if x[0] in ('Query', 'Un'):
            return '(' + text_of(x, b) + ')'
        if x[0] in SQL_TAGS:
            return text_of(x, b)
        raise Reject()
    if x is None:
        return 'NULL'
    if isinstance(x, bool):
        return ('true' if x else 'false') if b == 'postgresql' else ('1' if x else '0')
    if isinstance(x, str):
        ref_text = quoted_reference(x, b)
        return ref_text if ref_text is not None else literal(x, b)
    if isinstance(x, int):
        return str(int(x))
    if isinstance(x, (float, decimal.Decimal)):
        return fixed5(x)
    if isinstance(x, bytes):
        h = ''.join('0123456789abcdef'[c >> 4] + '0123456789abcdef'[c & 15] for c in x)
        return "E'\\\\x" + h + "'" if b == 'postgresql' else "x'" + h + "'"
    if isinstance(x, (datetime.date, datetime.datetime)):
        return "'" + x.isoformat() + "'"
    if isinstance(x, (list, tuple, range, set, frozenset)):
        items = [val(i, b) for i in x]
        if not items:
            raise Reject()
        if isinstance(x, (set, frozenset)):
            items.sort()
        return '(' + ', '.join(items) + ')'
    raise Reject()


def ref(x, b):
    """Text of x where a name is expected."""
    if type(x) is T:
        if x[0] in ('Query', 'Un'):
            return '(' + text_of(x, b) + ')'
        if x[0] in SQL_TAGS:
            return text_of(x, b)
        raise Reject()
    if isinstance(x, str):
        return name(x, b)
    if isinstance(x, int) and not isinstance(x, bool):
        return str(int(x))
    raise Reject()


def text_of(x, b):
    """Text of an SQL object standing alone."""
    tag = x[0]
    if tag == 'C':
        return str(x[1])
    if tag == 'V':
        return val(x[1], b)
    if tag == 'R':
        return ref(x[1], b)
    if tag in ('Q', 'And', 'Or'):
        return cond_text(x, b)
    if tag == 'Not':
        return 'NOT(' + conds_of('Q', x, b).text(b) + ')'
    if tag == 'Exists':
        return 'EXISTS(' + text_of(x[1], b) + ')'
    if tag == 'F':
        return function_text(x, b)
    if tag == 'Un':
        return '{} {} {}'.format(text_of(x[1], b), 'UNION ALL' if x[2] == '&' else 'UNION', text_of(x[3], b))
    if tag == 'Query':
        return build(x, b).render(b)
    raise Reject()


# ---------------------------------------------------------------- relations and conditions

_NUM = (int, float, decimal.Decimal)
_ORD = (str,) + _NUM + (datetime.date,)
RELATIONS = {
    'EQ': ('=', _ORD + (bool,)), 'NE': ('!=', _ORD + (bool,)),
    'GT': ('>', _ORD), 'GE': ('>=', _ORD), 'LT': ('<', _ORD), 'LE': ('<=', _ORD),
    'LIKE': ('LIKE', (str,)), 'NOT_LIKE': ('NOT LIKE', (str,)), 'REGEXP': ('REGEXP', (str,)),
    'IN': ('IN', ()), 'NOT_IN': ('NOT IN', ()),
    'IS': ('IS', (bool, type(None))), 'IS_NOT': ('IS NOT', (bool, type(None))),
}
ALIASES = {
    'EQUAL_TO': 'EQ', 'NOT_EQUAL_TO': 'NE', 'GRATHER_THAN': 'GT', 'GRATHER_THAN_OR_EQUAL_TO': 'GE',
    'LESS_THAN': 'LT', 'LESS_THAN_OR_EQUAL_TO': 'LE',
}
SWAP = {'=': '=', '!=': '!=', '>': '<', '<': '>', '>=': '<=', '<=': '>='}


def relation(relname, args):
    """-> (operator, value); rejects wrong types."""
    relname = ALIASES.get(relname, relname)
    operator, types = RELATIONS[relname]
    if relname in ('IN', 'NOT_IN'):
        if len(args) > 1:
            value = list(args)
        elif len(args) == 1:
            value = args[0]
            if type(value) is T and value[0] == 'Gen':
                value = list(value[1])
            elif isinstance(value, (set, frozenset)):
                value = value
            elif type(value) is not T and isinstance(value, (list, tuple, range)):
                value = list(value)
            elif not is_sql(value):
                raise Reject()
        else:
            value = []
        return operator, value
    if len(args) != 1:
        raise TypeError
    value = args[0]
    if is_sql(value):
        return operator, value
    if type(value) is T or not isinstance(value, types) or (isinstance(value, bool) and bool not in types):
        raise Reject()
    return operator, value


def default_relation(value):
    inner = value[1] if type(value) is T and value[0] in ('V', 'R') else value
    if type(inner) in (list, tuple, range) or (type(inner) is T and inner[0] == 'Gen'):
        return relation('IN', (value,))
    if inner is None:
        return relation('IS', (value,))
    return relation('EQ', (value,))


class Cond:
    def __init__(self, column, value, on=False):
        if not is_sql(column) and not (type(column) is not T and isinstance(column, str)):
            raise Reject()
        if type(value) is T and value[0] == 'Rel':
            self.operator, self.value = relation(value[1], value[2])
        else:
            ok = is_sql(value) or (type(value) is T and value[0] == 'Gen') or (
                type(value) is not T and (value is None or isinstance(
                    value, _ORD + (bool, list, tuple, range))))
            if not ok:
                raise Reject()
            self.operator, self.value = default_relation(value)
        self.column, self.on = column, on

    def text(self, b):
        column, value = ref(self.column, b), self.value
        if self.operator in ('IN', 'NOT IN') and not is_sql(value):
            rest = [v for v in value if v is not None]
            if isinstance(value, (set, frozenset)):
                rest = type(value)(rest)
            null = 'IS NULL' if self.operator == 'IN' else 'IS NOT NULL'
            has_null = any(v is None for v in value)
            if not rest:
                if not has_null:
                    raise Reject()
                return column + ' ' + null
            text = '{} {} {}'.format(column, self.operator, val(rest, b))
            if has_null:
                glue = ' OR ' if self.operator == 'IN' else ' AND '
                text = '(' + text + glue + column + ' ' + null + ')'
            return text
        if self.on and type(value) is not T and isinstance(value, str):
            return '{} {} {}'.format(column, self.operator, ref(value, b))
        return '{} {} {}'.format(column, self.operator, val(value, b))

    def same(self, other, b):
        if not isinstance(other, Cond) or self.on != other.on:
            return False
        if same_value(self.column, other.column, b) and self.operator == other.operator and \
                same_value(self.value, other.value, b):
            return True
        return (
            self.on and type(self.value) is not T and isinstance(self.value, str)
            and same_value(self.value, other.column, b) and same_value(self.column, other.value, b)
            and SWAP.get(self.operator) == other.operator
        )


def same_value(x, y, b):
    """Same type and the same text."""
    if type(x) is T or type(y) is T:
        if type(x) is not T or type(y) is not T or kind(x) != kind(y):
            return False
        try:
            return text_of(x, b) == text_of(y, b)
        except Reject:
            return x == y
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same_value(i, j, b) for i, j in zip(x, y))
    return x == y


def kind(x):
    if x[0] in ('And', 'Or'):
        return 'tree'
    if x[0] == 'F':
        return 'F' + x[1].replace('_distinct', '')
    if x[0] == 'Query':
        return x[1].split('_')[0]
    return x[0]


class Raw:
    """An SQL object given as a whole condition / assignment."""
    def __init__(self, term):
        self.term = term

    def text(self, b):
        return cond_text(self.term, b) if self.term[0] in ('Q', 'And', 'Or') else text_of(self.term, b)

    def same(self, other, b):
        if not isinstance(other, Raw) or kind(self.term) != kind(other.term):
            return False
        if self.term[0] == 'Q':
            return conds_of('Q', self.term, b).same(conds_of('Q', other.term, b), b)
        return same_value(self.term, other.term, b)

    @property
    def is_set(self):
        return cond_is_set(self.term)


def cond_is_set(x):
    if x[0] == 'Q':
        return conds_of('Q', x, 'sql').is_set
    if x[0] in ('And', 'Or'):
        return cond_is_set(x[1]) or cond_is_set(x[2])
    if x[0] == 'Not':
        return conds_of('Q', x, 'sql').is_set
    return True


class Conds:
    """A list of conditions meaning their conjunction."""
    def __init__(self, on=False):
        self.on = on
        self.parts = []

    def add(self, args, kwds, b):
        if not kwds and len(args) == 1 and is_sql(args[0]):
            self.parts.append(Raw(args[0]))
            return
        new = []
        if args and all(type(a) is T and a[0] in COND_TAGS for a in args):
            new += [Raw(a) for a in args]
            args = ()
        new += [Cond(c, v, self.on) for c, v in pairs(args, kwds, strict=True)]
        for part in new:
            if not any(p.same(part, b) for p in self.parts):
                self.parts.append(part)

    @property
    def is_set(self):
        return any(getattr(p, 'is_set', True) for p in self.parts)

    def text(self, b):
        return ' AND '.join(p.text(b) for p in self.parts if getattr(p, 'is_set', True))

    def count(self):
        return len(self.parts)

    def same(self, other, b):
        return len(self.parts) == len(other.parts) and all(
            p.same(o, b) for p, o in zip(self.parts, other.parts))

    def copy(self):
        new = Conds(self.on)
        new.parts = list(self.parts)
        return new


def conds_of(_, x, b):
    conds = Conds()
    conds.add(x[1], x[2], b)
    return conds


def cond_text(x, b):
    if x[0] == 'Q':
        return conds_of('Q', x, b).text(b)
    if x[0] in ('And', 'Or'):
        sides = []
        for side in (x[1], x[2]):
            if not cond_is_set(side):
                continue
            text = cond_text(side, b)
            if side[0] == 'Q' and conds_of('Q', side, b).count() > 1:
                text = '(' + text + ')'
            sides.append(text)
        return '(' + (' AND ' if x[0] == 'And' else ' OR ').join(sides) + ')'
    return text_of(x, b)


# ---------------------------------------------------------------- argument styles

def dict_items(d):
    """Items of a dict argument in the order they count."""
    if type(d) is T and d[0] == 'OD':
        return list(d[1])
    items = list(d[1]) if type(d) is T else list(d.items())
    seen = []
    for k, v in items:       # a plain dict keeps one value per key
        for n, (other, _) in enumerate(seen):
            if other == k:
                seen[n] = (other, v)
                break
        else:
            seen.append((k, v))
    return sort_items(seen)


def sort_items(items):
    try:
        return sorted(items, key=lambda i: sort_key(i[0]))
    except TypeError:
        return sorted(items, key=lambda i: str(sort_key(i[0])))


def sort_key(k):
    return text_of(k, 'sql') if is_sql(k) else k


def is_dict(x):
    return type(x) is dict or (type(x) is T and x[0] in ('D', 'OD'))


def is_seq(x):
    return type(x) is not T and isinstance(x, (list, tuple))


def pairs(args, kwds, strict):
    """
    strict: pairs are required (column, value); otherwise single items or (item, extra).
    """
    out = []

    def take(item):
        if len(item) > 2 or len(item) < (2 if strict else 1):
            raise Reject()
        out.append(tuple(item) + (None,) * (2 - len(item)))

    if strict and len(args) == 2 and not is_seq(args[0]):
        take(args)
    else:
        rest = args
        if len(args) == 1 and is_dict(args[0]):
            out += dict_items(args[0])
            rest = ()
        elif strict and len(args) == 1 and is_seq(args[0]):
            rest = args[0]
        for item in rest:
            if is_seq(item):
                take(item)
            elif strict:
                raise Reject()
            else:
                take((item,))
    out += sort_items(list(kwds))
    return out


# ---------------------------------------------------------------- functions

FUNCTIONS = {
    'avg': ('AVG', False), 'avg_distinct': ('AVG', True), 'count': ('COUNT', False),
    'count_distinct': ('COUNT', True), 'max': ('MAX', False), 'max_distinct': ('MAX', True),
    'min': ('MIN', False), 'min_distinct': ('MIN', True), 'sum': ('SUM', False), 'sum_distinct': ('SUM', True),
}


def function_text(x, b):
    _, fname, args, mods = x
    if fname in FUNCTIONS:
        label, distinct = FUNCTIONS[fname]
        for method, margs, _k in mods:
            assert method == 'distinct'
            distinct = bool(margs[0]) if margs else True
        expr = args[0] if args else None
        if label == 'COUNT' and (expr is None or (type(expr) is not T and not expr) or expr == '*'):
            inner = '*'
        elif is_seq(expr):
            inner = ', '.join(ref(e, b) for e in expr)
        else:
            inner = ref(expr, b)
        return '{}({}{})'.format(label, 'DISTINCT ' if distinct else '', inner)
    if fname in ('concat', 'group_concat'):
        inner = ', '.join(
            ref(c, b) + (' AS ' + ref(a, b) if a else '') for c, a in column_items(args, ()))
        if not inner:
            raise Reject()
        orders, separator = [], None
        for method, margs, mkwds in mods:
            if method == 'order_by':
                add_orders(orders, margs, mkwds, b)
            else:
                separator = margs[0]
        if orders:
            inner += ' ORDER BY ' + orders_text(orders, b)
        if separator is not None:
            inner += ' SEPARATOR ' + val(separator, b)
        return '{}({})'.format(fname.upper(), inner)
    if fname == 'convert':
        type_ = args[1] if len(args) > 1 else None
        for _m, margs, _k in mods:
            type_ = margs[0]
        return 'CONVERT({}, {})'.format(ref(args[0], b), str(type_).upper())
    raise AssertionError(fname)


# ---------------------------------------------------------------- lists of columns, orderings, tables, values

def column_items(args, kwds):
    out = []
    for column, alias in pairs(args, kwds, strict=False):
        check_name(column, (str, int))
        check_name(alias, (str, type(None)))
        out.append((column, alias))
    return out


def check_name(x, types):
    if is_sql(x):
        return
    if type(x) is T or isinstance(x, bool) or not isinstance(x, types):
        raise Reject()


def add_columns(columns, args, kwds, b):
    for column, alias in column_items(args, kwds):
        if not any(same_value(column, c, b) and same_value(alias, a, b) for c, a in columns):
            columns.append((column, alias))


def add_orders(orders, args, kwds, b):
    new = []
    for column, sort in pairs(args, kwds, strict=False):
        check_name(column, (str, int))
        if sort is None:
            sort = 'ASC'
        elif is_sql(sort):
            sort = text_of(sort, b).upper()
        elif type(sort) is T or not isinstance(sort, str):
            raise Reject()
        else:
            sort = sort.upper()
        if sort not in ('ASC', 'DESC'):
            raise Reject()
        new.append((column, sort))
    for column, sort in new:
        for i, (c, _) in enumerate(orders):
            if same_value(c, column, b):
                orders[i] = (c, sort)
                break
        else:
            orders.append((column, sort))


def orders_text(orders, b):
    return ', '.join(ref(c, b) + (' DESC' if s == 'DESC' else '') for c, s in orders)


class Table:
    def __init__(self, table, alias):
        check_name(table, (str,))
        check_name(alias, (str, type(None)))
        self.table, self.alias, self.joins = table, alias, []

    def same(self, other, b):
        return (
            same_value(self.table, other.table, b) and same_value(self.alias, other.alias, b)
            and len(self.joins) == len(other.joins) and all(
                t == u and x.same(y, b) and c.same(d, b)
                for (t, x, c), (u, y, d) in zip(self.joins, other.joins))
        )

    def own_text(self, b):
        return ref(self.table, b) + (' AS ' + ref(self.alias, b) if self.alias else '')

    def text(self, b):
        out = [self.own_text(b)]
        for type_, table, conds in merged_joins(self.joins, b):
            out.append(JOIN_TEXT[type_] + ' ' + table.own_text(b) + (' ON ' + conds.text(b) if conds.is_set else ''))
        return ' '.join(out)

    def copy(self):
        new = Table(self.table, self.alias)
        new.joins = [(t, x.copy(), c.copy()) for t, x, c in self.joins]
        return new


JOIN_TEXT = {'inner': 'JOIN', 'left': 'LEFT JOIN', 'right': 'RIGHT JOIN', 'full': 'FULL JOIN'}


def merged_joins(joins, b):
    groups = []
    for join in joins:
        for group in groups:
            if group[0][1].same(join[1], b) and group[0][2].same(join[2], b):
                group.append(join)
                break
        else:
            groups.append([join])
    out = []
    for group in groups:
        types = [j[0] for j in group]
        if len(group) == 1:
            out += group
        elif 'inner' in types:
            out.append(('inner',) + group[0][1:])
        elif len(set(types)) == 1:
            out.append(group[0])
        else:
            out += group
    return out


class Tables:
    def __init__(self):
        self.tables = []

    def set(self, args, kwds, b):
        args = tuple(a for a in args if is_sql(a) or (type(a) is T and a[-1]) or (type(a) is not T and a))
        new = [Table(t, a) for t, a in pairs(args, kwds, strict=False)]
        for table in new:
            if not any(t.same(table, b) for t in self.tables):
                self.tables.append(table)

    def join(self, type_, arg, b):
        if type_ == 'full' and b != 'postgresql':
            raise Reject()
        if not self.tables:
            raise Reject()
        if is_seq(arg) and len(arg) == 2:
            table = Table(*arg)
        elif is_dict(arg) and len(dict_items(arg)) == 1:
            table = Table(*dict_items(arg)[0])
        elif type(arg) is not T and isinstance(arg, str):
            table = Table(arg, None)
        else:
            raise Reject()
        self.tables[-1].joins.append((type_, table, Conds(on=True)))

    def on(self, args, kwds, b):
        if not self.tables or not self.tables[-1].joins:
            raise Reject()
        self.tables[-1].joins[-1][2].add(args, kwds, b)

    def text(self, b):
        return ', '.join(t.text(b) for t in self.tables)

    def copy(self):
        new = Tables()
        new.tables = [t.copy() for t in self.tables]
        return new


VALUE_TYPES = (type(None), str, int, float, bytes, decimal.Decimal, bool, datetime.date)


class Assignments:
    def __init__(self):
        self.parts = []

    def add(self, args, kwds, b):
        if not kwds and len(args) == 1 and is_sql(args[0]):
            self.parts.append(Raw(args[0]))
            return
        new = []
        for column, value in pairs(args, kwds, strict=True):
            check_name(column, (str,))
            if not is_sql(value) and (type(value) is T or not isinstance(value, VALUE_TYPES)):
                raise Reject()
            new.append((column, value))
        for column, value in new:
            if not any(isinstance(p, tuple) and same_value(p[0], column, b) and same_value(p[1], value, b)
                       for p in self.parts):
                self.parts.append((column, value))

    def text(self, b):
        return ', '.join(
            p.text(b) if isinstance(p, Raw) else ref(p[0], b) + ' = ' + val(p[1], b) for p in self.parts)

    def copy(self):
        new = Assignments()
        new.parts = list(self.parts)
        return new


# ---------------------------------------------------------------- queries

OPTION_GROUPS = {
    'sql_cache': ('cache', 'SQL_CACHE'), 'sql_no_cache': ('cache', 'SQL_NO_CACHE'),
    'all': ('dup', 'ALL'), 'distinct': ('dup', 'DISTINCT'), 'distinctrow': ('dup', 'DISTINCTROW'),
    'sql_small_result': ('small', 'SQL_SMALL_RESULT'), 'sql_big_result': ('big', 'SQL_BIG_RESULT'),
    'sql_buffer_result': ('buffer', 'SQL_BUFFER_RESULT'),
    'sql_calc_found_rows': ('found', 'SQL_CALC_FOUND_ROWS'),
    'straight_join': ('straight', 'STRAIGHT_JOIN'), 'high_priority': ('high', 'HIGH_PRIORITY'),
}
OUTFILE = ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by')
OUTFILE_TEXT = ('INTO OUTFILE', 'FIELDS TERMINATED BY', 'LINES TERMINATED BY', 'OPTIONALLY ENCLOSED BY')
JOINS = {'join': 'inner', 'inner_join': 'inner', 'left_join': 'left', 'right_join': 'right', 'full_join': 'full'}


class Model:
    """State of one query under the specification."""

    def __init__(self, kind):
        self.kind = kind
        self.options = {}
        self.columns = []
        self.targets = Tables()      # DELETE <targets> FROM ...
        self.tables = Tables()
        self.where = Conds()
        self.having = Conds()
        self.group_by = []
        self.order_by = []
        self.limit = None
        self.offset = None
        self.outfile = [None] * 4
        self.for_update = False
        self.assignments = Assignments()
        self.rows = []
        self.upsert = Assignments()          # ON DUPLICATE KEY UPDATE
        self.conflict = Assignments()        # ON CONFLICT
        self.conflict_target = None
        self.replace = False
        self.consent = False

    def copy(self):
        new = Model(self.kind)
        for key, value in self.__dict__.items():
            if hasattr(value, 'copy'):
                value = value.copy()
            new.__dict__[key] = value
        new.rows = [r.copy() for r in self.rows]
        return new

    def apply(self, o, b):
        method, args, kwds = o
        k = self.kind
        if method in JOINS and k in ('select', 'update', 'delete'):
            return self.tables.join(JOINS[method], args[0], b)
        if method == 'on' and k in ('select', 'update', 'delete'):
            return self.tables.on(args, kwds, b)
        if method == 'where' and k != 'insert':
            return self.where.add(args, kwds, b)
        if method == 'ignore' and k != 'select':
            return self.set_option('ignore', 'IGNORE', flag(args, kwds))
        return getattr(self, '_' + k)(method, args, kwds, b)

    def set_option(self, group, text, on):
        if on:
            self.options[group] = text
        else:
            self.options.pop(group, None)

    def _select(self, method, args, kwds, b):
        if method == 'columns':
            add_columns(self.columns, args, kwds, b)
        elif method in ('from_', 'from_tables'):
            self.tables.set(args, kwds, b)
        elif method == 'from_table':
            self.tables.set((tuple(args) + (None,) * (2 - len(args)),), (), b)
        elif method == 'having':
            self.having.add(args, kwds, b)
        elif method == 'group_by':
            add_orders(self.group_by, args, kwds, b)
        elif method == 'order_by':
            add_orders(self.order_by, args, kwds, b)
        elif method == 'limit':
            limit, offset = (tuple(args) + (None,))[:2]
            kw = dict(kwds)
            offset = kw.get('offset', offset)
            check_int(limit)
            check_int(offset)
            if limit is None:
                self.limit = self.offset = None
            else:
                self.limit = limit
                if offset is not None:
                    self.offset = offset or None
        elif method == 'offset':
            check_int(args[0])
            self.offset = args[0] or None
        elif method in OUTFILE:
            if not is_sql(args[0]) and (type(args[0]) is T or not isinstance(args[0], str)):
                raise Reject()
            self.outfile[OUTFILE.index(method)] = args[0]
        elif method == 'for_update':
            self.for_update = flag(args, kwds)
        elif method in OPTION_GROUPS:
            self.set_option(*OPTION_GROUPS[method], flag(args, kwds))
        else:
            raise AssertionError(method)

    def _insert(self, method, args, kwds, b):
        if method == 'into':
            self.tables.set(args, kwds, b)
        elif method == 'values':
            row = Assignments()
            row.add(args, kwds, b)
            if any(isinstance(p, Raw) for p in row.parts):
                raise Reject()
            self.rows.append(row)
        elif method == 'on_duplicate_key_update':
            if b == 'mysql':
                self.upsert.add(args, kwds, b)
            elif b == 'postgresql':
                if not args or type(args[0]) is T or not isinstance(args[0], str):
                    raise Reject()
                self.conflict.add(args[1:], kwds, b)
                self.conflict_target = args[0]
            elif b == 'sqlite':
                if args or kwds:
                    raise Reject()
                self.replace = True
        else:
            raise AssertionError(method)

    def _update(self, method, args, kwds, b):
        if method == 'table':
            self.tables.set(args, kwds, b)
        elif method == 'set':
            self.assignments.add(args, kwds, b)
        elif method == 'allow_update_all':
            self.consent = True
        elif method == 'forbid_update_all':
            self.consent = False
        else:
            raise AssertionError(method)

    def _delete(self, method, args, kwds, b):
        if method == 'delete':
            self.targets.set(args, kwds, b)
        elif method in ('from_', 'from_tables'):
            self.tables.set(args, kwds, b)
        elif method == 'from_table':
            self.tables.set((tuple(args) + (None,) * (2 - len(args)),), (), b)
        elif method == 'allow_delete_all':
            self.consent = True
        elif method == 'forbid_delete_all':
            self.consent = False
        else:
            raise AssertionError(method)

    # -- rendering: clause name (as known to has()) -> text, None when absent

    def clauses(self, b):
        opts = ' '.join(sorted(self.options.values())) or None
        tables = self.tables.text(b) or None
        where = 'WHERE ' + self.where.text(b) if self.where.is_set else None
        if self.kind == 'select':
            columns = ', '.join(
                ref(c, b) + (' AS ' + ref(a, b) if a else '') for c, a in self.columns) or '*'
            limit = ' '.join(
                w + ' ' + str(v) for w, v in (('LIMIT', self.limit), ('OFFSET', self.offset)) if v is not None)
            outfile = None
            if self.outfile[0] is not None:
                outfile = ' '.join(t + ' ' + val(v, b) for t, v in zip(OUTFILE_TEXT, self.outfile) if v is not None)
            return [
                (None, 'SELECT'), ('select_options', opts), ('columns', columns),
                ('tables', 'FROM ' + tables if tables else None), ('where', where),
                ('group_by', 'GROUP BY ' + orders_text(self.group_by, b) if self.group_by else None),
                ('having', 'HAVING ' + self.having.text(b) if self.having.is_set else None),
                ('order_by', 'ORDER BY ' + orders_text(self.order_by, b) if self.order_by else None),
                ('limit', limit or None), ('into_outfile', outfile),
                ('select_for_update', 'FOR UPDATE' if self.for_update else None),
            ]
        if self.kind == 'insert':
            rows = None
            if self.rows:
                columns = []
                for row in self.rows:
                    for column, _ in row.parts:
                        if not any(c == column for c in columns):
                            columns.append(column)
                columns = [c for c, _ in sort_items([(c, 0) for c in columns])]
                lines = []
                for row in self.rows:
                    cells = []
                    for column in columns:
                        found = [v for c, v in row.parts if c == column]
                        cells.append(val(found[-1], b) if found else 'NULL')
                    lines.append('(' + ', '.join(cells) + ')')
                rows = '({}) VALUES {}'.format(', '.join(ref(c, b) for c in columns), ', '.join(lines))
            return [
                ('keyword', 'REPLACE' if self.replace else 'INSERT'), ('insert_options', opts), (None, 'INTO'),
                ('tables', tables), ('values', rows),
                ('on_duplicate_key_update',
                 'ON DUPLICATE KEY UPDATE ' + self.upsert.text(b) if self.upsert.parts else None),
                ('on_conflict_do_update', 'ON CONFLICT ({}) DO UPDATE {}'.format(
                    ref(self.conflict_target, b), self.conflict.text(b)) if self.conflict.parts else None),
            ]
        if self.kind == 'update':
            return [
                (None, 'UPDATE'), ('update_options', opts), ('tables', tables), (None, 'SET'),
                ('values', self.assignments.text(b) or None), ('where', where),
            ]
        return [
            (None, 'DELETE'), ('delete_options', opts), ('tables', self.targets.text(b) or None), (None, 'FROM'),
            ('references', tables), ('where', where),
        ]

    def render(self, b):
        if self.kind in ('update', 'delete') and not self.consent and not self.where.is_set:
            raise Reject(self.kind + '_all')
        return ' '.join(text for _, text in self.clauses(b) if text is not None)


def flag(args, kwds):
    args = tuple(args) + tuple(v for _, v in kwds)
    return bool(args[0]) if args else True


def check_int(x):
    if x is not None and (type(x) is T or isinstance(x, bool) or not isinstance(x, int)):
        raise Reject()


CTOR = {
    'select': ('select', 'columns'), 'select_from': ('select', 'from_'), 'insert': ('insert', None),
    'insert_into': ('insert', 'into'), 'update': ('update', 'table'), 'delete': ('delete', 'delete'),
    'delete_from': ('delete', 'from_'),
}


def new(x, b):
    kind_, method = CTOR[x[1]]
    model = Model(kind_)
    if method and (x[2] or x[3]):
        model.apply((method, x[2], x[3]), b)
    return model


def build(x, b):
    model = new(x, b)
    for o in x[4]:
        model.apply(o, b)
    return model
