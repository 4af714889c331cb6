"""
Lexical rules of the four dialects, written from their manuals (not from the library): reading one string
literal, one chain of quoted identifiers.  All functions take the whole text and demand that it is consumed.
"""

QUOTE = {'sql': '"', 'mysql': '`', 'postgresql': '"', 'sqlite': '"'}

# MySQL escape sequences (MySQL manual, "String Literals"); also used for plain SQL, whose strings the library
# escapes with backslashes.
_MYSQL = {'0': '\0', "'": "'", '"': '"', 'b': '\b', 'n': '\n', 'r': '\r', 't': '\t', 'Z': '\x1a', '\\': '\\'}
# PostgreSQL E'' escape sequences we accept; others are refused.
_PG = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', "'": "'"}


def _quoted(text, i, escapes):
    """Reads '...' starting at i -> (value, end) or None."""
    if text[i:i + 1] != "'":
        return None
    i += 1
    out = []
    while i < len(text):
        c = text[i]
        if c == "'":
            if text[i + 1:i + 2] == "'":
                out.append("'")
                i += 2
                continue
            return ''.join(out), i + 1
        if c == '\\' and escapes is not None:
            nxt = text[i + 1:i + 2]
            if not nxt:
                return None
            if escapes is _MYSQL:
                out.append(_MYSQL.get(nxt, '\\' + nxt if nxt in '%_' else nxt))
            elif nxt in escapes:
                out.append(escapes[nxt])
            else:
                return None
            i += 2
            continue
        out.append(c)
        i += 1
    return None


def read_string(text, b):
    """The value of the text as exactly one string literal of the dialect, or None if it is not one."""
    if b == 'sqlite':
        res = _quoted(text, 0, None)
    elif b == 'postgresql':
        if text[:1] in ('E', 'e'):
            res = _quoted(text, 1, _PG)
        else:
            res = _quoted(text, 0, None)
    else:
        res = _quoted(text, 0, _MYSQL)
    if res is None or res[1] != len(text):
        return None
    return res[0]


def contained(text):
    """Is the text one literal for a reader without backslash escapes as well (standard SQL)?"""
    res = _quoted(text, 0, None)
    return res is not None and res[1] == len(text)


def read_chain(text, b):
    """'"a"."b".*' -> ['a', 'b', STAR] or None when it is not exactly such a chain."""
    q = QUOTE[b]
    parts, i = [], 0
    if not text:
        return parts
    while True:
        if text[i:i + 1] == '*':
            parts.append(STAR)
            i += 1
        elif text[i:i + 1] == q:
            i += 1
            out = []
            while True:
                if i >= len(text):
                    return None
                if text[i] == q:
                    if text[i + 1:i + 2] == q:
                        out.append(q)
                        i += 2
                        continue
                    i += 1
                    break
                out.append(text[i])
                i += 1
            if not out:
                return None
            parts.append(''.join(out))
        else:
            return None
        if i == len(text):
            return parts
        if text[i] != '.':
            return None
        i += 1


class _Star:
    def __repr__(self):
        return 'STAR'


STAR = _Star()
