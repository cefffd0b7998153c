"""Text with symbolic decimal digits.

A symbolic digit is a character from the decimal digits of other scripts (so
that code which asks for digits sees one), standing for an integer term in
0..9.  ``digits_mode`` makes formatting of symbolic integers produce such
text; the number of digits is decided by forking.  DigitOS is a file system
whose names may contain symbolic digits: looking a path up forks over the
entries it may be the same as."""
import posixpath
import re
import unicodedata

import z3

from .engine import Unsupported, cur
from .osmodel import SymOS

POOL = [chr(c) for c in range(0x660, 0x1FBFA) if unicodedata.category(chr(c)) == 'Nd'
        and not ('\uff10' <= chr(c) <= '\uff19')]
_IN = frozenset(POOL)


def table():
    return cur().path_state.setdefault('digits', {})


def on():
    return 'digits' in cur().path_state


def has(s):
    return isinstance(s, str) and not s.isascii() and any(c in _IN for c in s)


def char(term):
    t = table()
    for c, u in t.items():
        if u is term or u.eq(term):
            return c
    if len(t) >= len(POOL):
        raise Unsupported("too many symbolic digits")
    c = POOL[len(t)]
    t[c] = term
    return c


def fresh(n, tag, lead_zero=True):
    """text of n new digits"""
    from . import values
    e = cur()
    s = ''
    for i in range(n):
        t = e.fresh_int('%s%d' % (tag, i), 0 if lead_zero or i else 1, 9)
        s += char(t)
    return s


def value(s):
    """the number a text of digits denotes"""
    v = z3.IntVal(0)
    for c in s:
        v = v * 10 + (table()[c] if c in table() else int(c))
    return z3.simplify(v)


def parse(s):
    """int(s) -> raw term"""
    t = s.strip().replace('_', '')
    neg = t.startswith('-')
    t = t.lstrip('+-')
    if not t or not all(c in table() or c in '0123456789' for c in t):
        raise ValueError("invalid literal for int() with base 10: %r" % s)
    v = value(t)
    return -v if neg else v


_SPEC = re.compile(r'([<>=^])?(0)?(\d+)?d?$')


def text(term, spec=''):
    """format(number, spec)"""
    m = _SPEC.match(spec)
    if not m or m.group(1):
        raise Unsupported("format %r of a symbolic number" % spec)
    e = cur()
    w = int(m.group(3) or 0)
    pad = '0' if m.group(2) else ' '
    if e.fork(term < 0):
        raise Unsupported("format of a negative number")
    n = max(1, w) if pad == '0' else 1
    while e.fork(term >= 10 ** n):
        n += 1
        if n > 20:
            raise Unsupported("format of a number without bounds")
    cache = e.path_state.setdefault('digit_texts', {})
    k = (term.get_id(), n)
    if k not in cache:
        s = ''
        terms = []
        for i in range(n):
            t = e.fresh_int('dig_%d_%d' % (len(cache), i), 0, 9)
            terms.append(t)
            s += char(t)
        e.assume_term(sum(t * 10 ** (n - 1 - i) for i, t in enumerate(terms)) == term)
        cache[k] = (s, term)
    s = cache[k][0]
    return s.rjust(w, pad) if pad == ' ' and w else s


def same(a, b):
    """condition that two texts are the same (True / False / term)"""
    if a == b:
        return True
    if len(a) != len(b):
        return False
    t = table()
    cs = []
    for x, y in zip(a, b):
        if x == y:
            continue
        if x not in t and y not in t:
            return False
        if (x not in t and x not in '0123456789') or (y not in t and y not in '0123456789'):
            return False
        cs.append((t[x] if x in t else z3.IntVal(int(x))) == (t[y] if y in t else z3.IntVal(int(y))))
    return z3.And(*cs) if cs else True


def fnmatch(name, pat):
    """condition that a name matches a wildcard pattern"""
    t = table()
    items = []
    i = 0
    while i < len(pat):
        if pat[i] == '[':
            j = pat.find(']', i + 2)
            if j > 0:
                items.append(pat[i:j + 1])
                i = j + 1
                continue
        items.append(pat[i])
        i += 1
    memo = {}

    def one(c, it):
        if it == '?':
            return z3.BoolVal(True)
        if len(it) > 1:
            if c not in t:
                import fnmatch as F
                return z3.BoolVal(F.fnmatchcase(c, it))
            import fnmatch as F
            return z3.Or(*[t[c] == d for d in range(10) if F.fnmatchcase(str(d), it)])
        r = same(c, it)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def go(i, j):
        if (i, j) not in memo:
            if j == len(items):
                r = z3.BoolVal(i == len(name))
            elif items[j] == '*':
                r = z3.Or(*[go(k, j + 1) for k in range(i, len(name) + 1)])
            elif i == len(name):
                r = z3.BoolVal(False)
            else:
                r = z3.And(one(name[i], items[j]), go(i + 1, j + 1))
            memo[i, j] = r
        return memo[i, j]
    if name.startswith('.') and not pat.startswith('.'):
        return False
    r = z3.simplify(go(0, 0))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def decide(c):
    return c if isinstance(c, bool) else cur().fork(c)


class DigitOS(SymOS):
    def __init__(self, S, root='/scratch'):
        table()
        super().__init__(S, root)

    def canon(self, path):
        """the path of the existing entry this path denotes, if there is one"""
        if not has(path) or path in self.inodes:
            return path
        out = ''
        for c in path.split('/')[1:]:
            kids = [posixpath.basename(p) for p in self.inodes if posixpath.dirname(p) == (out or '/') and p != '/']
            if c not in kids:
                for k in kids:
                    if decide(same(c, k)):
                        c = k
                        break
            out += '/' + c
        return out

    def _norm(self, path):
        return self.canon(super()._norm(path))

    def glob(self, pattern, recursive=False, **k):
        pats = self._norm(pattern).split('/')[1:]
        if '**' in pats:
            raise Unsupported("recursive glob")
        found = ['']
        for p in pats:
            nxt = []
            for d in found:
                kids = sorted(posixpath.basename(q) for q in self.inodes if posixpath.dirname(q) == (d or '/') and q != '/')
                for k in kids:
                    if decide(fnmatch(k, p)):
                        nxt.append(d + '/' + k)
                        if not any(c in p for c in '*?['):
                            break
            found = nxt
        return found
