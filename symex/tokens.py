"""Text standing for a symbolic value.

Formatting a symbolic number yields a token: an opaque piece of text that maps
back to the value.  Parsing such text (int(), float()) gives the value back,
idealising numeric formatting as lossless unless the format spec says
otherwise (the spec is kept with the token)."""
import re

from .engine import cur

TOKEN_RE = re.compile('\u27e6(\\d+)(?:\\|[^\u27e7]*)?\u27e7')


def token_for(v, spec=''):
    e = cur()
    key = (v.t.get_id(), str(getattr(v, 'dt', None)), spec)
    n = e.tokens.get(key)
    if n is None:
        n = len(e.token_terms)
        e.tokens[key] = n
        e.token_terms.append((v, spec))
    return '\u27e6%d%s\u27e7' % (n, ('|' + spec) if spec else '')


def parse_token(s):
    """-> (value, spec) if s is exactly one token, else None"""
    m = TOKEN_RE.fullmatch(s.strip())
    if not m:
        return None
    return cur().token_terms[int(m.group(1))]
