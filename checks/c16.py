# -*- coding: utf-8 -*-
"""C16: the values of HTTP headers: what is read from them, what is written, how they compare and what is selected."""
import itertools
import re
import mclib
import pyslet.iso8601 as iso
import pyslet.rfc2616 as http
import pyslet.rfc2616_core as core
import pyslet.rfc2616_params as params
import pyslet.rfc2616_headers as headers

REFUSALS = (ValueError, core.SyntaxError)
DONTCARE = ('whatever',)


def failure(err):
    return '%s: %s' % (type(err).__name__, str(err)[:200])


def attempt(fn, *args, **kw):
    """(value, None), (None, False) if refused, or (None, failure)"""
    try:
        return fn(*args, **kw), None
    except mclib.StopExploring:
        raise
    except REFUSALS:
        return None, False
    except Exception, err:
        return None, failure(err)


# ------------------------------------------------------------------ the grammar
W = r'(?:(?:\r\n)?[ \t]+)*'
T = r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+(?![!#$%&'*+\-.^_`|~0-9A-Za-z])"
Q = r'"(?:[ -!#-\[\]-~\t\x80-\xff]|\r\n[ \t]|\\[\x00-\x7f])*"'
P = W + ';' + W + '(' + T + ')' + W + '=' + W + '(' + T + '|' + Q + ')'
PT = W + ';' + W + '(' + T + ')=(' + T + '|' + Q + ')'
TOKEN = re.compile(T + r'\Z')


def match(pattern, s):
    return re.match('(?:' + pattern + r')\Z', s)


def unquote(v):
    if v[:1] == '"':
        v = re.sub(r'((?:\\[\x00-\x7f])|(?:\r\n[ \t]+))', lambda m: m.group(0)[1:] if m.group(0)[0] == '\\' else ' ', v[1:-1])
    return v


def parameters(pattern, s):
    ps = [(k.lower(), unquote(v)) for k, v in re.findall(pattern, s)]
    if len(set([k for k, v in ps])) < len(ps):
        return None
    return tuple(sorted(ps))


def split(s):
    """the elements of a list, or None if it isn't one: commas in quoted strings do not count"""
    if not match('(?:' + Q + r'|[^",])*(?:,(?:' + Q + r'|[^",])*)*', s):
        return None
    out, cur = [], ''
    for part in re.findall(Q + r'|[^",]+|,', s):
        if part == ',':
            out.append(cur)
            cur = ''
        else:
            cur += part
    return [e for e in out + [cur] if not match(W, e)]


def r_version(s):
    m = match(W + 'HTTP' + W + '/' + W + r'(\d+)\.(\d+)' + W, s)
    if not m and match('(?i)' + W + 'http' + W + '/' + W + r'\d+\.\d+' + W, s):
        return DONTCARE
    return m and (int(m.group(1)), int(m.group(2)))


def r_te(s):
    m = match(W + '(' + T + ')((?:' + P + ')*)' + W, s)
    if not m:
        return None
    ps = parameters(P, m.group(2))
    if ps is None:
        return DONTCARE
    if m.group(1).lower() == 'chunked' and ps:
        return None
    return (m.group(1).lower(), ps)


def r_media(s):
    m = match(W + '(' + T + ')/(' + T + ')((?:' + PT + ')*)' + W, s)
    if not m:
        return None
    ps = parameters(PT, m.group(3))
    return DONTCARE if ps is None else (m.group(1).lower(), m.group(2).lower(), ps)


def r_range(s):
    m = match(W + '(' + T + ')' + W + '/' + W + '(' + T + ')((?:' + P + ')*)' + W, s)
    if not m:
        return None
    if m.group(1) == '*' and m.group(2) != '*':
        return DONTCARE
    ps = parameters(P, m.group(3))
    if ps is None:
        return DONTCARE
    if 'q' in dict(ps):
        return None
    return (m.group(1).lower(), m.group(2).lower(), ps)


QP = W + ';' + W + '[qQ]' + W + '=' + W + r'(' + T + ')'


def quality(q):
    if q is None:
        return 1.0
    if match(r'0(\.\d{0,3})?|1(\.0{0,3})?', q):
        return float(q)
    return DONTCARE if match(r'\d+(\.\d*)?|\.\d+', q) else None


def r_accept(s):
    m = match('(' + W + T + W + '/' + W + T + '(?:' + W + ';' + W + '(?![qQ]' + W + '=)' + T + W + '=' + W + '(?:' + T + '|' + Q + '))*)(?:' + QP + '((?:' + W + ';' + W + T + '(?:' + W + '=' + W + '(?:' + T + '|' + Q + '))?)*))?' + W, s)
    if not m:
        return None
    rng, q = r_range(m.group(1)), quality(m.group(2))
    if rng is None or q is None:
        return None
    ext = m.group(3) or ''
    if rng == DONTCARE or q == DONTCARE or not match('(?:' + P + ')*', ext):
        return DONTCARE
    ps = parameters(P, ext)
    return DONTCARE if ps is None else (rng, q, ps)


def r_atoken(s):
    m = match(W + '(' + T + ')(?:' + QP + ')?' + W, s)
    if not m:
        return None
    q = quality(m.group(2))
    return q if q in (None, DONTCARE) else (m.group(1).lower(), q)


def listof(ref, least=0, ordered=True):
    def r(s):
        es = split(s)
        if es is None:
            return None
        vs = map(ref, es)
        if None in vs:
            return None
        if DONTCARE in vs or len(vs) < least:
            return DONTCARE
        return tuple(vs) if ordered else tuple(sorted(vs))
    return r


def r_tok(s):
    m = match(W + '(' + T + ')' + W, s)
    return m and m.group(1).lower()


def r_ranges(s):
    v = listof(r_tok)(s)
    if v in (None, DONTCARE) or 'none' not in v:
        return None if v == () else v
    return () if v == ('none',) else None


def r_cc1(s):
    m = match(W + '(' + T + ')(?:' + W + '=' + W + '(?:(' + T + ')|(' + Q + ')))?' + W, s)
    if not m:
        return None
    d, t, q = m.groups()
    d = d.lower()
    if q is not None:
        v = unquote(q)
        fields = split(v)
        if d in ('private', 'no-cache'):
            if not fields or [f for f in fields if not match(W + T + W, f)]:
                return DONTCARE
            return (d, tuple([f.strip() for f in fields]))
        return (d, v)
    return (d, t)


def r_cc(s):
    v = listof(r_cc1)(s)
    if v == ():
        return None
    if v and v != DONTCARE and len(set([d for d, x in v])) < len(v):
        return DONTCARE
    return v


def r_crange(s):
    m = match('(?i)' + W + 'bytes' + W[:-1] + r'+(?:\*|(\d+)-(\d+))' + W + '/' + W + r'(?:\*|(\d+))' + W, s)
    return m and tuple([g and int(g) for g in m.groups()])


def r_etag(s):
    m = match(W + '([wW]' + W + '/' + W + ')?(' + Q + ')' + W, s)
    return m and (unquote(m.group(2)), bool(m.group(1)))


def r_lang(s):
    m = match(W + '(' + T + ')' + W, s)
    if not m:
        return None
    return tuple(m.group(1).lower().split('-')) if match('[A-Za-z]{1,8}(-[A-Za-z]{1,8})*', m.group(1)) else DONTCARE


def r_product(s):
    m = match(W + '(' + T + ')(?:' + W + '/' + W + '(' + T + '))?' + W, s)
    return m and m.groups()


def r_products(s):
    if not match('(?:' + W + T + '(?:' + W + '/' + W + T + ')?)*' + W, s):
        return None
    return tuple([(a, b or None) for a, b in re.findall('(' + T + ')(?:' + W + '/' + W + '(' + T + '))?', s)])


def ps(p):
    return tuple(sorted([(k, v[1]) for k, v in p.items()]))


def v_media(m):
    return (m.type.lower(), m.subtype.lower(), ps(m.parameters))


def v_accept(a):
    return (v_media(a.range), a.q, ps(a.params))


def v_atoken(a):
    return (a.token.lower(), a.q)


def v_cc(c):
    def one(v):
        return v if v is None or isinstance(v, tuple) else str(v)
    return tuple([(d, None) if not isinstance(d, tuple) else (d[0], one(d[1])) for d in c])


def sorts(vs):
    return tuple(sorted(vs))


H = headers.HeaderParser
# name: (reader, reference, value of what is read, fragments, documents to change)
TYPES = {
    'HTTPVersion': (params.HTTPVersion.FromString, r_version, lambda v: (v.major, v.minor), ['HTTP', '/', '1.1', '1', '.', 'http', '10.25', ' ', '1.x'],
                    [['HTTP', '/', '1.1'], ['HTTP', ' ', '/', '\t', '1.0']]),
    'TransferEncoding': (params.TransferEncoding.FromString, r_te, lambda v: (v.token, ps(v.parameters)), ['chunked', 'x', 'B', ';', '=', '"y z"', '1'],
                         [['chunked'], ['x', ';', 'B', '=', '1', ';', 'c', '=', '"y, \\"z"'], ['gzip', ' ', ';', ' ', 'x', ' ', '=', ' ', '1']]),
    'MediaType': (params.MediaType.FromString, r_media, v_media, ['a', 'B', '/', ';', '=', '"y z"', ' ', 'q', '*', '1', ','],
                  [['text', '/', 'plain'], ['A', '/', 'b', ';', 'C', '=', 'D', ';', 'e', '=', '"f;\\" g"'], [' ', 'a', '/', 'b', ' ', ';', ' ', 'c', '=', '1', ' ']]),
    'MediaRange': (headers.MediaRange.FromString, r_range, v_media, ['a', 'B', '/', ';', '=', '"y z"', ' ', 'q', '*', '1', ','],
                   [['*', '/', '*'], ['a', '/', '*'], ['a', '/', 'b', ';', 'C', '=', 'D', ';', 'e', '=', '"f"']]),
    'AcceptItem': (headers.AcceptItem.FromString, r_accept, v_accept, ['a', '/', '*', ';', '=', 'q', 'Q', '0.5', '1.000', '0.', '1', '0.1234', 'x', '"y"', '2', '.5'],
                   [['a', '/', 'b'], ['a', '/', '*', ';', 'q', '=', '0.5'], ['a', '/', 'b', ';', 'c', '=', 'd', ';', 'q', '=', '0', ';', 'x', '=', '"y"', ';', 'z', '=', '1'], ['*', '/', '*', ' ', ';', ' ', 'q', ' ', '=', ' ', '0.25']]),
    'AcceptList': (headers.AcceptList.FromString, listof(r_accept, 1, False), lambda l: sorts(map(v_accept, l)), ['a', '/', '*', ';', '=', 'q', '0.5', ',', ' ', '"y,z"', ',,'],
                   [['a', '/', 'b', ',', 'a', '/', '*', ';', 'q', '=', '0.5', ',', '*', '/', '*', ';', 'q', '=', '0'], ['a', '/', 'b', ';', 'c', '=', '"d,e"', ',', ' ', 'f', '/', 'g']]),
    'AcceptToken': (headers.AcceptToken.FromString, r_atoken, v_atoken, ['gzip', '*', ';', '=', 'q', 'Q', '0.5', '1', '0.', ' ', '"q"'],
                    [['gzip'], ['*', ';', 'q', '=', '0'], ['x', ' ', ';', ' ', 'q', ' ', '=', ' ', '0.125']]),
    'AcceptTokenList': (headers.AcceptTokenList.FromString, listof(r_atoken, 0, False), lambda l: sorts(map(v_atoken, l)), ['gzip', 'x', '*', ';', '=', 'q', '0.5', ',', ' ', '1'],
                        [['gzip', ',', 'x', ';', 'q', '=', '0.5', ',', '*', ';', 'q', '=', '0'], ['a', ' ', ',', ' ', 'b']]),
    'AcceptCharsetList': (headers.AcceptCharsetList.FromString, listof(r_atoken, 1, False), lambda l: sorts(map(v_atoken, l)), ['utf-8', '*', ';', '=', 'q', '0.5', ','],
                          [['utf-8', ';', 'q', '=', '0.5', ',', 'iso-8859-1']]),
    'AcceptEncodingList': (headers.AcceptEncodingList.FromString, listof(r_atoken, 0, False), lambda l: sorts(map(v_atoken, l)), ['gzip', '*', ';', '=', 'q', '0.5', ','],
                           [['gzip', ';', 'q', '=', '0.5', ',', 'identity']]),
    'AcceptLanguageList': (headers.AcceptLanguageList.FromString, listof(r_atoken, 1, False), lambda l: sorts(map(v_atoken, l)), ['en', 'en-GB', '*', ';', '=', 'q', '0.5', ','],
                           [['en-GB', ';', 'q', '=', '0.5', ',', 'en', ',', '*', ';', 'q', '=', '0.1']]),
    'AcceptRanges': (headers.AcceptRanges.FromString, r_ranges, lambda l: tuple([x.lower() for x in l]), ['bytes', 'none', ',', ' ', 'x', '"y"', '='],
                     [['bytes'], ['none'], ['bytes', ',', ' ', 'X']]),
    'Allow': (headers.Allow.FromString, listof(r_tok), lambda l: tuple([x.lower() for x in l]), ['GET', 'head', ',', ' ', '"y"', '/'],
              [['GET', ',', 'head', ' ', ',', 'X-Y']]),
    'CacheControl': (headers.CacheControl.FromString, r_cc, v_cc, ['no-cache', 'Private', 'max-age', '=', '60', ',', '"x, y"', '"z"', ' ', 'ext', '"a\\"b"'],
                     [['no-store'], ['max-age', '=', '60', ',', 'Private', '=', '"x, y"', ',', 'ext', '=', 'tok'], ['no-cache', ' ', ',', ' ', 'ext', '=', '"a\\"b c"']]),
    'ContentRange': (headers.ContentRange.FromString, r_crange, lambda c: (c.firstByte, c.lastByte, c.totalLength), ['bytes', ' ', '0-499', '5-4', '/', '*', '1234', '-', '0', 'x'],
                     [['bytes', ' ', '0-499', '/', '1234'], ['bytes', ' ', '*', '/', '1234'], ['bytes', ' ', '0-0', '/', '*']]),
    'EntityTag': (params.EntityTag.FromString, r_etag, lambda e: (e.tag, bool(e.weak)), ['W', 'w', '/', '"x"', '"a\\"b"', '""', ' ', '"\xe9\t"', 'x', '"\\\\"', '"\r\n y"'],
                  [['W', '/', '"x"'], ['"x"'], ['w', ' ', '/', ' ', '"a b"']]),
    'LanguageTag': (params.LanguageTag.FromString, r_lang, lambda t: tuple(str(t).lower().split('-')), ['en', '-', 'GB', 'en-GB', ' ', 'x-pig-latin', '1', 'abcdefgh'],
                    [['en-US'], ['x-pig-latin']]),
    'LanguageTags': (params.LanguageTag.ListFromString, listof(r_lang), lambda l: tuple([tuple(str(t).lower().split('-')) for t in l]), ['en', 'GB', 'en-GB', ' ', ',', ';'],
                     [['en-US', ',', ' ', 'de'], ['fr']]),
    'ProductToken': (params.ProductToken.FromString, r_product, lambda p: (p.token, p.version), ['CERN', '/', '2.15', ' ', '1b', '"x"', ';'],
                     [['libwww', '/', '2.17b3'], ['x', ' ', '/', ' ', '1']]),
    'ProductTokens': (params.ProductToken.ListFromString, r_products, lambda l: tuple([(p.token, p.version) for p in l]), ['CERN', '/', '2.15', ' ', '1b', ','],
                      [['libwww', '/', '2.17b3', ' ', 'a', ' ', 'b', '/', '1'], ['x', ' ', '/', ' ', '1']]),
}
COMMON = ['a', 'B', '/', '*', ';', '=', ',', ' ', '\t', '\r\n ', '"x y"', '"\\""', '"', 'q', '0.5', '1', '-', '\x01', '\xe9', '(c)', '\r\n', '\\', '(', '\x7f', '[', '"\\', "'"]
WRITE = {'LanguageTags': lambda l: ', '.join(map(str, l)), 'ProductTokens': lambda l: ' '.join(map(str, l))}


def reading(ctx):
    n = 0
    for name in sorted(TYPES):
        reader, ref, value, frags, docs = TYPES[name]
        every = []
        for k in range(0, 4):
            every += [list(t) for t in itertools.product(COMMON if k < 3 else frags, repeat=k)]
        if ctx.thorough:
            every += [list(t) for k in (4, 5) for t in itertools.product(frags if k < 5 else frags[:8], repeat=k)]
            every += [list(t) for t in itertools.product(COMMON, repeat=3)]
        else:
            every += [list(t) for t in itertools.product(frags[:7], repeat=4)]
        more = frags + COMMON
        for d in docs:
            every.append(d)
            ones = changes(d, more)
            every += ones
            if ctx.thorough:
                for o in ones:
                    every += changes(o, frags)
            else:
                for o in changes(d, [' ', ',', ';']):
                    every += changes(o, frags[:4])
        seen = set()
        for t in every:
            s = ''.join(t)
            if s in seen:
                continue
            seen.add(s)
            n += 1
            if ctx.mine():
                read(ctx, name, s)
    ctx.bounds['header values read'] = n


def changes(d, more):
    out = []
    for i in range(len(d) + 1):
        out += [d[:i] + [x] + d[i:] for x in more]
        if i < len(d):
            out += [d[:i] + [x] + d[i + 1:] for x in more if x != d[i]]
            out += [d[:i] + d[i + 1:], d[:i] + [d[i]] + d[i:]]
        if i < len(d) - 1:
            out.append(d[:i] + [d[i + 1], d[i]] + d[i + 2:])
    return out


def read(ctx, name, s):
    ctx.case(['read', name, s.encode('string_escape')])
    reader, ref, value = TYPES[name][:3]
    key = 'read|%s|%s' % (name, s.encode('string_escape'))
    want = ref(s)
    v, fail = attempt(reader, s)
    ctx.transitions += 1
    ctx.outcome((name, want is None, fail))
    if want is None:
        ctx.check(fail is False, key, '%r is not a %s: %s' % (s, name, value(v) if fail is None else fail))
        return
    if want == DONTCARE:
        ctx.check(not fail, key, '%s on %r' % (fail, s))
        if fail is not None:
            return
    elif not ctx.check(fail is None, key, 'the %s %r is refused: %s' % (name, s, fail)):
        return
    else:
        ctx.check(value(v) == want, key, 'the %s %r is read as %r, not %r' % (name, s, value(v), want))
    ctx.state((name, repr(value(v))))
    out, fail = attempt(WRITE.get(name, str), v)
    if not ctx.check(fail is None, key, 'cannot be written: %s' % fail):
        return
    if want != DONTCARE:
        ctx.check(ref(out) == want, key, '%r, read as %r, is written as %r' % (s, want, out))
    w, fail = attempt(reader, out)
    ctx.check(fail is None and value(w) == value(v), key, '%r is written as %r, which is read as %r' % (s, out, fail if fail is not None else value(w)))
    if fail is None and not isinstance(v, list):
        u, fail = attempt(lambda: repr(v))
        ctx.check(fail is None, key, 'repr: %s' % fail)
        if hasattr(type(v), '__cmp__'):
            e, fail = attempt(lambda: (v == w, not v != w))
            ctx.check(e == (True, True), key, '%r is not equal to itself, written and read again: %s' % (s, fail))
        if type(v).__hash__ is not object.__hash__ and '__hash__' in dir(type(v)):
            h, fail = attempt(lambda: hash(v) == hash(w))
            if hasattr(type(v), '__cmp__') and 'immutable' in (type(v).__doc__ or '') and 'hash' in (type(v).__doc__ or ''):
                ctx.check(h is True, key, 'hash: %s' % fail)


# ------------------------------------------------------------------ words
CHARS = ['a', '(', ')', '\\', '"', ' ', '\t', '\r\n', '\n', '\x00', '\x7f', '\xe9', ',', u'\u0100']


def lexical(ctx):
    for i in range(256):
        if not ctx.mine():
            continue
        ctx.case(['char', i])
        c = chr(i)
        for fn, want in ((core.IsOCTET, True), (core.IsCHAR, i < 128), (core.IsUPALPHA, 65 <= i <= 90), (core.IsLOALPHA, 97 <= i <= 122), (core.IsALPHA, 65 <= i <= 90 or 97 <= i <= 122),
                         (core.IsDIGIT, 48 <= i <= 57), (core.IsCTL, i < 32 or i == 127), (core.IsHEX, c in '0123456789abcdefABCDEF'), (core.IsSEPARATOR, c in '()<>@,;:\\"/[]?={} \t'),
                         (core.IsDIGITS, 48 <= i <= 57), (core.IsHEXDIGITS, c in '0123456789abcdefABCDEF')):
            v, fail = attempt(fn, c)
            ctx.check(fail is None and bool(v) == want, 'char|%s|%i' % (fn.__name__, i), '%s(%r) is %r %s' % (fn.__name__, c, v, fail))
        for s in (c, 'a' + c, c + 'a', 'a' + c + 'a'):
            v, fail = attempt(core.CheckToken, s)
            ctx.check((fail is None) == bool(TOKEN.match(s)), 'token|%r' % s, 'CheckToken(%r): %s' % (s, fail))
            q = core.QuoteString(s)
            ctx.check(match(Q, q) and core.DecodeQuotedString(q) == s and unquote(q) == s, 'quote|%r' % s, '%r is quoted as %r' % (s, q))
            q = core.QuoteString(s, False)
            ctx.check(q == s and TOKEN.match(s) or match(Q, q) and not TOKEN.match(s) and unquote(q) == s, 'quote|%r|unforced' % s, '%r is quoted as %r' % (s, q))
    ctx.check(core.QuoteString('') == '""' and core.QuoteString('', False) == '""' and core.IsDIGITS('') is False and core.IsHEXDIGITS('') is False, 'char|empty', 'the empty string')
    for n in range(0, 6 if ctx.thorough else 5):
        for t in itertools.product(CHARS, repeat=n):
            if not ctx.mine():
                continue
            s = ''.join(t) if u'\u0100' not in t else u''.join([x.decode('latin-1') if isinstance(x, str) else x for x in t])
            words(ctx, s)


COMMENT = re.compile(r'\((?:[ -\'*-\[\]-~\t\x80-\xff]|\r\n[ \t]|\\[\x00-\x7f])*')


def comment(s, i):
    """the end of the comment that starts at i, or None"""
    if s[i:i + 1] != '(':
        return None
    i += 1
    while i < len(s):
        m = re.compile(r'(?:[ -\'*-\[\]-~\t\x80-\xff]|\r\n[ \t]|\\[\x00-\x7f])+').match(s, i)
        if m:
            i = m.end()
        elif s[i] == '(':
            i = comment(s, i)
            if i is None:
                return None
        elif s[i] == ')':
            return i + 1
        else:
            return None
    return None


def tokenize(s):
    """the words of s, or None"""
    out, i = [], 0
    while i < len(s):
        m = re.compile(r'(?:\r\n)?[ \t]+').match(s, i)
        if m:
            i = m.end()
            if not out or out[-1] != ' ':
                out.append(' ')
            continue
        m = re.compile(T).match(s, i) or re.compile(Q).match(s, i)
        if m:
            j = m.end()
        elif s[i] == '(':
            j = comment(s, i)
            if j is None:
                return None
        elif s[i] in '<>@,;:\\/[]?={})':
            j = i + 1
        else:
            return None
        out.append(re.sub(r'(\\[\x00-\x7f])|\r\n[ \t]+', lambda m: m.group(1) or ' ', s[i:j]) if s[i] in '("' else s[i:j])
        i = j
    return out


def words(ctx, s):
    ctx.case(['words', s.encode('unicode_escape') if isinstance(s, unicode) else s.encode('string_escape')])
    key = 'words|%r' % s
    want = tokenize(s)
    ctx.transitions += 1
    v, fail = attempt(lambda: core.WordParser(s, False).words)
    if want is None:
        ctx.check(fail is False, key, '%r has words %r %s' % (s, v, fail))
        return
    ctx.check(v == want, key, '%r has words %r, not %r' % (s, v or fail, want))
    v, fail = attempt(lambda: core.WordParser(s).words)
    ctx.check(v == [w for w in want if w != ' '], key, '%r has words %r %s' % (s, v, fail))
    ctx.state(repr(want))
    p = core.WordParser(s)
    out = []
    while p.cWord is not None:
        w = p.cWord
        kinds = (bool(p.IsToken()), bool(p.IsQuotedString()), bool(p.IsInteger()))
        ctx.check(kinds == (w[0] not in core.SEPARATORS, w[0] == '"', w.isdigit()) and p.Peek() == w, key, 'the kinds of %r are %r' % (w, kinds))
        pos = p.pos
        r = p.ParseProduction(p.RequireSeparator, 'never')
        ctx.check(r is None and p.pos == pos and p.cWord == w, key, 'a failed production moves the parser')
        if kinds[1]:
            x, fail = attempt(p.ParseQuotedString)
            ctx.check(x == unquote(w), key, '%r is decoded as %r %s' % (w, x, fail))
        else:
            x = p.ParseToken()
            ctx.check(x == (w if kinds[0] else None), key, 'token %r' % x)
            if x is None:
                ctx.check(p.ParseSeparator(w) is True, key, 'separator %r' % w)
        out.append(w)
    ctx.check(out == [w for w in want if w != ' '] and attempt(p.RequireEnd)[1] is None, key, 'the words are %r' % out)


# ------------------------------------------------------------------ comparing
POOLS = {
    'HTTPVersion': ['HTTP/1.0', 'HTTP/1.1', 'HTTP/0.9', 'HTTP/2.0', 'HTTP/1.10', 'HTTP/1.2', 'HTTP/1.25', 'HTTP/10.0', 'HTTP/ 1.1'],
    'TransferEncoding': ['chunked', 'CHUNKED', 'gzip', 'gzip;x=1', 'gzip;X=1', 'gzip; x="1"', 'gzip;x=2', 'gzip;x=1;y=2', 'gzip;y=2;x=1', 'a'],
    'MediaType': ['a/b', 'A/B', 'a/c', 'b/a', 'a/b;x=1', 'a/b; X=1', 'a/b;x="1"', 'a/b;x=2', 'a/b;x=1;y=2', 'a/b;y=2;x=1', 'a/b;x=Z', 'a/b;x=z', 'text/plain'],
    'MediaRange': ['*/*', 'a/*', 'b/*', 'a/b', 'A/B', 'a/b;x=1', 'a/b;X=1', 'a/b;x=2', 'a/b;x=1;y=2', 'a/b;y=2;x=1', 'a/*;x=1', 'c/a', '*/*;x=1'],
    'AcceptItem': ['*/*', 'a/*', 'a/*;q=0.5', 'a/b', 'a/b;q=0.5', 'a/b;q=0', 'a/b;x=1', 'a/b;x=1;q=0.5', 'a/b;X=1', '*/*;q=0.1'],
    'AcceptToken': ['a', 'A', 'b', '*', 'a;q=0.5', 'a;q=0', '*;q=0.5', 'A;q=0.5', 'a;q=1'],
    'AcceptLanguageItem': ['en', 'EN', 'en-gb', 'en-GB-x', '*', 'de', 'en;q=0.5', '*;q=0.5', 'en-us', 'en-gb;q=0.2'],
    'AcceptRanges': ['bytes', 'BYTES', 'none', 'bytes,x', 'x,bytes', 'x'],
    'Allow': ['GET', 'get', 'GET,HEAD', 'HEAD,GET', '', 'PUT'],
    'ProductToken': ['a', 'b', 'a/1', 'a/01', 'a/1.0', 'a/1.0.3', 'a/1.0.10', 'a/1.0a', 'a/1.0.3a3', 'a/1.0.3a20', 'a/1.0.3b1', 'a/2.b3', 'a/2.0b3', 'a/.b3', 'a/2', 'b/1', 'a/1.', 'a/1.0b1', 'a/10', 'a/1b4.8.4', 'a/0.8b1.4'],
    'LanguageTag': ['en', 'EN', 'en-us', 'en-US', 'en-gb', 'de', 'en-us-texas', 'i-cherokee'],
    'EntityTag': ['"x"', 'W/"x"', 'w/"x"', '"y"', 'W/"y"', '"X"', '""', 'W/""', '"\\x"'],
}
ORDERED = {     # increasing
    'HTTPVersion': ['HTTP/0.9', 'HTTP/1.0', 'HTTP/1.1', 'HTTP/1.2', 'HTTP/1.10', 'HTTP/1.25', 'HTTP/2.0', 'HTTP/10.0'],
    'MediaRange': ['image/png', 'image/*', 'text/plain;charset=utf-8', 'text/plain', 'text/*', '*/*'],
    'AcceptItem': ['image/png', 'image/*', 'image/*;q=0.5', 'text/plain;charset=utf-8', 'text/plain;q=0.75', 'text/plain;q=0.5', 'text/*', '*/*', '*/*;q=0.1'],
    'AcceptToken': ['a', 'a;q=0.5', 'b;q=0.75', 'b;q=0.5', '*', '*;q=0.5'],
    'AcceptLanguageItem': ['en-gb-x', 'en-gb', 'en-us', 'de', 'en', 'en;q=0.5', '*'],
    'ProductToken': ['a', 'a/0.8b1.4', 'a/0.8.4', 'a/0.8.30', 'a/0.8.200', 'a/1b4.8.4', 'a/1.0a', 'a/1.0', 'a/1.0.3a3', 'a/1.0.3a20', 'a/1.0.3b1', 'a/1.0.3', 'a/1.0.10', 'a/2.b3', 'a/2.0b3', 'a/2.0'],
}
CLASSES = {'HTTPVersion': params.HTTPVersion, 'TransferEncoding': params.TransferEncoding, 'MediaType': params.MediaType, 'MediaRange': headers.MediaRange, 'AcceptItem': headers.AcceptItem,
           'AcceptToken': headers.AcceptToken, 'AcceptLanguageItem': headers.AcceptLanguageItem, 'AcceptRanges': headers.AcceptRanges, 'Allow': headers.Allow, 'ProductToken': params.ProductToken,
           'LanguageTag': params.LanguageTag, 'EntityTag': params.EntityTag}


def explode(v):
    out = []
    for c in v.split('.'):
        xs = [int(x) if x.isdigit() else x for x in re.findall('[0-9]+|[^0-9]+', c)]
        out.append(tuple([-1] + xs if xs and not isinstance(xs[0], int) else xs))
    return tuple(out)


def same(name, a, b):
    """whether two values are the same"""
    if name == 'ProductToken':
        def form(s):
            t, sep, v = s.partition('/')
            v = re.sub('[0-9]+', lambda m: str(int(m.group(0))), v)
            return (t, sep and v.rstrip('.') if v.endswith('.') else v if sep else None)
        return form(a) == form(b)
    if name == 'AcceptLanguageItem':
        return r_atoken(a) == r_atoken(b)
    if name in ('AcceptRanges', 'Allow'):
        return sorted(TYPES[name][1](a)) == sorted(TYPES[name][1](b))
    if name == 'AcceptItem':
        return r_accept(a)[:2] == r_accept(b)[:2]
    return TYPES[name][1](a) == TYPES[name][1](b)


def comparing(ctx):
    for name in sorted(POOLS):
        cls = CLASSES[name]
        pool = POOLS[name]
        objs = [cls.FromString(s) for s in pool]
        hashed = name not in ('AcceptRanges', 'Allow')
        for i, a in enumerate(objs):
            if not ctx.mine():
                continue
            ctx.case(['compare', name, pool[i]])
            for j, b in enumerate(objs):
                key = 'compare|%s|%s|%s' % (name, pool[i], pool[j])
                ctx.transitions += 1
                c, fail = attempt(lambda: (cmp(a, b), cmp(b, a), a == b, a != b, a < b, a > b))
                if not ctx.check(fail is None, key, '%s with %s: %s' % (pool[i], pool[j], fail)):
                    continue
                ctx.check(c[0] == -c[1] and c[2] == (c[0] == 0) and c[3] != c[2] and c[4] == (c[0] < 0) and c[5] == (c[0] > 0), key, '%s with %s: %r' % (pool[i], pool[j], c))
                ctx.check(c[2] == same(name, pool[i], pool[j]), key, '%s is %sequal to %s' % (pool[i], '' if c[2] else 'not ', pool[j]))
                if hashed:
                    h, fail = attempt(lambda: (hash(a), hash(b)))
                    ctx.check(fail is None and (not c[2] or h[0] == h[1]), key, 'the hashes of %s and %s: %r %s' % (pool[i], pool[j], h, fail))
                if name not in ('HTTPVersion',):
                    s, fail = attempt(lambda: (a == pool[j], a < pool[j]))
                    ctx.check(fail is None and s == (c[2], c[4]), key, '%s with the string %s: %r %s' % (pool[i], pool[j], s, fail))
                for k, d in enumerate(objs):
                    if c[0] <= 0:
                        e, fail = attempt(lambda: (cmp(b, d), cmp(a, d)))
                        ctx.check(fail is not None or e[0] > 0 or (e[1] <= 0 and (e[1] < 0 or c[0] == e[0] == 0)), key + '|' + pool[k], 'not transitive: %s, %s, %s' % (pool[i], pool[j], pool[k]))
        for a, b in zip(ORDERED.get(name, []), ORDERED.get(name, [])[1:]):
            ctx.check(attempt(lambda: cls.FromString(a) < cls.FromString(b))[0] is True, 'order|%s|%s|%s' % (name, a, b), '%s is not less than %s' % (a, b))
    for v in ('2.15', '2.17b3', '2.b3', '.b3', '1', '', 'a', '1..2', 'a1b', '1.0.3a20', 'x.y.z', '10b', '1.'):
        if v and v[-1] != '.':
            ctx.check(params.ProductToken.Explode(v) == explode(v), 'explode|' + v, repr(params.ProductToken.Explode(v)))


# ------------------------------------------------------------------ dates
def dates(ctx):
    days = [(1994, 11, 6), (2000, 2, 29), (1999, 12, 31), (2012, 1, 1), (1990, 1, 1), (2089, 12, 31), (1970, 1, 1), (2038, 1, 19), (9999, 12, 31), (1, 1, 1)]
    days += [(2013, m, d) for m in range(1, 13) for d in (1, 10, 28)] + [(2013, 7, d) for d in range(1, 32)]
    if ctx.thorough:
        days += [(y, m, d) for y in range(1970, 2070) for m in range(1, 13) for d in (1, 9, 28)]
    wk = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
    month = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
    long = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
    from java.time import LocalDate
    for i, (y, m, d) in enumerate(days):
        if not ctx.mine():
            continue
        w = LocalDate.of(y, m, d).getDayOfWeek().getValue() - 1
        for t in ((8, 49, 37), (0, 0, 0), (23, 59, 59)):
            ctx.case(['date', y, m, d, list(t)])
            hms = '%02i:%02i:%02i' % t
            rfc1123 = '%s, %02i %s %04i %s GMT' % (wk[w], d, month[m - 1], y, hms)
            forms = [rfc1123, '%s %s %2i %s %04i' % (wk[w], month[m - 1], d, hms, y)]
            if 1990 <= y < 2090:
                forms.append('%s, %02i-%s-%02i %s GMT' % (long[w], d, month[m - 1], y % 100, hms))
            want = (y // 100, y % 100, m, d) + t
            for f in forms:
                ctx.transitions += 1
                v, fail = attempt(params.FullDate.FromHTTPString, f)
                ok = ctx.check(fail is None and v.GetCalendarTimePoint() == want and v.GetZone() == (0, 0), 'date|' + f, '%s: %r %s' % (f, v, fail))
                if ok:
                    ctx.check(str(v) == rfc1123 and unicode(v) == rfc1123, 'date|' + f, '%s is written as %s, %s' % (f, v, unicode(v)))
                    r = http.HTTPResponse(http.HTTPRequest('http://localhost/'))
                    x, fail = attempt(lambda: (r.SetDate(v), r.GetHeader('Date'), r.GetDate()))
                    ctx.check(fail is None and x[1] == rfc1123 and x[2] == v, 'date|header|' + f, '%r %s' % (x, fail))
                wrong = wk[(w + 1) % 7]
                for old, new in ((f.split(',')[0].split()[0], wrong), (month[m - 1], 'Foo'), (hms, hms[:5]), (hms, '24:00:01'), (hms, '12:60:00'), ('GMT', 'CET'), (' GMT', ''), ('%04i' % y, 'y'), (f, f + ' x')):
                    if old in f:
                        v, fail = attempt(params.FullDate.FromHTTPString, f.replace(old, new, 1))
                        ctx.check(fail is False, 'date|' + f.replace(old, new, 1), '%s: %r %s' % (f.replace(old, new, 1), v, fail))
    for f in ('Sun, 00 Jan 2012 00:00:00 GMT', 'Tue, 32 Jan 2012 00:00:00 GMT', 'Sat, 00-Jan-12 00:00:00 GMT', 'Sat Jan  0 00:00:00 2012', 'Wed Jan 32 00:00:00 2012', 'Sun, 31 Feb 2013 00:00:00 GMT', 'Fri, 29 Feb 2013 00:00:00 GMT', 'Thu, 31 Apr 2014 00:00:00 GMT', '', 'Sun', 'Sun,', 'Sun, 06', 'Sun Nov', '1994-11-06T08:49:37Z'):
        v, fail = attempt(params.FullDate.FromHTTPString, f)
        ctx.check(fail is False, 'date|' + f, '%r %s' % (v, fail))


# ------------------------------------------------------------------ choosing
def best(offers, q):
    """the offers of the highest quality, if that is more than 0; q(offer) may be None for the least acceptable"""
    qs = [q(o) for o in offers]
    top = max(qs) if qs else 0
    return offers[qs.index(top)] if top > 0 else None


def m_accept(items, offer):
    """the quality of a media type: that of the most specific range"""
    t, s, ps = r_media(offer)
    found = []
    for i in items:
        (rt, rs, rp), q, x = r_accept(i)
        if rt in ('*', t) and rs in ('*', s) and set(rp) <= set(ps):
            found.append(((rt != '*') + (rs != '*'), len(rp), q))
    if not found:
        return 0
    top = max([f[:2] for f in found])
    return set([f[2] for f in found if f[:2] == top])


def m_token(items, offer, default=0):
    found = [q for t, q in map(r_atoken, items) if t == offer.lower()] or [q for t, q in map(r_atoken, items) if t == '*']
    return set(found) or default


def m_language(items, offer):
    tag = offer.lower().split('-')
    found = []
    for t, q in map(r_atoken, items):
        r = [] if t == '*' else t.split('-')
        if tag[:len(r)] == r:
            found.append((len(r), q))
    return set([q for n, q in found if n == max(found)[0]]) or 0


def possible(offers, q):
    """the offers that may be chosen: equal ranges with different qualities leave a choice"""
    out = set()
    qs = [q(o) for o in offers]
    for combination in itertools.product(*[sorted(x) if isinstance(x, set) else [x] for x in qs]):
        out.add(best(offers, lambda o: combination[offers.index(o)]))
    return out


def choosing(ctx):
    k = 4 if ctx.thorough else 3
    media = ['a/b', 'a/*', '*/*', 'a/b;x=1', 'A/C', 'a/b;x=1;y=2', 'a/*;x=1']
    items = [m + q for m in media for q in ('', ';q=0.5', ';q=0')]
    offers = [[], ['a/b'], ['a/c', 'a/b'], ['a/b', 'a/c', 'c/d'], ['a/b;x=1', 'a/b'], ['a/b', 'a/b;x=1;y=2', 'a/c;x=1'], ['a/b;x=2'], ['A/B;X=1', 'a/c'], ['c/d', 'a/b;z=1;x=1']]
    choose(ctx, 'AcceptList', items, offers, k, lambda l, os: l.SelectType(map(params.MediaType.FromString, os)), m_accept, lambda v: v and v_media(v), r_media)
    toks = ['a', 'B', '*', 'iso-8859-1', 'identity']
    items = [m + q for m in toks for q in ('', ';q=0.5', ';q=0')]
    offers = [[], ['a'], ['b', 'a'], ['c', 'iso-8859-1', 'a'], ['identity'], ['identity', 'a'], ['a', 'identity', 'c'], ['c'], ['ISO-8859-1', 'B'], ['A', 'b', 'c']]
    choose(ctx, 'AcceptTokenList', items, offers, k, lambda l, os: l.SelectToken(os), m_token, lambda v: v, lambda o: o)
    choose(ctx, 'AcceptCharsetList', items, offers, k, lambda l, os: l.SelectToken(os), lambda i, o: m_token(i, o, 1.0 if o.lower() == 'iso-8859-1' else 0), lambda v: v, lambda o: o)
    choose(ctx, 'AcceptEncodingList', items, offers, k, lambda l, os: l.SelectToken(os), lambda i, o: m_token(i, o, 1e-9 if o.lower() == 'identity' else 0), lambda v: v, lambda o: o)
    langs = ['en', 'en-GB', 'en-gb-x', '*', 'de', 'e']
    items = [m + q for m in langs for q in ('', ';q=0.5', ';q=0')]
    offers = [[], ['en'], ['en-GB'], ['en-us', 'en-GB'], ['de', 'en-gb-x-y'], ['fr', 'de'], ['eng', 'en'], ['fr'], ['EN-gb', 'de-CH', 'fr']]
    choose(ctx, 'AcceptLanguageList', items, offers, k, lambda l, os: l.SelectToken(os), m_language, lambda v: v and str(v).lower(), lambda o: o.lower())
    choose(ctx, 'AcceptLanguageList', items, offers, min(k, 2), lambda l, os: l.SelectLanguage(map(params.LanguageTag.FromString, os)), m_language, lambda v: v and str(v).lower(), lambda o: o.lower())
    # one range and one type at a time
    for r in media:
        for o in sum([x for x in offers], []) + ['a/b', 'a/c', 'a/b;x=1', 'A/B;X=1', 'a/b;y=2;x=1', 'c/d', 'a/c;x=1', 'a/b;x=2']:
            if '/' in o:
                v, fail = attempt(lambda: headers.MediaRange.FromString(r).MatchMediaType(params.MediaType.FromString(o)))
                ctx.check(fail is None and v == (m_accept([r], o) != 0), 'match|%s|%s' % (r, o), '%s matches %s: %r %s' % (r, o, v, fail))
    for t in ('en', 'en-GB', 'en-gb-x', 'de'):
        for r in ((), ('en',), ('en', 'gb'), ('en', 'g'), ('en', 'gb', 'x'), ('en', 'gb', 'x', 'y'), ('de',), ('e',)):
            v = params.LanguageTag.FromString(t).PartialMatch(r)
            ctx.check(v == (tuple(t.lower().split('-'))[:len(r)] == r), 'match|%s|%s' % (t, r), repr(v))


def choose(ctx, name, items, offers, k, select, model, value, refvalue):
    reader = TYPES[name][0]
    for n in range(0 if name == 'AcceptTokenList' else 1, k + 1):
        for combo in itertools.product(items, repeat=n) if n < 3 else itertools.combinations(items, n):
            if not ctx.mine():
                continue
            ctx.case(['choose', name, list(combo)])
            text = ', '.join(combo)
            l, fail = attempt(reader, text)
            if not ctx.check(fail is None, 'choose|%s|%s' % (name, text), '%s is refused: %s' % (text, fail)):
                continue
            for os in offers:
                ctx.transitions += 1
                v, fail = attempt(lambda: value(select(l, os)))
                want = set([x and refvalue(x) for x in possible(os, lambda o: model(combo, o))])
                ctx.outcome((name, v is None))
                ctx.check(fail is None and v in want, 'choose|%s|%s|%s' % (name, text, os), 'of %s, %s chooses %r %s, not %r' % (os, text, v, fail, sorted(want)))


# ------------------------------------------------------------------ messages
def messages(ctx):
    def response():
        return http.HTTPResponse(http.HTTPRequest('http://localhost/'))

    def request():
        return http.HTTPRequest('http://localhost/')
    L = params.LanguageTag.FromString
    cases = [
        (request, 'Accept', 'Accept', headers.AcceptList, ['a/b, */*;q=0.5', 'text/plain'], ['a', '/', '', 'a/b;q=x']),
        (request, 'AcceptCharset', 'Accept-Charset', headers.AcceptCharsetList, ['utf-8, *;q=0.5'], ['a;', ';']),
        (request, 'AcceptEncoding', 'Accept-Encoding', headers.AcceptEncodingList, ['gzip, *;q=0.5', ''], ['a;', ';']),
        (response, 'AcceptRanges', 'Accept-Ranges', headers.AcceptRanges, ['bytes', 'none', 'bytes, x'], ['', 'none, x', '=']),
        (response, 'Allow', 'Allow', headers.Allow, ['GET, HEAD', '', 'PUT'], ['=', 'a b']),
        (request, 'Allow', 'Allow', headers.Allow, ['GET, HEAD'], ['"']),
        (response, 'CacheControl', 'Cache-Control', headers.CacheControl, ['no-cache', 'max-age=60, private="x, y"', 'ext="a b"'], ['', '=', 'a=', 'a b']),
        (response, 'ContentRange', 'Content-Range', headers.ContentRange, ['bytes 0-9/10', 'bytes */*'], ['', 'bytes', 'bytes 1/2', '0-9/10']),
        (response, 'ContentType', 'Content-Type', params.MediaType, ['a/b', 'a/b; x="y z"'], ['', 'a', 'a /b']),
        (response, 'ETag', 'ETag', params.EntityTag, ['"x"', 'W/"x"'], ['', 'x', 'W/']),
    ]
    for make, name, header, cls, good, bad in cases:
        if not ctx.mine():
            continue
        for g in good:
            ctx.case(['message', name, g])
            key = 'message|%s|%s' % (name, g)
            m = make()
            v, fail = attempt(lambda: getattr(m, 'Get' + name)())
            ctx.check(fail is None and v is None, key, 'Get%s without the header gives %r %s' % (name, v, fail))
            o = cls.FromString(g)
            v, fail = attempt(lambda: (getattr(m, 'Set' + name)(o), getattr(m, 'Get' + name)(), m.GetHeader(header)))
            ref = TYPES.get(cls.__name__)
            ctx.check(fail is None and ref[2](v[1]) == ref[2](o) and ref[1](v[2]) == ref[1](g), key, 'Set%s(%s): %r %s' % (name, g, v, fail))
            if 'string' in (getattr(m, 'Set' + name).__doc__ or '') and 'parsed from' in (getattr(m, 'Set' + name).__doc__ or ''):
                m = make()
                v, fail = attempt(lambda: (getattr(m, 'Set' + name)(g), getattr(m, 'Get' + name)()))
                ctx.check(fail is None and ref[2](v[1]) == ref[2](o), key, 'Set%s(%r): %r %s' % (name, g, v, fail))
                v, fail = attempt(lambda: getattr(m, 'Set' + name)(bad[0]))
                ctx.check(fail is False, key, 'Set%s(%r): %r %s' % (name, bad[0], v, fail))
            if 'None' in (getattr(m, 'Set' + name).__doc__ or ''):
                v, fail = attempt(lambda: (getattr(m, 'Set' + name)(None), m.HasHeader(header)))
                ctx.check(fail is None and v[1] is False, key, 'Set%s(None): %r %s' % (name, v, fail))
            m.SetHeader(header.upper(), ' ' + g + ' ')
            v, fail = attempt(lambda: getattr(m, 'Get' + name)())
            ctx.check(fail is None and ref[2](v) == ref[2](o), key, 'Get%s with spaces round it: %s' % (name, fail))
        for b in bad:
            m = make()
            m.SetHeader(header, b)
            v, fail = attempt(lambda: getattr(m, 'Get' + name)())
            ctx.check(fail is False, 'message|%s|%s' % (name, b), 'Get%s of %r: %r %s' % (name, b, v, fail))
    simple = [
        (response, 'Connection', 'Connection', [(set(['close']), set(['close'])), (['Close', 'x'], set(['close', 'x']))], set(), [('close, X-y', set(['close', 'x-y'])), (',close,,', set(['close'])), ('', set())], ['a b', '"']),
        (response, 'ContentEncoding', 'Content-Encoding', [(['gzip'], ['gzip']), (['a', 'B'], ['a', 'b'])], [], [('b, A', ['b', 'a'])], ['a b', '=']),
        (response, 'ContentLanguage', 'Content-Language', [([L('en')], [L('en')]), ([L('en'), L('de-CH')], [L('en'), L('de-CH')])], [], [('en,de', [L('en'), L('de')])], ['en;', '"']),
        (response, 'ContentLength', 'Content-Length', [(0, 0), (10, 10), (2 ** 40, 2 ** 40)], None, [(' 12 ', 12)], ['', 'x', '1.5', '-1', '+1', '0x10', '1 2', '1_0', '5L']),
        (response, 'ContentMD5', 'Content-MD5', [('\x00' * 16, '\x00' * 16), ('\xff\x01' * 8, '\xff\x01' * 8)], None, [(' AAAAAAAAAAAAAAAAAAAAAA== ', '\x00' * 16)], []),
        (response, 'Age', 'Age', [(0, 0), (10, 10), (2 ** 31, 2 ** 31)], None, [(' 12 ', 12)], ['', 'x', '-1', '1 2']),
        (response, 'ExpectContinue', 'Expect', [(True, True), (False, False)], False, [('100-Continue', True), ('x', False)], []),
    ]
    for make, name, header, values, absent, texts, bad in simple:
        if not ctx.mine():
            continue
        m = make()
        v, fail = attempt(lambda: getattr(m, 'Get' + name)())
        ctx.case(['message', name])
        ctx.check(fail is None and v == absent, 'message|%s|absent' % name, 'Get%s without the header gives %r %s' % (name, v, fail))
        for given, want in values:
            v, fail = attempt(lambda: (getattr(m, 'Set' + name)(given), getattr(m, 'Get' + name)()))
            ctx.check(fail is None and v[1] == want, 'message|%s|%r' % (name, given), 'Set%s(%r): %r %s' % (name, given, v, fail))
        v, fail = attempt(lambda: (getattr(m, 'Set' + name)(absent), m.HasHeader(header)))
        ctx.check(fail is None and v[1] is False, 'message|%s|none' % name, 'Set%s(%r): %r %s' % (name, absent, v, fail))
        for t, want in texts:
            m.SetHeader(header, t)
            v, fail = attempt(lambda: getattr(m, 'Get' + name)())
            ctx.check(fail is None and v == want, 'message|%s|%s' % (name, t), 'Get%s of %r: %r %s' % (name, t, v, fail))
        for t in bad:
            m.SetHeader(header, t)
            v, fail = attempt(lambda: getattr(m, 'Get' + name)())
            ctx.check(fail is False, 'message|%s|%s' % (name, t), 'Get%s of %r: %r %s' % (name, t, v, fail))
    # the collection of headers, all histories of a few operations
    ops = [('set', n, v, a) for n in ('A', 'a', 'B') for v in ('1', '2', None) for a in (False, True)]
    for hist in itertools.product(range(len(ops)), repeat=3):
        if not ctx.mine():
            continue
        ctx.case(['headers', list(hist)])
        m, model = response(), {}
        for o in hist:
            x, n, v, a = ops[o]
            m.SetHeader(n, v, a)
            if v is None:
                model.pop(n.lower(), None)
            else:
                model[n.lower()] = model[n.lower()] + ', ' + v if a and n.lower() in model else v
        ctx.transitions += 3
        ctx.check(m.GetHeaderList() == sorted(model) and [m.GetHeader(n) for n in ('A', 'a', 'B', 'b', 'C')] == [model.get(n) for n in 'aabbc'] and
                  [m.HasHeader(n) for n in 'AbC'] == [n in model for n in 'abc'], 'headers|%r' % (hist,), '%r is not %r' % (m.headers, model))


def explore(ctx):
    ctx.case_limit = 30
    lexical(ctx)
    reading(ctx)
    comparing(ctx)
    dates(ctx)
    choosing(ctx)
    messages(ctx)
    ctx.mine()


def replay(ctx, case):
    ctx.nshards, ctx.shard, ctx.index = 1, 0, -1
    explore(ctx)
