# -*- coding: utf-8 -*-
"""C12: URI references, file URLs and bases, against RFC 2396."""
import itertools
import os
import re
import mclib
import pyslet.rfc2396 as uri
import pyslet.rfc2616 as http
import pyslet.vfs as vfs
import pyslet.xml20081126.structures as xml

F = uri.URIFactory


def failure(err):
    return ('failed', type(err).__name__, str(err)[:120])


# ------------------------------------------------------------------ the grammar
URIC = re.compile(r"(?:[;/?:@&=+$,A-Za-z0-9\-_.!~*'()]|%[0-9A-Fa-f][0-9A-Fa-f])*\Z")
SPLIT = re.compile(r'(?:([A-Za-z][A-Za-z0-9+\-.]*):)?(?://([^/?]*))?([^?]*)(?:\?(.*))?\Z', re.S)


def refparse(text):
    """(scheme, opaque part, authority, absPath, relPath, query, fragment), or None if it isn't a URI reference"""
    body, hash_, fragment = text.partition('#')
    if not URIC.match(body):
        return None
    scheme, authority, path, query = SPLIT.match(body).groups()
    if scheme is not None and authority is None and path[:1] != '/':
        ssp = body[len(scheme) + 1:]
        return (scheme, ssp or None, None, None, None, None, fragment if hash_ else None)
    absPath = path if path[:1] == '/' else None
    relPath = None
    if absPath is None and authority is None:
        relPath = path
    return (scheme, None, authority, absPath, relPath, query, fragment if hash_ else None)


def parts(u):
    return (u.scheme, u.opaquePart, u.authority, u.absPath, u.relPath, u.query, u.fragment)


def hexval(b):
    return re.sub('%([0-9A-Fa-f][0-9A-Fa-f])', lambda m: chr(int(m.group(1), 16)), b)


TOKENS = ['a', '/', '?', '#', ':', '.', '%41', '@', ';', 'b1', '//', '..', '+', 'Z-', '%', ' ', '%4', '"', '~', '=', '&', '\xe9', '%C3%A9', '[', '\\', '%2f', '1', '|', '^', '%2e', '*', "'", ',', '$']


def parsing(ctx):
    for n in range(0, 6 if ctx.thorough else 5):
        toks = TOKENS if n < 4 else TOKENS[:12] if n < 5 else TOKENS[:9]
        for t in itertools.product(toks, repeat=n):
            if ctx.mine():
                parse(ctx, ''.join(t))


def parse(ctx, text):
    ctx.case(['parse', text.encode('string_escape')])
    key = 'parse|%r' % text
    want = refparse(text)
    try:
        u = F.URI(text)
        got = parts(u)
    except uri.URIException:
        u, got = None, None
    except mclib.StopExploring:
        raise
    except Exception, err:
        u, got = None, failure(err)
    ctx.transitions += 1
    ctx.state(repr(want))
    if not ctx.check(got == want, key, '%r parsed as %r, not %r' % (text, got, want)) or u is None:
        return
    ctx.check(str(u) == text, key, 'written as %r' % str(u))
    try:
        uu = F.URI(unicode(text, 'latin-1')) if '\xe9' not in text else u
        ctx.check(parts(uu) == got and type(str(uu)) is str, key, 'as unicode parsed as %r' % (parts(uu),))
        path = want[3] or want[4]
        try:
            if path:
                hexval(path.split('/')[-1]).decode('utf-8')
            name = u.GetFileName()
        except UnicodeDecodeError:
            # the name of a file is in UTF-8
            path = name = None
        ctx.check(name == (None if not path else hexval(path.split('/')[-1]).decode('utf-8')), key, 'file name %r' % name)
        ctx.check(u.IsAbsolute() == (want[0] is not None), key, 'IsAbsolute')
        v = F.URI(text)
        ctx.check(u == v and hash(u) == hash(v) and u.Match(v) and u == text and not u != v, key, 'not equal to itself')
        if want[0] is not None:
            ctx.check(u.schemeSpecificPart == text.partition('#')[0][len(want[0]) + 1:], key, 'scheme specific part %r' % u.schemeSpecificPart)
        c = u.Canonicalize()
        cc = c.Canonicalize()
        ctx.check(str(c) == str(cc) and c.Match(u) and u.Match(c), key, 'canonical form %r, and of that %r' % (str(c), str(cc)))
        p = parts(c)
        ctx.check(p[0] == (want[0] and want[0].lower()) and p[1:6] == want[1:6], key, 'canonical form %r' % str(c))
        root = u.GetCanonicalRoot()
        if want[0] is None:
            ctx.check(root is None, key, 'root %r' % str(root))
        else:
            ctx.check(str(root) == want[0].lower() + ':' + ('' if want[2] is None else '//' + want[2]), key, 'root %r' % str(root))
    except mclib.StopExploring:
        raise
    except Exception, err:
        ctx.violation(key, repr(failure(err)))


# ------------------------------------------------------------------ canonical forms of server based URLs
def servers(ctx):
    for scheme in ('http', 'HTTP', 'https', 'Https', 'file', 'FILE'):
        for userinfo in (None, '', 'u', 'u:p', 'U:', 'u:1', ':', 'a%40b:c'):
            for host in ('h', 'H.Example.COM', '1.2.3.4', ''):
                for port in (None, '', '80', '443', '8080', '080', '0'):
                    for path in ('', '/', '/%7Ea', '/~a', '/a%2Fb', '/A%3bB', '/%E9', '/a;p=%41'):
                        for query in (None, '', 'q=%7E', 'a=%26'):
                            if ctx.mine():
                                server(ctx, scheme, userinfo, host, port, path, query)


def server(ctx, scheme, userinfo, host, port, path, query):
    auth = ('' if userinfo is None else userinfo + '@') + host + ('' if port is None else ':' + port)
    text = scheme + '://' + auth + path + ('' if query is None else '?' + query)
    key = 'server|%s' % text
    ctx.case(['server', scheme, userinfo, host, port, path, query])
    ctx.transitions += 1
    try:
        u = F.URI(text)
        ctx.check((u.userinfo, u.host, u.port) == (userinfo, host, port), key, '%r splits into %r' % (auth, (u.userinfo, u.host, u.port)))
        ctx.check(uri.SplitServer(auth) == (userinfo, host, port), key, 'SplitServer %r' % (uri.SplitServer(auth),))
        default = {'http': 80, 'https': 443}.get(scheme.lower())
        h = scheme.lower() in ('http', 'https')

        def canon(s):
            if not h:
                return s
            return re.sub('%([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)) if re.match(r"[A-Za-z0-9\-_.!~*'()]", chr(int(m.group(1), 16))) else m.group(0), s)
        want = scheme.lower() + '://' + ('' if userinfo is None else userinfo + '@') + host.lower()
        if port and int(port) != default:
            want += ':%i' % int(port)
        want += canon(path or ('/' if h else ''))
        if query is not None:
            want += '?' + canon(query)
        c = u.Canonicalize()
        ctx.check(str(c) == want, key, 'canonical form %s, not %s' % (c, want))
        ctx.check(str(c.Canonicalize()) == want, key, 'canonical form changes again: %s' % c.Canonicalize())
        ctx.check(type(c) is type(u), key, 'canonical form is a %s' % type(c).__name__)
        ctx.state(want)
    except mclib.StopExploring:
        raise
    except Exception, err:
        ctx.violation(key, repr(failure(err)))


# ------------------------------------------------------------------ resolving
def refnormal(segs):
    """RFC 2396 5.2 step 6 c to f"""
    out = []
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..' and out and out[-1] != '..':
            out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    if out and out[-1] == '..':
        # what is left over leads to a directory
        out.append('')
    return out


def refresolve(base, ref):
    """the absolute URI ref (parts) stands for, base being absolute and hierarchical"""
    scheme, opaque, auth, absp, relp, query, frag = ref
    if scheme is not None:
        return ref
    bscheme, bopaque, bauth, babs, brel, bquery, bfrag = base
    if auth is not None:
        return (bscheme, None, auth, absp, None, query, frag)
    if absp is not None:
        return (bscheme, None, bauth, absp, None, query, frag)
    if relp == '' and query is None:
        return base[:6] + (frag,)
    segs = (babs or '/').split('/')[1:-1] + relp.split('/')
    return (bscheme, None, bauth, '/' + '/'.join(refnormal(segs)), None, query, frag)


SEGS = ['a', '..', '.', '', 'b', 'c:d', 'e;p', 'f%2e']


def paths(n, segs=SEGS):
    for k in range(1, n + 1):
        for p in itertools.product(segs, repeat=k):
            yield '/'.join(p)


def ishier(text):
    p = refparse(text)
    return p is not None and p[1] is None


def refs(ctx, n, segs=SEGS):
    out = []
    for p in paths(n, segs):
        if ':' in p.split('/')[0]:
            continue
        for pre in ('', '/') if p[:1] != '/' else ('',):
            for q in ('', '?x', '?'):
                for f in ('', '#f'):
                    if q == '?' and f:
                        continue
                    text = pre + p + q + f
                    if text[:2] == '//':
                        continue
                    out.append(text)
    out += ['', '#f', '#', '?x', '?', '?x#f', '//h', '//h/', '//h/a', '//h?x', '//h/a/../b', 'g:h', 'G:', 'http:g', 'g:/a/../b', 'http://h', '//']
    return sorted(set(out))


def asuri(p):
    scheme, opaque, auth, absp, relp, query, frag = p
    return (scheme + ':' if scheme is not None else '') + (opaque or '') + ('//' + auth if auth is not None else '') + (absp or relp or '') + ('?' + query if query is not None else '') + ('#' + frag if frag is not None else '')


BASES = ['http://a/b/c/d;p?q', 'http://a/b/', 'http://a/', 'http://a', 'http://a/b', 'http://a/b//c', 'http://a/b/./c', 'http://a/b/../c', 'http://a/b/..', 'file:///', 'file:///a/b', 'x:/', 'x:/a/b', 'x://h?q',
         'http://a/b?q/r', 'http://a/b#f/g', 'FILE:///a/b']


def resolving(ctx):
    rr = refs(ctx, 4 if ctx.thorough else 3)
    for b in BASES:
        base = F.URI(b)
        pb = refparse(b)
        for r in rr:
            if not ctx.mine():
                continue
            ctx.case(['resolve', b, r])
            ctx.transitions += 1
            key = 'resolve|%s|%s' % (b, r)
            want = refresolve(pb, refparse(r))
            if want[2] is None and (want[3] or '')[:2] == '//':
                # cannot be told from an authority
                continue
            try:
                got = F.Resolve(b, r)
                ctx.check(parts(got) == want, key, '%s [*] %s = %s, not %s' % (b, r, got, asuri(want)))
                ctx.check(str(F.Resolve(base, F.URI(r))) == str(got) and str(base) == b, key, 'as URI objects: %s' % F.Resolve(base, F.URI(r)))
                ctx.check(type(got) is type(F.URI(asuri(want))), key, 'type %s' % type(got).__name__)
                cur = F.URI(r).Resolve(base, F.URI('y://d/e?z'))
                same = refparse(r)[:6] == (None, None, None, None, '', None)
                ctx.check(str(cur) == ('y://d/e?z' + r if same else asuri(want)), key, 'with another current document: %s' % cur)
                ctx.state(str(got))
            except mclib.StopExploring:
                raise
            except Exception, err:
                ctx.violation(key, '%s [*] %s: %r' % (b, r, failure(err)))


def associative(ctx):
    """B [*] (R1 [*] R2) == (B [*] R1) [*] R2 and both are what the reference says"""
    segs = ['a', '..', '.', '', 'c:d']
    first = [r for r in refs(ctx, 3, segs) if '#' not in r and r[-1:] != '?'] if ctx.thorough else [r for r in refs(ctx, 3, segs) if '?' not in r and '#' not in r] + ['?x', 'a?x']
    second = refs(ctx, 2, segs)
    for i, r1 in enumerate(first):
        for r2 in second:
            if not ctx.mine():
                continue
            if refparse(r1)[1] is not None:
                continue
            ctx.case(['assoc', r1, r2])
            ctx.transitions += 1
            for b in ('http://h/x/y', 'z:/x/y/z'):
                key = 'assoc|%s|%s|%s' % (b, r1, r2)
                try:
                    one = refresolve(refparse(b), refparse(r1))
                    if one[1] is not None or one[0] is None or one[2] is None and one[3] is None:
                        continue
                    want = asuri(refresolve(one, refparse(r2)))
                    left = str(F.Resolve(F.Resolve(b, r1), r2))
                    mid = F.Resolve(r1, r2)
                    right = str(F.Resolve(b, mid))
                    # an authority of its own is needed to keep an empty first segment apart
                    if want.startswith('z://') or asuri(one).startswith('z://'):
                        continue
                    if [x for x in (one, refparse(str(mid)), refparse(want)) if x[2] is None and (x[3] or '')[:2] == '//'] or str(mid)[:2] == '//' and (r1 + r2)[:2] != '//' and '//h' not in r1 + r2:
                        continue
                    # what climbs above the root is up to the implementation
                    if excess(b, r1, r2):
                        continue
                    ctx.check(left == want, key, '(%s [*] %s) [*] %s = %s, not %s' % (b, r1, r2, left, want))
                    ctx.check(right == want, key, '%s [*] (%s [*] %s = %s) = %s, not %s' % (b, r1, r2, mid, right, want))
                except mclib.StopExploring:
                    raise
                except Exception, err:
                    ctx.violation(key, repr(failure(err)))


def excess(b, r1, r2):
    """does resolving climb above the root?"""
    p1, p2 = refparse(r1), refparse(r2)
    for base, ref in ((refparse(b), p1), (None, p2)):
        if base is None:
            base = refresolve(refparse(b), p1)
        if '..' in (base[3] or '').split('/'):
            return True
        if '..' in (refresolve(base, ref)[3] or '').split('/') and ref[2] is None and ref[3] is None:
            return True
    return '..' in (p1[3] or '').split('/') or '..' in (p2[3] or '').split('/')


def relative(ctx):
    """B [*] (U [/] B) == U wherever it is defined"""
    segs = ['a', 'b', '', 'c:d', 'e;p', 'A']
    tails = ['', '?x', '?', '#f', '?x#f']
    abss = ['']
    for k in (1, 2, 3):
        abss += ['/' + '/'.join(p) for p in itertools.product(segs if k < 3 else segs[:4], repeat=k)]
    heads = ['http://h', 'http://i', 'HTTP://h', 'file://', 'z:', '']
    us = [h + p + t for h in heads for p in abss for t in tails]
    us += [p + t for p in list(paths(2, segs)) + ['../a', '../../a', '../', './'] for t in tails if ':' not in p.split('/')[0] and p[:1] != '/']
    us += ['mailto:x', 'z:', '//h/a', '//h']
    bs = ['http://h', 'http://h/', 'http://h/a', 'http://h/a/', 'http://h/a/b', 'http://h/a/b?q', 'http://h/a/b/', 'http://h/a//', 'http://h/a/b/c', 'http://h//', 'file:///a/b', 'file:///a/', 'z:/a/b', 'z:/', '/a/b', '/a/', '/',
          'a/b', 'a', 'a/', '', '../a', '../b/c', '../../a', 'a/b/c?q', 'http://h/c:d/a', 'mailto:x', '//h/a/b', 'http://h/a?x', 'http://h/?x', 'a?x']
    for b in bs:
        for u in us:
            if not ctx.mine() or refparse(u) is None:
                continue
            pu, pb = refparse(u), refparse(b)
            if pu[3] and pu[3][:2] == '//' and pu[2] is None:
                continue
            if pu[4] == '' and pu[5] is None and pb[4] != '':
                # the current document, not a file next to it
                continue
            ctx.case(['relative', u, b])
            ctx.transitions += 1
            key = 'relative|%s|%s' % (u, b)
            U, B = F.URI(u), F.URI(b)
            try:
                r = F.Relative(u, b)
            except uri.URIRelativeError:
                # undefined only if B is more specified than U
                rank = lambda p: 4 if p[0] is not None else 3 if p[2] is not None else 2 if p[3] is not None else 1
                more = '..' in b or rank(pb) > rank(pu) or (pb[2] is not None) > (pu[2] is not None) or (pb[3] is not None and not pu[3])
                ctx.check(more or pu[3] is None and pu[0] is not None, key, '%s [/] %s is undefined' % (u, b))
                continue
            except mclib.StopExploring:
                raise
            except Exception, err:
                ctx.violation(key, '%s [/] %s: %r' % (u, b, failure(err)))
                continue
            try:
                back = F.Resolve(b, r)
                # the fragment is not part of the base
                want = parts(U)
                got = parts(back)
                if pu[0] is not None and pu[1] is None:
                    want = (want[0].lower(),) + want[1:]
                    got = (got[0] and got[0].lower(),) + got[1:]
                if want[4] is not None:
                    want = want[:4] + (normalrel(want[4]),) + want[5:]
                    got = got[:4] + (got[4] if got[4] is None else normalrel(got[4]),) + got[5:]
                ctx.check(got == want, key, '%s [/] %s = %s, which stands for %s' % (u, b, r, back))
                ctx.state('%s %s' % (r, b))
            except mclib.StopExploring:
                raise
            except Exception, err:
                ctx.violation(key, '%s [/] %s = %s: %r' % (u, b, r, failure(err)))


def normalrel(p):
    return './' if p in ('./', '') else '/'.join(refnormal(p.split('/')))


# ------------------------------------------------------------------ escaping
def refunescape(s):
    return hexval(s)


RESERVED = [('default', None), ('none', lambda c: False), ('segment', uri.IsPathSegmentReserved), ('query', uri.IsQueryReserved), ('authority', uri.IsAuthorityReserved), ('most', lambda c: not uri.IsAlphaNum(c))]


def escaping(ctx):
    chars = [chr(i) for i in range(256)]
    some = 'aZ09%;/?:@&=+$,-_.!~*\'()<>#"{}|\\^[]` \x00\x1f\x7f\x80\xc3\xa9\xff'
    strings = itertools.chain([''], chars, (a + b for a in chars for b in (chars if ctx.thorough else some)), (''.join(x) for x in itertools.product('a%4;/ \xe9', repeat=3)))
    for s in strings:
        if not ctx.mine():
            continue
        ctx.case(['escape', s.encode('hex')])
        ctx.transitions += 1
        for name, f in RESERVED:
            e = uri.EscapeData(s) if f is None else uri.EscapeData(s, f)
            ctx.check(URIC.match(e), 'escape|%s|%r' % (name, s), '%r escaped as %r' % (s, e))
            ctx.check(uri.UnescapeData(e) == s, 'escape|%s|%r' % (name, s), '%r escaped as %r, unescaped as %r' % (s, e, uri.UnescapeData(e)))
            f = f or uri.IsReserved
            plain = ''.join(c for c in s if re.match(r"[A-Za-z0-9\-_.!~*'();/?:@&=+$,]", c) and not f(c))
            ctx.check(''.join(re.split('%[0-9A-F]{2}', e)) == plain, 'escape|%s|%r' % (name, s), '%r escaped as %r' % (s, e))
    for n in range(0, 7 if ctx.thorough else 6):
        for t in itertools.product('%4aFg', repeat=n):
            s = ''.join(t)
            if ctx.mine():
                ctx.case(['unescape', s])
                ctx.transitions += 1
                ctx.check(uri.UnescapeData(s) == refunescape(s), 'unescape|%s' % s, '%r unescaped as %r, not %r' % (s, uri.UnescapeData(s), refunescape(s)))
    # every URI character, canonically
    for a in range(256):
        for case in ('%%%02X', '%%%02x'):
            for pre, post in itertools.product(('', 'a', '%41', '/'), ('', 'b', '%2F', '41')):
                if not ctx.mine():
                    continue
                esc = case % a
                s = pre + esc + post
                want = re.sub('%([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)) if re.match(r"[A-Za-z0-9\-_.!~*'()]", chr(int(m.group(1), 16))) else m.group(0), s)
                ctx.case(['canonical', s])
                ctx.check(uri.CanonicalizeData(s) == want, 'canonical|%s' % s, '%s becomes %s, not %s' % (s, uri.CanonicalizeData(s), want))
    # characters outside ASCII
    for cp in [0, 0x25, 0x7f, 0x80, 0xa0, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff]:
        if ctx.mine() and cp > 0x7f:
            u = ('\\U%08x' % cp).decode('unicode_escape')
            got = str(F.URI(u'a' + u + u'/b'))
            ctx.check(got == 'a' + ''.join('%%%02X' % ord(c) for c in u.encode('utf-8')) + '/b', 'unicode|%x' % cp, '%r as a URI is %r' % (u, got))


# ------------------------------------------------------------------ file URLs
NAMECHARS = [u'a', u' ', u'%', u'?', u'#', u';', u':', u'\\', u'=', u'&', u'+', u'\xe9', u'\u4e2d', u'%41', u'~', u'.b', u'[', u'\n', u'"', u'..x', u'@', u'\U0001f600', u'\x7f']


def files(ctx):
    names = list(NAMECHARS) + [a + b for a in NAMECHARS for b in NAMECHARS]
    for n in names:
        for path in (u'/' + n, u'/d/' + n, u'/' + n + u'/' + n, u'/%s/f.txt' % n, n, n + u'/x', u'/d/' + n + u'/'):
            if not ctx.mine():
                continue
            ctx.case(['file', path.encode('utf-8').encode('string_escape')])
            ctx.transitions += 1
            key = 'file|%r' % path
            try:
                want = path if path[0] == '/' else unicode(os.getcwd()) + u'/' + path
                for p in (path, path.encode('utf-8')) if ENC == 'utf-8' else (path,):
                    u = F.URLFromPathname(p)
                    ctx.check(refparse(str(u)) is not None and str(u).startswith('file:///') and u.fragment is None and u.query is None, key, 'URL %s' % u)
                    segs = [hexval(s).decode('utf-8') for s in u.absPath.split('/')[1:]]
                    ctx.check(segs == want.split('/')[1:], key, 'URL %s' % u)
                    v = F.URI(str(u)).GetVirtualFilePath()
                    ctx.check(unicode(v) == want, key, 'virtual path %r' % unicode(v))
                    w = F.URLFromVirtualFilePath(vfs.OSFilePath(p))
                    ctx.check(str(w) == str(u), key, 'URL %s from a virtual path, %s otherwise' % (w, u))
                    back = F.URI(str(u)).GetPathname()
                    if type(back) is str:
                        back = back.decode(ENC)
                    ctx.check(back == want, key, 'path %r' % back)
                    ctx.state(str(u))
            except mclib.StopExploring:
                raise
            except Exception, err:
                ctx.violation(key, repr(failure(err)))


import sys
ENC = (sys.getfilesystemencoding() or 'ascii').lower()


# ------------------------------------------------------------------ bases in documents
def bases(ctx):
    values = [None, 'x', 'x/', '../y', '/z/', 'http://other/p/q', '//net/r', '?k', 's/../t/', 'u:v/', '.']
    values = [v for v in values if v != 'u:v/']
    docs = [None, 'http://h/a/b/c', 'file:///a/b.xml', 'http://h']
    hrefs = ['f', '../g', '', '#h', '/i', '?j', 'http://k/l', '//m', './n#o', 'http://h/a/b/x/f', 'http://h/a/z', 'http://h/', 'file:///a/c']
    for d in docs:
        for vs in itertools.product(values, repeat=3):
            if not ctx.mine():
                continue
            ctx.case(['base', d, repr(vs)])
            key = 'base|%s|%r' % (d, vs)
            doc = xml.Document(root=xml.Element, baseURI=d)
            e = doc.root
            for i, v in enumerate(vs):
                if i:
                    e = e.ChildElement(xml.Element)
                e.SetBase(v)
            # the reference base
            if d is None:
                # relative bases are combined too; only check the absolute case
                top = [i for i, v in enumerate(vs) if v and refparse(v)[0] is not None]
                if not top:
                    if vs == (None, None, None):
                        ctx.check(e.ResolveBase() is None and str(e.ResolveURI('f')) == 'f', key, 'base %r' % e.ResolveBase())
                    continue
                b, rest = refparse(vs[top[0]]), vs[top[0] + 1:]
            else:
                b, rest = refparse(d), vs
            for v in rest:
                if v is not None:
                    b = refresolve(b, refparse(v))
            ctx.transitions += 1
            if '..' in (b[3] or ''):
                continue
            try:
                ctx.check(str(e.ResolveBase()) == asuri(b), key, 'base %s, not %s' % (e.ResolveBase(), asuri(b)))
                for h in hrefs:
                    got = e.ResolveURI(h)
                    ctx.check(parts(got) == refresolve(b, refparse(h)), key + '|' + h, '%s in %s is %s, not %s' % (h, asuri(b), got, asuri(refresolve(b, refparse(h)))))
                    full = refparse(h)
                    if full[0] is not None:
                        r = e.RelativeURI(h)
                        back = e.ResolveURI(r)
                        ctx.check(parts(back) == full, key + '|' + h, '%s relative to %s is %s, which stands for %s' % (h, asuri(b), r, back))
                        ctx.check(type(r) is uri.URI or isinstance(r, uri.URI), key, 'type')
                r = e.RelativeURI('loc/al')
                back = e.ResolveURI(r)
                ctx.check(str(back) == 'file://' + os.getcwd() + '/loc/al', key, 'loc/al relative to %s is %s, which stands for %s' % (asuri(b), r, back))
                ctx.state(asuri(b))
            except mclib.StopExploring:
                raise
            except Exception, err:
                ctx.violation(key, repr(failure(err)))


def explore(ctx):
    ctx.case_limit = 30
    parsing(ctx)
    servers(ctx)
    resolving(ctx)
    associative(ctx)
    relative(ctx)
    escaping(ctx)
    files(ctx)
    bases(ctx)


def replay(ctx, case):
    ctx.nshards, ctx.shard, ctx.index = 1, 0, -1
    explore(ctx)
