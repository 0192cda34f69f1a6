# -*- coding: utf-8 -*-
"""C18: content packages: histories of operations, archives, faults of the file system, unique names, paths.

Everything happens below one scratch directory; the calls that change the file system are replaced, before the code
under test is imported, by ones that count, that can fail, and that refuse (and record) anything outside it."""
import __builtin__
import errno
import os
import posixpath
import shutil
import struct
import tempfile
import urllib
import zlib
import mclib

SCRATCH = os.path.realpath(tempfile.mkdtemp('', 'c18-'))


class Guard(object):
    escapes = []
    count = 0
    fail = None
    on = False

    @classmethod
    def start(cls, fail=None):
        cls.escapes = []
        cls.count = 0
        cls.fail = fail
        cls.on = True

    @classmethod
    def stop(cls):
        cls.on = False
        cls.fail = None

    @classmethod
    def step(cls, what, path=None):
        if path is not None:
            p = path
            if isinstance(p, str):
                p = p.decode('utf-8', 'replace')
            full = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
            if not (full + '/').startswith(SCRATCH + '/'):
                cls.escapes.append('%s %s' % (what, p))
                raise OSError(errno.EACCES, 'outside of the scratch directory: %s %s' % (what, p.encode('utf-8')))
        if cls.on:
            cls.count += 1
            if cls.fail == cls.count:
                raise IOError(errno.ENOSPC, 'injected: %s' % what)


real = dict((n, getattr(os, n)) for n in ('mkdir', 'remove', 'unlink', 'rmdir', 'rename'))
real_open = __builtin__.open


def guarded(name):
    def call(path, *args):
        Guard.step(name, path)
        if name == 'rename':
            Guard.step(name, args[0])
        return real[name](path, *args)
    return call


class Out(object):
    """A file open for writing, whose writes can fail"""

    def __init__(self, f):
        self.f = f

    def write(self, data):
        Guard.step('write')
        return self.f.write(data)

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.f.close()


def guarded_open(path, mode='r', *args):
    if isinstance(path, basestring) and set(mode) & set('wa+'):
        Guard.step('open ' + mode, path)
        return Out(real_open(path, mode, *args))
    if isinstance(path, basestring):
        Guard.step('open')
    return real_open(path, mode, *args)


for _n in real:
    setattr(os, _n, guarded(_n))
__builtin__.open = guarded_open

from java.util.zip import ZipFile
from java.io import File as JFile
from java.nio.charset import Charset
from java.util import Collections
import jarray
from java.io import ByteArrayOutputStream

import pyslet.vfs as vfs
import pyslet.imscpv1p2 as cpm
import pyslet.rfc2396 as uri
from pyslet.imscpv1p2 import ContentPackage, PathInPath

MANIFEST = 'imsmanifest.xml'
CPERRORS = ('CPException', 'CPFilePathError', 'CPFileTypeError', 'CPManifestError', 'CPProtocolError', 'CPValidationError',
            'CPZIPBeenThereError', 'CPZIPDirectorySizeError', 'CPZIPDuplicateFileError', 'CPZIPFilenameError', 'CPPackageBeenThereError')


def attempt(fn):
    try:
        return fn(), None
    except mclib.StopExploring:
        raise
    except Exception, err:
        return None, err.__class__.__name__ if err.__class__.__name__ in CPERRORS else '%s: %s' % (err.__class__.__name__, str(err).replace(SCRATCH, '*')[:150])


def put(path, data=''):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    f = real_open(path, 'wb')
    f.write(data)
    f.close()


def get(path):
    f = real_open(path, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def u(path):
    return path.decode('utf-8') if isinstance(path, str) else path


def tree(top):
    """{relative path: contents, or None for a directory}"""
    found = {}

    def walk(d, rel):
        for name in os.listdir(d):
            p = d + u'/' + u(name)
            r = rel + u(name)
            if os.path.isdir(p) and not os.path.islink(p):
                found[r] = None
                walk(p, r + u'/')
            else:
                found[r] = get(p)
    walk(u(top), u'')
    return found


class Arena(object):
    """A fresh scratch world: pkg/ the package, out/ other files, tmp/ for temporary directories"""
    number = 0

    def __init__(self):
        Arena.number += 1
        self.top = '%s/%i' % (SCRATCH, Arena.number)
        real['mkdir'](self.top)
        for d in ('tmp', 'out'):
            real['mkdir'](self.top + '/' + d)
        self.pkg = self.top + '/pkg'
        tempfile.tempdir = self.top + '/tmp'

    def done(self):
        Guard.stop()
        tempfile.tempdir = SCRATCH
        shutil.rmtree(self.top, True)


def ignored(rel):
    return any(seg.startswith('.') and seg not in ('.', '..') for seg in rel.split('/'))


# ------------------------------------------------------------------ the meaning of references
def locate(base, href):
    """The normalized absolute path that href names relative to the absolute path base (of a document or a directory
    ending in /), or None if it is not a file"""
    if href.startswith('http:'):
        return None
    if href.startswith('file://'):
        path = href[7:]
    elif href == '':
        path = base
    elif href.startswith('/'):
        path = href
    else:
        path = base[:base.rindex('/') + 1] + href
    path = urllib.unquote(path.encode('ascii')).decode('utf-8')
    return posixpath.normpath(path).replace('//', '/')


def within(path, pkg):
    """path relative to pkg ('' for itself) or None"""
    if path == pkg:
        return u''
    if path.startswith(pkg + '/'):
        return u(path[len(pkg) + 1:])
    return None


def effective(f):
    """The href of a File as it would be without an xml:base of its own"""
    return (f.GetBase() or '') + str(f.href)


def table(cp):
    return dict((unicode(k), v) for k, v in cp.fileTable.items())


def expected_table(cp, pkg):
    """What the file table has to be, from the files present and the manifest, as {path: [id of File]}"""
    want = {}
    for rel, data in tree(pkg).items():
        if data is not None and not ignored(rel) and rel != MANIFEST:
            want[rel] = []
    for r in cp.manifest.root.Resources.Resource:
        base = pkg + '/' + MANIFEST
        if r.GetBase():
            base = locate(base, r.GetBase()) + '/'
        for f in r.File:
            if f.href is None:
                continue
            path = locate(base, effective(f))
            rel = None if path is None else within(path, pkg)
            if rel is not None:
                want.setdefault(rel, []).append(id(f))
    return want


def same_table(ctx, cp, pkg, where):
    got = dict((k, sorted(map(id, v))) for k, v in table(cp).items())
    want = dict((k, sorted(v)) for k, v in expected_table(cp, pkg).items())
    show = lambda t: sorted((k.encode('utf-8'), len(v)) for k, v in t.items())
    return ctx.check(got == want, where + '-table', '%s: the file table is %s, the files and the manifest give %s' % (where, show(got), show(want)))


# ------------------------------------------------------------------ histories
TEXT = u"""<?xml version="1.0" encoding="UTF-8"?>
<manifest xmlns="http://www.imsglobal.org/xsd/imscp_v1p1" identifier="m"><organizations/><resources>
<resource identifier="r1" type="webcontent"><file href="a.txt"/></resource>
<resource identifier="r2" type="webcontent" xml:base="b/"><file href="c.txt"/><file href="gone.txt"/><file xml:base="../d/" href="x.txt"/></resource>
<resource identifier="r3" type="webcontent"><file/></resource>
</resources></manifest>"""
FILES = {'a.txt': 'A', 'b/c.txt': 'C', 'b/.h': 'H', '.hid/h.txt': 'HH', 'e%20f.txt': 'pct', u'\xe9.txt': 'E'}
SOURCES = {'s.txt': 'S', 'a.txt': 'other A', MANIFEST: 'not a manifest', '.dot': 'D', u'\xe9.txt': 'EE', 'B': 'upper', 'd': 'no ext'}

FILE_HREFS = ['a.txt', 'new.txt', './a.txt', 'b/../a.txt', '../out/s.txt', '../a.txt', '../c.txt', 'imsmanifest.xml', '../imsmanifest.xml', 'IMSManifest.xml', '.hid/h.txt',
              'b/.h', '.h', 'http://www.example.com/a.txt', 'file://%s/pkg/a.txt', 'file://%s/out/s.txt', 'file://%s/pkg/imsmanifest.xml', '%%61.txt', '%%2e%%2e/out/s.txt', 'b/%%2E%%2E/a.txt',
              '%%C3%%A9.txt', 'e%%2520f.txt', '', './', 'b', 'd/', '/etc/passwd', 'file://%s/pkgs/a.txt']
DEL_HREFS = ['a.txt', 'b/c.txt', 'b/./c.txt', 'new.txt', 'gone.txt', 'imsmanifest.xml', 'b/../imsmanifest.xml', '%%69msmanifest.xml', '.hid/h.txt', 'b/.h', 'b', '', '../out/s.txt', 'file://%s/out/s.txt', '%%2e%%2e/out/s.txt',
             'file://%s/pkg/a.txt', 'http://www.example.com/a.txt', '%%C3%%A9.txt', 's.txt', 'b/a.txt', '%%61.txt']


def operations(thorough):
    ops = []
    for r in (0, 1):
        for href in FILE_HREFS:
            ops.append(('file', r, href))
        for src in ('s.txt', 'a.txt', MANIFEST, '.dot', u'\xe9.txt', 'B', 'd', 'missing.txt'):
            ops.append(('copy', r, src))
        ops.append(('inside', r))
        for i in (0, 1):
            ops.append(('entry', r, i))
            ops.append(('rdel', r, i))
        ops.append(('entry', r, 2))
    for href in DEL_HREFS:
        ops.append(('del', href))
    for path in ('new.txt', 'b/a.txt', '.hid/x', 'gone.txt'):
        ops.append(('add', path))
    for path in ('a.txt', 'b/c.txt'):
        ops.append(('rm', path))
    ops.append(('save',))
    return ops


class World(object):

    def __init__(self, ctx, trailing=False):
        self.ctx = ctx
        self.arena = Arena()
        self.pkg = self.arena.pkg
        for rel, data in FILES.items():
            put(u(self.pkg) + '/' + rel, data)
        real['mkdir'](self.pkg + '/d')
        put(self.pkg + '/' + MANIFEST, TEXT.encode('utf-8'))
        for rel, data in SOURCES.items():
            put(u(self.arena.top) + '/out/' + rel, data)
        Guard.start()
        self.cp = ContentPackage(self.pkg)
        self.note()

    def note(self):
        self.disk = tree(self.pkg)
        self.others = tree(self.arena.top + '/out'), os.listdir(self.arena.top), os.listdir(self.arena.top + '/tmp')

    def resource(self, r):
        return self.cp.manifest.root.Resources.Resource[r]

    def base(self, r):
        return self.pkg + '/' + MANIFEST if r != 1 else self.pkg + '/b/'

    def refs(self):
        out = []
        for r, res in enumerate(self.cp.manifest.root.Resources.Resource):
            out.append((tuple((effective(f), id(f)) for f in res.File), str(res.href)))
        return out

    def canonical(self):
        refs = [(tuple(h for h, i in files), entry) for files, entry in self.refs()]
        return repr((sorted(self.disk.items()), [(tuple(h.replace(self.arena.top, '*') for h in hs), e) for hs, e in refs]))

    def fits(self, href):
        return href % self.arena.top if href.count('%s') else href % ()

    def step(self, op, last=True):
        """Performs one operation and compares with what it has to do; False if something is wrong"""
        cp, ctx = self.cp, self.ctx
        before = self.refs()
        disk = dict(self.disk)
        kind = op[0]
        if kind == 'file':
            res = self.resource(op[1])
            href = self.fits(op[2])
            f, fail = attempt(lambda: cp.File(res, uri.URIFactory.URI(href)))
            path = locate(self.base(op[1]), href)
            rel = None if path is None else within(path, self.pkg)
            if path is None:
                want = 'ok'
            elif not rel or rel.lower() == MANIFEST or ignored(rel):
                want = 'CPFilePathError'
            elif disk.get(rel, '') is None or href.endswith('/'):
                want = 'either'
            else:
                want = 'ok'
            got = fail or 'ok'
            if not ctx.check(got == want or want == 'either' and got in ('ok', 'CPFilePathError'), 'file-%s' % want, 'adding a reference to %s gave %s, expected %s' % (op[2], got, want)):
                return False
            after = self.refs()
            if f is not None:
                new = after[op[1]][0][-1:]
                resolved = locate(self.base(op[1]), effective(f))
                ok = after[op[1]][0][:-1] == before[op[1]][0] and new[0][1] == id(f) and resolved == path and f.parent is res
                after[op[1]] = before[op[1]]
                if not ctx.check(ok and after == before, 'file-added', 'adding %s made the reference %s, the manifest is %s' % (op[2], f.href, after)):
                    return False
            elif not ctx.check(after == before, 'file-refused', 'a refused reference changed the manifest: %s' % op[2]):
                return False
        elif kind in ('copy', 'inside'):
            res = self.resource(op[1])
            src = u(self.arena.top) + '/out/' + op[2] if kind == 'copy' else u(self.pkg) + '/b/c.txt'
            data = get(src) if os.path.isfile(src) else None
            url = uri.URIFactory.URLFromVirtualFilePath(vfs.OSFilePath(src))
            entry, fail = attempt(res.GetEntryPoint)
            if not ctx.check(fail is None, 'entry', 'the entry point gives %s' % fail):
                return False
            where = ''
            if entry is not None:
                path = locate(self.base(op[1]), effective(entry))
                if path is not None:
                    where = posixpath.dirname(within(path, self.pkg) or '')
            f, fail = attempt(lambda: cp.FileCopy(res, url))
            name = posixpath.basename(src)
            after = self.refs()
            self.disk = tree(self.pkg)
            if ignored(name):
                if not ctx.check((fail == 'CPFilePathError' and after == before and self.disk == disk) or fail is None, 'copy-ignored', 'copying %s in gave %s' % (name.encode('utf-8'), fail)):
                    return False
            elif name == MANIFEST and fail == 'CPFilePathError':
                if not ctx.check(after == before and self.disk == disk, 'copy-refused', 'a refused copy changed something'):
                    return False
            elif not ctx.check(fail is None, 'copy', 'copying %s in gave %s' % (name.encode('utf-8'), fail)):
                return False
            if f is not None:
                path = locate(self.base(op[1]), effective(f))
                rel = within(path, self.pkg)
                ok = rel and rel not in disk and not any(locate(self.base(r), h) == path for r, (files, e) in enumerate(before) for h, i in files if h != 'None')
                ok = ok and posixpath.dirname(rel) == where and posixpath.splitext(rel)[1] == posixpath.splitext(name)[1] and not ignored(rel)
                if not ctx.check(ok, 'copy-place', 'the copy of %s went to %s, expected an unused name in %s/' % (name.encode('utf-8'), repr(rel), where.encode('utf-8'))):
                    return False
                want = dict(disk)
                if data is not None:
                    want[rel] = data
                    if where:
                        want[where] = None
                elif where and where not in disk:
                    want[where] = self.disk.get(where, 0)
                if not ctx.check(self.disk == want, 'copy-disk', 'copying %s in changed the files %s' % (name.encode('utf-8'), sorted(k.encode('utf-8') for k in set(want) | set(self.disk) if want.get(k, 0) != self.disk.get(k, 0)))):
                    return False
                if not ctx.check(after[op[1]][0][:-1] == before[op[1]][0] and after[op[1]][0][-1][1] == id(f), 'copy-manifest', 'the reference was not added to the resource'):
                    return False
            disk = self.disk
        elif kind == 'entry':
            res = self.resource(op[1])
            if op[2] >= len(res.File):
                return True
            f = res.File[op[2]]
            x, fail = attempt(lambda: res.SetEntryPoint(f))
            back, fail2 = attempt(res.GetEntryPoint)
            path = locate(self.base(op[1]), effective(f))
            ok = fail is None and fail2 is None and back is not None and locate(self.base(op[1]), effective(back)) == path and locate(self.base(op[1]), str(res.href)) == path
            if not ctx.check(ok, 'entry', 'after setting the entry point to %s it is %s (%s %s), the href %s' % (f.href, back and back.href, fail, fail2, res.href)):
                return False
        elif kind == 'rdel':
            res = self.resource(op[1])
            if op[2] >= len(res.File):
                return True
            f = res.File[op[2]]
            x, fail = attempt(lambda: res.DeleteFile(f))
            cp.RebuildFileTable()
            want = list(before)
            want[op[1]] = (before[op[1]][0][:op[2]] + before[op[1]][0][op[2] + 1:], before[op[1]][1])
            if not ctx.check(fail is None and self.refs() == want and f.parent is None, 'rdel', 'deleting file %i of a resource gave %s' % (op[2], fail)):
                return False
        elif kind == 'del':
            href = self.fits(op[1])
            path = locate(self.pkg + '/' + MANIFEST, href)
            rel = None if path is None else within(path, self.pkg)
            x, fail = attempt(lambda: cp.DeleteFile(href))
            want = []
            if path is None:
                want = ['CPProtocolError']
            else:
                if not rel or rel.lower() == MANIFEST or ignored(rel):
                    want.append('CPFilePathError')
                if rel is None and not os.path.isfile(path) or rel is not None and disk.get(rel) is None:
                    want.append('CPFileTypeError')
            got = fail or 'ok'
            if not ctx.check(got in (want or ['ok']), 'del-%s' % '-'.join(want), 'deleting %s gave %s, expected %s' % (op[1], got, want or 'ok')):
                return False
            self.disk = tree(self.pkg)
            refs = list(before)
            if not want:
                del disk[rel]
                refs = [(tuple((h, i) for h, i in files if h == 'None' or locate(self.base(r), h) != path), e) for r, (files, e) in enumerate(before)]
            if not ctx.check(self.disk == disk, 'del-disk', 'deleting %s changed the files %s' % (op[1], sorted(set(self.disk) ^ set(disk)))):
                return False
            if not ctx.check(self.refs() == refs, 'del-refs', 'after deleting %s the manifest refers to %s' % (op[1], self.refs())):
                return False
        elif kind == 'add':
            put(self.pkg + '/' + op[1], 'added')
            cp.RebuildFileTable()
            disk = tree(self.pkg)
        elif kind == 'rm':
            if os.path.exists(self.pkg + '/' + op[1]):
                real['remove'](self.pkg + '/' + op[1])
            cp.RebuildFileTable()
            disk = tree(self.pkg)
        elif kind == 'save':
            x, fail = attempt(cp.manifest.Update)
            if not ctx.check(fail is None, 'save', 'writing the manifest gave %s' % fail):
                return False
            cp, fail = attempt(lambda: ContentPackage(vfs.OSFilePath(self.pkg, MANIFEST)))
            if not ctx.check(fail is None, 'reopen', 'opening the package again gave %s' % fail):
                return False
            self.cp = cp
            hrefs = lambda rs: [([h for h, i in files], e) for files, e in rs]
            if not ctx.check(hrefs(self.refs()) == hrefs(before), 'reopen-refs', 'the manifest read back refers to %s, it was %s' % (hrefs(self.refs()), hrefs(before))):
                return False
            disk = tree(self.pkg)
            if not ctx.check(dict((k, v) for k, v in disk.items() if k != MANIFEST) == dict((k, v) for k, v in self.disk.items() if k != MANIFEST), 'save-files', 'saving changed other files'):
                return False
        self.disk = tree(self.pkg)
        if not ctx.check(self.disk == disk, kind + '-disk', '%s changed the files %s' % (op, sorted(k.encode('utf-8') for k in set(disk) | set(self.disk) if disk.get(k, 0) != self.disk.get(k, 0)))):
            return False
        if not last:
            return True
        if not ctx.check((tree(self.arena.top + '/out'), os.listdir(self.arena.top), os.listdir(self.arena.top + '/tmp')) == self.others and not Guard.escapes, kind + '-outside',
                         '%s changed something outside the package: %s' % (op, Guard.escapes)):
            return False
        return same_table(ctx, self.cp, self.pkg, kind)

    def leaf(self, short=False):
        """What must hold in every state: the table rebuilt is the same, the package exported is the package"""
        ctx, cp = self.ctx, self.cp
        x, fail = attempt(cp.RebuildFileTable)
        if not ctx.check(fail is None, 'rebuild', 'rebuilding the table gave %s' % fail) or not same_table(ctx, cp, self.pkg, 'rebuild'):
            return
        for key in cp.fileTable:
            full = os.path.join(u(self.pkg), unicode(key))
            if not ctx.check(cp.PackagePath(vfs.OSFilePath(full)) == key and cp.FilePath(unicode(key)) in cp.fileTable, 'key', 'the key %s is not canonical' % repr(unicode(key))):
                return
        x, fail = attempt(cp.manifest.Update)
        disk = tree(self.pkg)
        if short:
            return
        pif = self.arena.top + '/out/x.zip'
        export(ctx, cp, disk, pif, self.refs())
        real['unlink'](pif)


def export(ctx, cp, disk, pif, refs=None):
    x, fail = attempt(lambda: cp.ExportToPIF(pif))
    if not ctx.check(fail is None, 'export', 'exporting gave %s' % fail):
        return
    want = dict((k, v) for k, v in disk.items() if not ignored(k))
    z = ZipFile(JFile(pif), Charset.forName('UTF-8'))
    got = {}
    names = []
    try:
        for e in Collections.list(z.entries()):
            name = unicode(e.getName())
            names.append(name)
            if e.isDirectory():
                got[name.rstrip('/')] = None
            else:
                out = ByteArrayOutputStream()
                s = z.getInputStream(e)
                while True:
                    c = s.read()
                    if c < 0:
                        break
                    out.write(c)
                got[name] = out.toByteArray().tostring()
    finally:
        z.close()
    if not ctx.check(got == want and len(names) == len(set(names)), 'export-contents', 'the archive has %s, the package %s' % (sorted(got), sorted(want))):
        return
    back, fail = attempt(lambda: ContentPackage(pif))
    if not ctx.check(fail is None, 'import', 'opening the exported package gave %s' % fail):
        return
    d = str(back.dPath)
    ok = ctx.check(tree(d) == want, 'import-contents', 'the archive unpacked gives %s, the package has %s' % (sorted(tree(d)), sorted(want)))
    ok = ok and ctx.check(back.GetPackageName() == u(posixpath.basename(pif))[:-4] and isinstance(back.GetPackageName(), unicode), 'import-name', 'the name is %r' % back.GetPackageName())
    ok = ok and same_table(ctx, back, d, 'import')
    if ok and refs is not None:
        got = [tuple(effective(f) for f in r.File) for r in back.manifest.root.Resources.Resource]
        ctx.check(got == [tuple(h for h, i in files) for files, e in refs], 'import-refs', 'the package unpacked refers to %s' % got)
    x, fail = attempt(back.Close)
    ctx.check(fail is None and not os.path.exists(d), 'import-close', 'closing gave %s and left the temporary directory: %s' % (fail, os.path.exists(d)))


def run_history(ctx, ops, leaf=None):
    w = World(ctx)
    try:
        ok = len(ops) > 1 or same_table(ctx, w.cp, w.pkg, 'open')
        for i, op in enumerate(ops):
            if not ok:
                return None
            ok = w.step(op, i == len(ops) - 1)
            ctx.transitions += 1
        if not ok:
            return None
        state = w.canonical()
        if ctx.state(state) or leaf:
            w.leaf(len(ops) > 1 and not leaf and not ctx.thorough)
        return state
    finally:
        w.arena.done()


def histories(ctx):
    ops = operations(ctx.thorough)
    depth = 3 if ctx.thorough else 2
    small = [op for op in ops if op[0] in ('entry', 'rdel', 'add', 'rm', 'save', 'inside')] + \
        [('file', r, h) for r in (0, 1) for h in ('a.txt', '../a.txt', 'new.txt', '%%2e%%2e/a.txt', 'b/%%2E%%2E/a.txt', 'http://www.example.com/a.txt')] + \
        [('copy', r, s) for r in (0, 1) for s in ('s.txt', 'a.txt')] + [('del', h) for h in ('a.txt', 'b/c.txt', 's.txt', 'b/a.txt', 'new.txt')]
    if not ctx.thorough:
        small = [('entry', 0, 0), ('entry', 1, 0), ('entry', 1, 2), ('rdel', 0, 0), ('rdel', 1, 1), ('add', 'gone.txt'), ('add', 'new.txt'), ('rm', 'a.txt'), ('save',), ('inside', 1), ('file', 0, 'a.txt'),
                 ('file', 1, '../a.txt'), ('file', 0, 'b/%%2E%%2E/a.txt'), ('file', 1, 'http://www.example.com/a.txt'), ('copy', 0, 'a.txt'), ('copy', 1, 's.txt'), ('del', 'a.txt'), ('del', 'b/c.txt'),
                 ('del', 's.txt'), ('del', 'b/a.txt')]
    ctx.bounds['histories'] = 'all of one of %i operations and one of %i, %s' % (len(ops), len(ops) if ctx.thorough else len(small), 'three of %i' % len(small) if depth > 2 else '')
    seen = set()

    def go(prefix, pool, left):
        for op in pool:
            if not prefix and not ctx.mine():
                continue
            ctx.case(['history', [list(o) for o in prefix + [op]]])
            state = run_history(ctx, prefix + [op])
            if state is None:
                continue
            if left > 1:
                if (state, left) in seen:
                    continue
                seen.add((state, left))
                go(prefix + [op], pool if ctx.thorough else small, left - 1)
    if ctx.shard == 0:
        ctx.case(['history', []])
        run_history(ctx, [])
    go([], ops, 2)
    if depth > 2:
        for first in small:
            for second in small:
                if ctx.mine():
                    ctx.case(['history', [list(first), list(second)]])
                    state = run_history(ctx, [first, second])
                    if state is None or state in seen:
                        continue
                    seen.add(state)
                    for third in small:
                        ctx.case(['history', [list(first), list(second), list(third)]])
                        run_history(ctx, [first, second, third])


# ------------------------------------------------------------------ archives
def make_zip(entries):
    """A zip archive (stored) of (raw name, contents, flag)"""
    out, central = '', ''
    for name, data, flag in entries:
        crc = zlib.crc32(data) & 0xFFFFFFFF
        head = struct.pack('<HHHHHIIIHH', 20, 0x800 if flag else 0, 0, 0, 0x21, crc, len(data), len(data), len(name), 0)
        central += 'PK\x01\x02' + struct.pack('<H', 20) + head + struct.pack('<HHHII', 0, 0, 0, 0, len(out)) + name
        out += 'PK\x03\x04' + head + name + data
    return out + central + 'PK\x05\x06' + struct.pack('<HHHHIIH', 0, 0, len(entries), len(entries), len(central), len(out), 0)


NAMES = ['a.txt', 'A.TXT', 'd/', 'd', 'd/a.txt', 'd/e/', 'd/e/f.txt', 'a.txt/b', 'a.txt/', '../x', '..', 'd/../../x', 'd/../a.txt', './a.txt', 'd//a.txt', '/x', '/etc/x', '.', '.hid/x', 'd/.h',
         '\xc3\xa9.txt', '\xe9.txt', 'd/\xc3\xa9/\xe2\x82\xac.txt', 'imsmanifest.xml/', 'd\\a.txt', '../pkgs/x', 'd/..', 'a b%20c.txt', '']
GOOD = TEXT.encode('utf-8')


def expand(entries):
    """(tree, sure) for an archive: tree None if it has to be refused; sure False if it may be refused"""
    out, sure = {}, True
    for name, data, flag in entries:
        try:
            name = name.decode('utf-8')
        except UnicodeDecodeError:
            return 'any', False
        segs = name.split('/')
        here = []
        for i, seg in enumerate(segs):
            if seg in ('', '.'):
                if not (seg == '' and i == len(segs) - 1 and i > 0):
                    sure = False
            elif seg == '..':
                sure = False
                if not here:
                    return None, True
                here.pop()
            else:
                here.append(seg)
            if i < len(segs) - 1:
                p = '/'.join(here)
                if p and out.get(p, None) is not None:
                    return None, True
                if p:
                    for k in range(len(here)):
                        out.setdefault('/'.join(here[:k + 1]), None)
        p = '/'.join(here)
        isdir = segs[-1] in ('', '.', '..')
        if '\\' in name:
            sure = False
        if p == '':
            if data:
                return None, True
            continue
        if p in out:
            if out[p] is not None:
                return None, True
            if data:
                return None, True
            if not isdir:
                sure = False
        elif isdir:
            if data:
                return None, True
            out[p] = None
        else:
            out[p] = data
    return out, sure


def archive(ctx, entries, what=None):
    """One archive opened"""
    want, sure = expand(entries)
    if what is None:
        if isinstance(want, dict) and MANIFEST in want and want[MANIFEST] != GOOD:
            want = 'bad'
    arena = Arena()
    try:
        pif = arena.top + '/out/Pack.ZIP'
        put(pif, make_zip(entries))
        put(arena.top + '/out/x', 'X')
        put(arena.top + '/x', 'X')
        before = dict((k, v) for k, v in tree(arena.top).items() if not k.startswith('tmp/'))
        Guard.start()
        cp, fail = attempt(lambda: ContentPackage(pif))
        Guard.stop()
        after = dict((k, v) for k, v in tree(arena.top).items() if not k.startswith('tmp/'))
        shown = [(n.encode('string_escape'), len(d)) for n, d, f in entries]
        if not ctx.check(after == before and not Guard.escapes, 'zip-outside', 'opening %s changed %s outside the package' % (shown, Guard.escapes or sorted(set(after) ^ set(before)))):
            return
        temps = os.listdir(arena.top + '/tmp')
        ctx.outcome('zip %s %s' % ('refused' if fail else 'opened', fail))
        if fail is not None:
            if not ctx.check(fail.startswith('CPZIP') or want == 'bad', 'zip-error', 'opening %s raised %s' % (shown, fail)):
                return
            if not ctx.check(want is None or want in ('bad', 'any') or not sure, 'zip-refused', 'opening %s raised %s' % (shown, fail)):
                return
            ctx.check(temps == [], 'zip-temp', 'opening %s raised %s and left %s' % (shown, fail, temps))
            return
        if not ctx.check(want is not None and want != 'bad', 'zip-accepted', '%s was opened without an error' % shown):
            return
        d = str(cp.dPath)
        got = tree(d)
        if want != 'any':
            if MANIFEST not in want:
                if not ctx.check(got.pop(MANIFEST, None) is not None, 'zip-manifest', 'no manifest was made for %s' % shown):
                    return
            if not ctx.check(got == want, 'zip-tree', 'opening %s gave %s' % (shown, sorted(k.encode('utf-8') for k in got))):
                return
            if MANIFEST not in want and not ctx.check(isinstance(cp.manifest.root, cpm.Manifest), 'zip-manifest', 'no manifest for %s' % shown):
                return
            if not ctx.check(cp.GetPackageName() == u'Pack', 'zip-name', 'the package is called %r' % cp.GetPackageName()):
                return
            if not same_table(ctx, cp, d, 'zip'):
                return
        x, fail = attempt(cp.Close)
        ctx.check(fail is None and os.listdir(arena.top + '/tmp') == [], 'zip-close', 'closing gave %s and left %s' % (fail, os.listdir(arena.top + '/tmp')))
    finally:
        arena.done()


def archives(ctx):
    pool = [(n, d, 0) for n in NAMES for d in ('', 'x') if ctx.thorough or d or n in ('a.txt', 'd', 'd/', 'd/e/', 'a.txt/', '', '..', '.')]
    uni = [(n, 'x', 1) for n in ('\xc3\xa9.txt', 'd/\xc3\xa9/\xe2\x82\xac.txt', 'a.txt')]
    manifests = [(MANIFEST, GOOD, 0), (MANIFEST, GOOD, 1), (MANIFEST, '<x/>', 0), (MANIFEST, '<manifest', 0), (MANIFEST, '', 0)]
    # an archive without entries is not among them: zipfile under Jython fails with a Java exception on files that short
    todo = [[e] for e in pool + uni + manifests]
    todo += [[a, b] for a in pool for b in pool + manifests[:1]]
    todo += [[m, e] for m in manifests for e in uni] + [[a, b] for a in uni for b in uni + pool[:4]]
    if ctx.thorough:
        short = [e for e in pool if e[0] in ('a.txt', 'd/', 'd', 'd/a.txt', 'a.txt/b', 'a.txt/', './a.txt', 'd/../a.txt', 'd/e/f.txt', 'd//a.txt', '../x', 'd/e/')]
        todo += [[a, b, c] for a in short for b in short for c in short]
    ctx.bounds['archives'] = '%i archives of up to %i entries' % (len(todo), 3 if ctx.thorough else 2)
    for entries in todo:
        if ctx.mine():
            ctx.case(['zip', [[n.encode('string_escape'), d.encode('string_escape'), f] for n, d, f in entries]])
            archive(ctx, entries)
            ctx.transitions += len(entries)


# ------------------------------------------------------------------ round trips of trees
TREE_NAMES = ['a', 'a.txt', u'\xe9', 'b c', 'x:y', '%41', '.hid', 'B', u'\u82f1\u56fd.xml', 'imsmanifest.xml.bak']


def roundtrip(ctx, files):
    arena = Arena()
    try:
        os.mkdir(arena.pkg)
        for rel, data in files:
            full = u(arena.pkg) + '/' + rel
            if data is None:
                if not os.path.isdir(full):
                    os.makedirs(full)
            else:
                put(full, data.encode('utf-8'))
        Guard.start()
        cp, fail = attempt(lambda: ContentPackage(arena.pkg))
        if not ctx.check(fail is None, 'open', 'opening a directory gave %s' % fail) or not same_table(ctx, cp, arena.pkg, 'open'):
            return
        ctx.check(cp.GetPackageName() == u'pkg' and isinstance(cp.GetPackageName(), unicode), 'name', 'the package is called %r' % cp.GetPackageName())
        export(ctx, cp, tree(arena.pkg), arena.top + '/out/P.zip')
        disk = tree(arena.pkg)
        x, fail = attempt(cp.Close)
        ctx.check(fail is None and tree(arena.pkg) == disk, 'close', 'closing gave %s, or removed a directory that is not temporary' % fail)
    finally:
        arena.done()


def trees(ctx):
    todo = []
    for n in TREE_NAMES:
        for m in TREE_NAMES:
            todo.append([(n, 'x')])
            if n != m:
                todo.append([(n, 'x'), (m, '')])
                todo.append([(n, None), (m, 'y')])
                todo.append([(m, 'y'), (n + '/' + m, 'z')])
                todo.append([(n + '/' + n + '/' + m, 'z'), (n + '/' + m, 'z')])
    for n in TREE_NAMES:
        todo.append([(n, None)])
        todo.append([(n + '/' + n, None)])
        todo.append([(n + '/imsmanifest.xml', 'nested')])
    seen = []
    for t in todo:
        if t not in seen:
            seen.append(t)
    ctx.bounds['trees'] = '%i' % len(seen)
    for t in seen:
        if ctx.mine():
            ctx.case(['tree', t])
            roundtrip(ctx, t)


# ------------------------------------------------------------------ faults
def scenario(name, arena):
    """(prepare, act) : act is run with faults"""
    state = {}

    def fixture():
        for rel, data in FILES.items():
            put(u(arena.pkg) + '/' + rel, data)
        put(arena.pkg + '/' + MANIFEST, TEXT.encode('utf-8'))
        put(arena.top + '/out/s.txt', 'S')

    def opened():
        fixture()
        state['cp'] = ContentPackage(arena.pkg)

    def zipped():
        put(arena.top + '/out/P.zip', make_zip([(MANIFEST, GOOD, 0), ('d/', '', 0), ('d/e/a.txt', 'A', 0), ('a.txt', 'A', 0)]))
    res = lambda r: state['cp'].manifest.root.Resources.Resource[r]
    href = lambda h: uri.URIFactory.URI(h)

    def new(*args):
        state['new'] = True
        state['cp'] = ContentPackage(*args)
    return {
        'temp': (lambda: None, new),
        'dir': (lambda: None, lambda: new(arena.pkg)),
        'bare': (lambda: put(arena.pkg + '/a.txt', 'A'), lambda: new(arena.pkg)),
        'open': (fixture, lambda: new(arena.pkg)),
        'zip': (zipped, lambda: new(arena.top + '/out/P.zip')),
        'file': (opened, lambda: state['cp'].File(res(0), href('new.txt'))),
        'copy': (opened, lambda: state['cp'].FileCopy(res(0), href('file://%s/out/s.txt' % arena.top))),
        'copy-in-dir': (opened, lambda: (res(1).SetEntryPoint(res(1).File[0]), state['cp'].FileCopy(res(1), href('file://%s/out/s.txt' % arena.top)))),
        'delete': (opened, lambda: state['cp'].DeleteFile('a.txt')),
        'export': (opened, lambda: state['cp'].ExportToPIF(arena.top + '/out/o.zip')),
        'rebuild': (opened, lambda: state['cp'].RebuildFileTable()),
    }[name] + (state,)


SCENARIOS = ['temp', 'dir', 'bare', 'open', 'zip', 'file', 'copy', 'copy-in-dir', 'delete', 'export', 'rebuild']


def fault(ctx, name, k):
    """The scenario with its k-th call to the file system failing; returns the number of calls"""
    arena = Arena()
    try:
        prepare, act, state = scenario(name, arena)
        prepare()
        disk = tree(arena.pkg) if os.path.isdir(arena.pkg) else {}
        Guard.start(k)
        x, fail = attempt(act)
        calls = Guard.count
        Guard.stop()
        where = 'fault-' + name
        if k is None:
            ctx.check(fail is None, where, '%s gave %s' % (name, fail))
        temps = os.listdir(arena.top + '/tmp')
        ctx.outcome('%s %s' % (name, fail))
        ctx.check(not Guard.escapes, where + '-outside', 'outside of the package: %s' % Guard.escapes)
        import zipfile
        ctx.check(os.stat is vfs.stat_pass and __builtin__.open is vfs.open_pass, where + '-hooks', 'the hooks used for archives were left in place')
        if fail is not None:
            if not ctx.check('injected' in fail, where + '-error', 'call %s of %s failing gave %s' % (k, name, fail)):
                return calls
            if 'new' in state:
                ctx.check(temps == [], where + '-temp', 'call %s of opening (%s) failed and left the temporary directory %s' % (k, name, temps))
                now = tree(arena.pkg) if os.path.isdir(arena.pkg) else {}
                now.pop(MANIFEST, None)
                want = dict(disk)
                want.pop(MANIFEST, None)
                ctx.check(now == want, where + '-files', 'call %s of opening (%s) failed and changed the files %s' % (k, name, sorted(set(now) ^ set(want))))
                return calls
        cp = state['cp']
        d = str(cp.dPath)
        same_table(ctx, cp, d, where)
        if name == 'export':
            ctx.check(tree(arena.pkg) == disk, where + '-files', 'exporting changed the package')
            export(ctx, cp, disk, arena.top + '/out/again.zip')
        if name == 'delete' and fail is not None:
            now = tree(arena.pkg)
            ctx.check(now in (disk, dict((p, v) for p, v in disk.items() if p != 'a.txt')), where + '-files', 'deleting changed other files')
            x, again = attempt(lambda: cp.DeleteFile('a.txt'))
            ctx.check(again is None and 'a.txt' not in tree(arena.pkg), where + '-again', 'deleting again gave %s' % again)
            same_table(ctx, cp, d, where)
        x, fail = attempt(cp.Close)
        ctx.check(fail is None and os.listdir(arena.top + '/tmp') == [], where + '-close', 'closing gave %s and left %s' % (fail, os.listdir(arena.top + '/tmp')))
        x, fail = attempt(cp.Close)
        ctx.check(fail is None and (not os.path.isdir(arena.pkg) or cp.manifest is None), where + '-close-twice', 'closing twice gave %s' % fail)
        return calls
    finally:
        arena.done()


def faults(ctx):
    total = 0
    for name in SCENARIOS:
        if not ctx.mine():
            continue
        ctx.case(['fault', name, None])
        n = fault(ctx, name, None)
        for k in range(1, n + 1):
            ctx.case(['fault', name, k])
            fault(ctx, name, k)
            ctx.transitions += 1
            total += 1
    ctx.bounds['faults'] = 'every file system call of %i scenarios fails in turn' % len(SCENARIOS)


LINKS = [('d/loop', '..'), ('d/loop', '.'), ('l', 'd'), ('l.txt', 'a.txt'), ('l', 'missing'), ('d/l', '../a.txt'), ('.l', 'd'), ('d/.l', '..'), ('l', 'l')]


def links(ctx, chosen):
    """Symbolic links inside of the package: each file is met once, or the package is refused"""
    arena = Arena()
    try:
        put(arena.pkg + '/a.txt', 'A')
        put(arena.pkg + '/d/b.txt', 'B')
        for name, target in chosen:
            os.symlink(target, arena.pkg + '/' + name)
        Guard.start()
        cp, fail = attempt(lambda: ContentPackage(arena.pkg))
        ctx.outcome('links %s' % fail)
        if not ctx.check(fail in (None, 'CPPackageBeenThereError'), 'links-open', 'opening a package with the links %s gave %s' % (chosen, fail)):
            return
        if cp is not None:
            keys = sorted(map(unicode, cp.fileTable.keys()))
            real_files = [os.path.realpath(os.path.join(arena.pkg, k)) for k in keys]
            ctx.check(len(set(real_files)) == len(keys) and 'a.txt' in map(os.path.basename, real_files) and 'b.txt' in map(os.path.basename, real_files), 'links-table', 'with the links %s the table has %s' % (chosen, keys))
            x, fail = attempt(lambda: cp.ExportToPIF(arena.top + '/out/x.zip'))
            ctx.check(fail in (None, 'CPZIPBeenThereError'), 'links-export', 'exporting a package with the links %s gave %s' % (chosen, fail))
    finally:
        arena.done()


def all_links(ctx):
    for a in LINKS:
        for b in LINKS:
            if ctx.mine() and a[0] <= b[0] and (a == b or a[0] != b[0]):
                chosen = [a] if a == b else [a, b]
                ctx.case(['links', chosen])
                links(ctx, chosen)


# ------------------------------------------------------------------ unique names
class FixedRandom(object):
    """random, of which randint always gives the same"""

    def __init__(self, value):
        self.value = value

    def randint(self, a, b):
        return min(max(a, self.value), b)

    def __getattr__(self, name):
        import random
        return getattr(random, name)


SUGGESTED = ['a.txt', 'A.TXT', 'A.txt', './a.txt', 'b/../a.txt', 'b/a.txt', 'b', 'b/', 'B/A.txt', 'c/d/e.txt', 'm.txt', 'imsmanifest.xml', '../x', '../pkgs/x', '/nowhere/x', '', '.', '..', 'b/..', '.x', 'a_1.txt', 'a',
             'a.tar.gz', 'b.d/noext', u'\xe9.txt', u'\xe9.\xe9', 'a b.txt', '/pkg/a.txt', '/pkg/A.TXT', '/pkg/b/../a.txt', '/pkg', '/pkg/imsmanifest.xml', '/pkg/b/new.txt', '/pkg/b', u'/pkg/\xe9.txt']
PRESENT = ['a.txt', 'a_1.txt', 'a_2.txt', 'A.TXT', 'b/a.txt', 'b/a_1.txt', 'a', '.x', u'\xe9.txt', u'\xe9.\xe9', 'b.d/noext', 'a.tar.gz', 'm_1.txt']


def unique_name(ctx, arena, cp, disk, suggestion, value, kind):
    s = u(arena.pkg) + suggestion[4:] if suggestion.startswith('/pkg') else suggestion
    want = posixpath.normpath(posixpath.join(u(arena.pkg), s.lower() if not s.startswith('/') else s))
    rel = within(want, u(arena.pkg))
    arg = s if kind == 'unicode' else s.encode('utf-8') if kind == 'str' else vfs.OSFilePath(s)
    cpm.random = FixedRandom(value)
    got, fail = attempt(lambda: cp.GetUniqueFile(arg))
    where = 'unique'
    if not ctx.check(tree(arena.pkg) == disk and not Guard.escapes, where + '-pure', 'asking for a unique name changed the package'):
        return
    if not rel:
        ctx.check(fail == 'CPFilePathError', where + '-error', 'a unique name for %s gave %s' % (repr(suggestion), fail or got))
        return
    if not ctx.check(fail is None and isinstance(got, vfs.VirtualFilePath), where, 'a unique name for %s gave %s' % (repr(suggestion), fail or repr(got))):
        return
    path = unicode(got)
    used = set(disk) | set([u'm.txt'])
    ctx.outcome('%s' % (path == rel))
    if not ctx.check(path not in used, where + '-used', 'the unique name for %s is %s, which is in use' % (repr(suggestion), path.encode('utf-8'))):
        return
    if not ctx.check(path == posixpath.normpath(path) and not path.startswith('/') and posixpath.dirname(path) == posixpath.dirname(rel) and posixpath.splitext(path)[1] == posixpath.splitext(rel)[1],
                     where + '-form', 'the unique name for %s is %s' % (repr(suggestion), path.encode('utf-8'))):
        return
    ctx.check(path == rel or rel in used, where + '-free', 'the unique name for %s is %s, though it was free' % (repr(suggestion), path.encode('utf-8')))


def unique(ctx, present, cases):
    """The unique names for several (suggestion, random number, type) in one package"""
    arena = Arena()
    try:
        os.mkdir(arena.pkg)
        for rel in present:
            put(u(arena.pkg) + '/' + rel, 'x')
        put(arena.pkg + '/' + MANIFEST, u"""<manifest xmlns="http://www.imsglobal.org/xsd/imscp_v1p1" identifier="m"><organizations/><resources>
<resource identifier="r1" type="webcontent"><file href="m.txt"/></resource></resources></manifest>""".encode('utf-8'))
        Guard.start()
        cp = ContentPackage(arena.pkg)
        disk = tree(arena.pkg)
        for suggestion, value, kind in cases:
            ctx.case(['unique', present, suggestion, value, kind])
            unique_name(ctx, arena, cp, disk, suggestion, value, kind)
    finally:
        import random
        cpm.random = random
        arena.done()


def uniques(ctx):
    sets = [[]] + [[p] for p in PRESENT] + [['a.txt', 'a_1.txt'], ['a.txt', 'a_1.txt', 'a_2.txt'], ['a.txt', 'a_2.txt'], ['b/a.txt', 'b/a_1.txt'], ['m_1.txt'], ['a', 'a_1'], ['a.txt', 'a_FFFF.txt'], PRESENT]
    ctx.bounds['unique'] = '%i suggestions, %i packages, 3 random numbers, 3 types' % (len(SUGGESTED), len(sets))
    for present in sets:
        if ctx.mine():
            unique(ctx, present, [(s, value, kind) for s in SUGGESTED for value in (0, 1, 0xFFFF) for kind in ('unicode', 'str', 'path')])


# ------------------------------------------------------------------ paths
def paths(ctx):
    import itertools
    segs = ['a', 'b', 'aa', '.', '..', '.x', '']
    n = 3
    every = []
    for k in range(1, n + 1):
        for t in itertools.product(segs, repeat=k):
            every.append('/'.join(t))
            every.append('/' + '/'.join(t))
    every = sorted(set(p for p in every if p and not p.startswith('//')))
    parents = ['/', '/a', '/a/b', '/a/b/', '/a/../b', 'a', 'a/b', './a', '.', '..', '../a', '/.x/a', '/a/.']
    ctx.bounds['paths'] = '%i paths, %i parents' % (len(every), len(parents))
    P = vfs.OSFilePath
    for child in every:
        if not ctx.mine():
            continue
        ctx.case(['path', child])
        one_path(ctx, child, parents)
    ctx.transitions += len(every) // ctx.nshards


def rel_to(child, parent):
    c, p = posixpath.normpath(child).replace('//', '/'), posixpath.normpath(parent).replace('//', '/')
    if c == p:
        return ''
    if p == '/':
        return c[1:] if c.startswith('/') else None
    if c.startswith(p + '/'):
        return c[len(p) + 1:]
    return None


class Stub(ContentPackage):

    def __init__(self, path):
        self.dPath = vfs.OSFilePath(path)
        self.SetIgnoreFiles(cpm.IGNOREFILES_RE)


def one_path(ctx, child, parents):
    P = vfs.OSFilePath
    for parent in parents:
        want = rel_to(child, parent)
        got, fail = attempt(lambda: PathInPath(P(child), P(parent)))
        got = None if got is None else unicode(got)
        ctx.check(fail is None and got == want, 'path-in-path', 'the path of %s in %s is %r (%s), expected %r' % (child, parent, got, fail, want))
    for parent in ('/a', '/a/b'):
        cp = Stub(parent)
        got, fail = attempt(lambda: cp.PackagePath(P(child)))
        want = rel_to(child, parent)
        got = None if got is None else unicode(got)
        ctx.check(fail is None and got == want, 'package-path', 'the path of %s in the package %s is %r (%s), expected %r' % (child, parent, got, fail, want))
    norm = posixpath.normpath(child)
    want = any(s.startswith('.') and s not in ('.', '..') for s in norm.split('/'))
    got, fail = attempt(lambda: Stub('/a').IgnoreFilePath(P(child)))
    if norm != '.':
        ctx.check(got == want and fail is None, 'ignored', 'whether %s is ignored is %r (%s)' % (child, got, fail))


def cleanup():
    tempfile.tempdir = None
    for n in real:
        setattr(os, n, real[n])
    __builtin__.open = real_open
    shutil.rmtree(SCRATCH, True)


def explore(ctx):
    import sys
    parts = os.environ.get('C18_PARTS', 'h z t f l u p').split()
    try:
        for p, fn in (('p', paths), ('u', uniques), ('f', faults), ('l', all_links), ('t', trees), ('z', archives), ('h', histories)):
            if p in parts:
                fn(ctx)
    finally:
        cleanup()


def replay(ctx, case):
    try:
        if case[0] == 'history':
            run_history(ctx, [tuple(o) for o in case[1]], True)
        elif case[0] == 'zip':
            archive(ctx, [(n.encode('ascii').decode('string_escape'), d.encode('ascii').decode('string_escape'), f) for n, d, f in case[1]])
        elif case[0] == 'tree':
            roundtrip(ctx, [tuple(x) for x in case[1]])
        elif case[0] == 'fault':
            fault(ctx, case[1], case[2])
        elif case[0] == 'links':
            links(ctx, [tuple(x) for x in case[1]])
        elif case[0] == 'unique':
            unique(ctx, case[1], [tuple(case[2:])])
        elif case[0] == 'path':
            one_path(ctx, case[1], ['/', '/a', '/a/b', '/a/b/', '/a/../b', 'a', 'a/b', './a', '.', '..', '../a', '/.x/a', '/a/.'])
    finally:
        cleanup()
