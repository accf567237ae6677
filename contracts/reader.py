"""Contracts of udapi.core.files and udapi.core.basereader (C15)."""
import z3
from pyvc.core import *
from pyvc.evalx import FA
from pyvc.stmts import Loop
from pyvc.verify import Contract
from .schema import *
from .tree import And, Or, Imp, Not, If

FI = 'udapi.core.files.Files.'
FILES = RefT('Files')
HANDLE = RefT('Handle', nullable=True)


def opener(kind):
    """open()/gzip.open()/...: a new handle of the given file and decompression, or an exception."""
    def h(I, st, args, kw, node):
        I.ctx.trusted.add('open/gzip.open/lzma.open/bz2.open/io.TextIOWrapper return a handle of exactly the named file or raise OSError')
        v = args[0]
        if isinstance(v, VAny):
            return I.bind(I.unbox(st, v), lambda s, x: h(I, s, [x] + list(args[1:]), kw, node))
        s = st.copy()
        r = I.alloc(s, 'Handle')
        name = v.e if isinstance(v, VStr) else I.ctx.lit('-')
        I.hset(s, '@file', z3.Store(I.hget(s, '@file'), r.e, name))
        I.hset(s, '@codec', z3.Store(I.hget(s, '@codec'), r.e, I.ctx.lit(kind)))
        return [(s, r), (st.copy().assume(I.ctx.fresh('ioerror', z3.BoolSort())), I.exc('OSError', node))]
    return h


def extend_schema(sc):
    sc.ghosts['@file'] = lambda c: z3.ArraySort(c.Ref, c.StrS)       # name of the opened file
    sc.ghosts['@codec'] = lambda c: z3.ArraySort(c.Ref, c.StrS)
    sc.fields['Handle'] = {}
    sc.fields['Files'] = {'filehandle': HANDLE, 'file_number': Int, 'encoding': Un('none', 'str'), 'filenames': ListT(Str)}
    for k, n in (('plain', 'open'), ('gz', 'gzip.open'), ('xz', 'lzma.open'), ('bz2', 'bz2.open'), ('stdin', 'io.TextIOWrapper')):
        sc.externals[n] = opener(k)


class Fi:
    def __init__(self, S):
        self.c = S.I.ctx
        self.fn, self.fh = S('Files.file_number'), S('Files.filehandle')
        self.n, self.e = S.n('Files.filenames'), S.e('Files.filenames')
        self.file, self.codec = S('@file'), S('@codec')


class NumberOfFiles(Contract):
    qual = FI + 'number_of_files'
    params = {'self': FILES}
    ret = Int

    def ensures(self, S0, S1, a, r):
        return [('count', r == Fi(S0).n[a.self])]


class Filename(Contract):
    qual = FI + 'filename'
    params = {'self': FILES}
    ret = S_

    def requires(self, S, a):
        return [('started', Fi(S).fn[a.self] >= 0)]

    def ensures(self, S0, S1, a, r):
        t = Fi(S0)
        k = t.fn[a.self]
        V = t.c.Val
        return [('current', r == If(And(1 <= k, k <= t.n[a.self]), V.vstr(t.e[a.self][k - 1]), V.vnone))]


class HasNextFile(Contract):
    qual = FI + 'has_next_file'
    params = {'self': FILES}
    ret = Bool

    def requires(self, S, a):
        return Filename.requires(self, S, a)

    def ensures(self, S0, S1, a, r):
        t = Fi(S0)
        return [('agrees-with-next', r == (t.fn[a.self] < t.n[a.self]))]


class NextFilename(Contract):
    qual = FI + 'next_filename'
    params = {'self': FILES}
    ret = S_
    modifies = ('Files.file_number',)

    def requires(self, S, a):
        return Filename.requires(self, S, a)

    def ensures(self, S0, S1, a, r):
        t, u = Fi(S0), Fi(S1)
        k = t.fn[a.self]
        V = t.c.Val
        return [('one-step', u.fn == z3.Store(t.fn, a.self, k + 1)),
                ('next-file-or-end', r == If(k < t.n[a.self], V.vstr(t.e[a.self][k]), V.vnone))]


class NextFilehandle(Contract):
    qual = FI + 'next_filehandle'
    params = {'self': FILES}
    ret = HANDLE
    may_raise = ('OSError',)
    modifies = ('Files.file_number', 'Files.filehandle', '@alloc', '@file', '@codec')
    exc_modifies = ('Files.file_number',)

    def requires(self, S, a):
        return Filename.requires(self, S, a)

    def exc_ensures(self, S0, S1, a, cls):
        t, u = Fi(S0), Fi(S1)
        return [('one-step', u.fn == z3.Store(t.fn, a.self, t.fn[a.self] + 1))]

    def ensures(self, S0, S1, a, r):
        t, u = Fi(S0), Fi(S1)
        c = t.c
        x = z3.Const('x', c.Ref)
        k, f = t.fn[a.self], t.e[a.self][t.fn[a.self]]
        given = f == c.lit('<filehandle_input>')
        more = k < t.n[a.self]
        N = c.uf('split_n', c.StrS, c.StrS, z3.IntSort())
        E = c.uf('split_e', c.StrS, c.StrS, z3.ArraySort(z3.IntSort(), c.StrS))
        ext = E(f, c.lit('.'))[N(f, c.lit('.')) - 1]
        codec = c.lit('plain')
        for k_ in ('gz', 'xz', 'bz2'):
            codec = If(ext == c.lit(k_), c.lit(k_), codec)
        codec = If(f == c.lit('-'), c.lit('stdin'), codec)
        return self.exc_ensures(S0, S1, a, None) + [
            ('current-handle', u.fh == z3.Store(t.fh, a.self, r)),
            ('end', Imp(Not(more), r == c.null)),
            ('given-handle', Imp(And(more, given), r == t.fh[a.self])),
            ('opened', Imp(And(more, Not(given)), And(r != c.null, u.file[r] == f, u.codec[r] == codec, Not(S0('@alloc')[r])))),
            ('handles-unchanged', FA([x], Imp(S0('@alloc')[x], And(u.file[x] == t.file[x], S1('@alloc')[x]))))]


ALL = [NumberOfFiles, Filename, HasNextFile, NextFilename, NextFilehandle]
