"""C12: what the ranks did to a block is merged exactly once, and every rank ends up with the block of the root."""
from sa import build, summary, terms as T
from sa.terms import const, atom, add, sub, scale, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, Monitor
from sa.ctx import short
from .lib import callees, reaching, success, trace_of, path_edge
from .common import NONNEG
from .c02 import field_off
from .c03 import isblock
from .c08 import COPY
from .c09 import agreeing, RANK
from .c10 import COLLECTIVE

SUM4 = {'ompi_mpi_unsigned', 'ompi_mpi_uint32_t', 'ompi_mpi_int', 'ompi_mpi_int32_t'}
OR = {'ompi_mpi_op_lor', 'ompi_mpi_op_bor', 'ompi_mpi_op_max'}
FRESH = {'_big_block_open', '_big_block_create_internal', '_big_block_create', '_big_block_unpack'}
WRITERS = {'big_block_flush', 'big_block_close', '_big_block_flush'}
SETMEM = ('memset', 'llvm.memset.p0.i64')


def gname(p):
    a = as_atom(p) if is_poly(p) else None
    return a[1] if a is not None and a[0] == 'glob' else None


class Merge(Monitor):
    """mon: fresh (nothing to merge), sent (the sums were reduced), out (where to), mark (where the marks were reduced to), marked, merged
    (the root has stored all sums), cleared (this rank's sums are zero since they were sent or received), copy (has the root's sums),
    fk/fn: what was stored into how many of the first entries of fchecksum"""

    def __init__(self, m, name, blk, contracts):
        self.m, self.name, self.blk, self.contracts = m, name, blk, contracts
        self.bad = {}
        self.rets = self.merges = 0
        self.ends = {}
        self.off = {f: field_off(m, 'BigBlock', f) for f in ('fchecksum', 'Nfile', 'dirty')}

    def initial(self):
        # a block that is opened or created here is no rank's yet
        cs = callees(self.m.funcs[self.name])
        return (('fresh', True),) if FRESH - {'_big_block_unpack'} & cs and '_big_block_grow_internal' not in cs else ()

    def setup(self, eng, st):
        if not self.initial():
            eng.addfact(st, self.field(eng, st, 'Nfile'))

    def get(self, st, k):
        return dict(st.mon).get(k)

    def put(self, st, **kw):
        d = dict(st.mon)
        d.update(kw)
        st.mon = tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=lambda e: e[0]))

    def key(self, eng, st):
        return tuple((k, v if isinstance(v, (bool, str)) or k == 'path' else None) for k, v in st.mon), self.root(eng, st)

    def join(self, eng, A, B):
        b = dict(B.mon)
        return tuple((k, v) for k, v in A.mon if k != 'fn' and (b.get(k) == v or k in ('out', 'mark') and eng.corr(v, b.get(k)) is not None))

    def ghosts(self, st):
        return {k: v for k, v in st.mon if k == 'fn'}

    def setghosts(self, st, values):
        self.put(st, **values)

    def on_edge(self, eng, st, src, dst):
        self.put(st, path=path_edge(eng, self.get(st, 'path') or (), src, dst) or None)

    def note(self, st, x, what):
        self.bad.setdefault(what, (st, x))

    def eq(self, eng, st, a, b):
        return a == b or is_poly(a) and is_poly(b) and eng.decide(st, c_eq(sub(a, b))) is True

    def root(self, eng, st):
        for f in st.facts | st.ne:
            for mm, k in f[1]:
                for a in mm:
                    if a[0] == 'pure' and a[1] == RANK:
                        return eng.decide(st, c_eq(atom(a)))
        return None

    def field(self, eng, st, f):
        return eng.loadloc(st, ('arg', self.blk, 'p'), const(self.off[f]), 8 if f == 'fchecksum' else 4, 'p' if f == 'fchecksum' else 'i32')

    def isblk(self, v):
        return v == atom(('arg', self.blk, 'p'))

    def settle(self, eng, st):
        """is what was stored so far complete?"""
        n, N = self.get(st, 'fn'), self.field(eng, st, 'Nfile')
        if eng.implies_ge(st, sub(const(0), N)):
            # no files
            if self.get(st, 'sent'):
                self.put(st, merged=True, cleared=True)
            if self.get(st, 'copy'):
                self.put(st, cleared=True, copy=None)
            return
        if n is None:
            return
        fk = self.get(st, 'fk')
        if fk[:1] == '-':
            fk = fk[1:]
            n = sub(N, n)
        if not (self.eq(eng, st, n, N) or eng.implies_ge(st, sub(n, N))):
            return
        if fk == 'zero':
            self.put(st, cleared=True, copy=None)
        elif fk == 'sum':
            self.put(st, merged=True, cleared=None)

    def safe(self, eng, st, x, what):
        """nothing of this rank is lost now"""
        if self.get(st, 'fresh'):
            return
        r = self.root(eng, st)
        if not self.get(st, 'sent'):
            self.note(st, x, what + ' before the checksums of the ranks were added up')
        elif r is not False and not self.get(st, 'merged'):
            self.note(st, x, what + ' before the root has stored the sums of all files')
        elif r is not False and not self.get(st, 'marked'):
            self.note(st, x, what + ' before the root knows whether a rank modified the block')

    def on_call(self, eng, st, x, name, args):
        F, N = self.field(eng, st, 'fchecksum'), self.field(eng, st, 'Nfile')
        self.settle(eng, st)
        if name in ('MPI_Reduce', 'MPI_Allreduce'):
            op, dt, cnt = gname(args[4]), gname(args[3]), args[2]
            src = args[1] if is_const(args[0]) else args[0]
            if self.eq(eng, st, src, F):
                self.merges += 1
                if self.get(st, 'sent'):
                    self.note(st, x, 'adds up the checksums twice')
                if op != 'ompi_mpi_op_sum' or dt not in SUM4:
                    self.note(st, x, 'does not add up the checksums as numbers of 32 bits')
                if not self.eq(eng, st, cnt, N):
                    self.note(st, x, 'does not add up the checksums of all files')
                if name == 'MPI_Reduce' and not self.eq(eng, st, args[5], const(0)):
                    self.note(st, x, 'adds up the checksums on another rank than the one that writes the header')
                self.put(st, sent=True, out=args[1], merged=True if self.eq(eng, st, args[1], F) else None, cleared=None, fk=None, fn=None)
            elif self.eq(eng, st, src, atom(('arg', self.blk, 'p')) if not self.off['dirty'] else add(atom(('arg', self.blk, 'p')), const(self.off['dirty']))):
                if op not in OR or not self.eq(eng, st, cnt, const(1)):
                    self.note(st, x, 'does not combine the marks of all ranks')
                self.put(st, mark=args[1])
        elif name in COPY and self.eq(eng, st, args[0], F):
            if self.get(st, 'out') is not None and self.eq(eng, st, args[1], self.get(st, 'out')) and self.eq(eng, st, args[2], scale(N, 4)):
                self.put(st, fk='sum', fn=N)
            else:
                self.put(st, fk='other', fn=None, merged=None, cleared=None)
        elif name in SETMEM and self.eq(eng, st, args[0], F):
            if self.eq(eng, st, args[1], const(0)) and self.eq(eng, st, args[2], scale(N, 4)):
                self.put(st, fk='zero', fn=N)
        elif name == 'big_block_set_dirty' and self.isblk(args[0]):
            self.mark(eng, st, args[1])
        elif name in WRITERS and any(self.isblk(a) for a in args):
            if self.root(eng, st) is not True:
                self.note(st, x, 'writes the header on a rank that is not the root')
            self.safe(eng, st, x, 'writes the header')
        elif name == '_big_block_close_internal' and self.isblk(args[0]) and not self.get(st, 'failed'):
            self.safe(eng, st, x, 'discards the block')
        elif name == '_big_block_pack' and self.isblk(args[0]):
            self.safe(eng, st, x, 'sends the block to the other ranks')
        elif name == '_big_block_unpack' and self.isblk(args[0]):
            self.safe(eng, st, x, 'replaces the block of this rank')
        return None

    def mark(self, eng, st, v):
        D = self.get(st, 'mark')
        if D is not None:
            b, o = base_off(D)
            d = eng.loadloc(st, b, o, 4, 'i32')
            if self.eq(eng, st, v, d) or eng.decide(st, c_eq(v)) is False and eng.decide(st, c_eq(d)) is False:
                self.put(st, marked=True)
        if is_const(v) and v[0] == 1:
            self.put(st, marked=True)

    def after_call(self, eng, st, x, name, args):
        if name == '_big_block_unpack' and self.isblk(args[0]):
            self.put(st, copy=True, cleared=None, fk=None, fn=None, closed=None)
        elif name == '_big_block_close_internal' and self.isblk(args[0]):
            self.put(st, closed=True)
        elif name in self.contracts and any(a is not None and self.isblk(a) for a in args):
            r = st.env.get(x.res)
            b = st.copy()
            if r is not None:
                eng.addfact(st, r)
                eng.addfact(st, sub(const(0), r))
                b.ne = b.ne | {r}
                self.put(b, failed=True)
            self.put(st, sent=True, merged=True, marked=True, cleared=True, copy=None, fk=None, fn=None, called=True)
            return [st, b]
        return [st]

    def on_store(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b == ('arg', self.blk, 'p') and is_const(o) and o[0] == self.off['dirty']:
            return self.mark(eng, st, v)
        F = self.field(eng, st, 'fchecksum')
        fb, fo = base_off(F)
        if b is None or b != fb:
            return
        i = sub(o, fo)
        if size != 4 or i[0] % 4 or any(k % 4 for m, k in i[1]):
            self.note(st, x, 'stores part of a checksum')
            return
        i = (i[0] // 4, tuple((m, k // 4) for m, k in i[1]))
        kind = 'other'
        if self.eq(eng, st, v, const(0)):
            kind = 'zero'
        elif self.get(st, 'out') is not None:
            ob, oo = base_off(self.get(st, 'out'))
            if self.eq(eng, st, v, eng.loadloc(st, ob, add(oo, scale(i, 4)), 4, 'i32')):
                kind = 'sum'
        n = self.get(st, 'fn')
        if n is not None and kind == self.get(st, 'fk') and self.eq(eng, st, i, n):
            self.put(st, fn=add(n, const(1)))
        elif n is not None and '-' + kind == self.get(st, 'fk') and self.eq(eng, st, add(i, const(1)), n):
            self.put(st, fn=i)
        elif self.eq(eng, st, add(i, const(1)), self.field(eng, st, 'Nfile')):
            self.put(st, fk='-' + kind, fn=i)
        elif self.eq(eng, st, i, const(0)):
            self.put(st, fk=kind, fn=const(1))
        else:
            self.put(st, fk='other', fn=None)
        if kind == 'other':
            self.note(st, x, 'stores something else than the sum of the checksums')

    def on_ret(self, eng, st, x, v):
        for i, (t, n) in enumerate(eng.fn.args):
            if t[0] == 'ptr' and self.eq(eng, st, atom(('arg', i, 'p')), atom(('glob', 'ompi_mpi_comm_null'))):
                return
        self.rets += 1
        self.settle(eng, st)
        r = self.root(eng, st)
        ok = success(eng, st, x.fn, v)
        if self.get(st, 'sent') and not self.get(st, 'called'):
            if r is not False and not self.get(st, 'merged'):
                self.note(st, x, 'returns before the root has stored the sums')
            if r is not True and not self.get(st, 'cleared'):
                self.note(st, x, 'leaves what was added up to be added once more')
        if ok:
            self.ends.setdefault(self.get(st, 'closed'), (st, x))
            if self.get(st, 'failed'):
                self.note(st, x, 'succeeds after the merging failed')
            if self.get(st, 'copy') and r is not True:
                self.note(st, x, 'leaves the sums of the root on every rank, to be added up once more')
            if r is not True and not self.get(st, 'copy') and not self.get(st, 'cleared') and not (self.get(st, 'sent') and self.get(st, 'called')):
                self.note(st, x, 'leaves a rank without the block of the root')


# ------------------------------------------------------------------ packing
class Image(Monitor):
    """copies into (or out of) a buffer"""

    def __init__(self):
        self.copies = {}
        self.stores = {}
        self.allocs = {}
        self.strings = {}
        self.calls = {}
        self.rets = set()
        self.rets_n = 0

    def initial(self):
        return ()

    def on_call(self, eng, st, x, name, args):
        if name in COPY:
            self.copies[(args[0], args[1], args[2])] = x
        return None

    def after_call(self, eng, st, x, name, args):
        r = st.env.get(x.res) if x.res else None
        a = as_atom(r) if is_poly(r) else None
        if a is not None:
            if name in ('malloc', 'calloc', 'realloc'):
                self.allocs[a] = args[0] if name == 'malloc' else T.mul(args[0], args[1])
            elif name in ('_strdup', 'strdup'):
                self.strings[a] = args[0]
            else:
                self.calls[a] = (name, args)
        return [st]

    def on_store(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b is not None and is_const(o) and is_poly(v):
            self.stores.setdefault((b, o[0]), set()).add(v)

    def on_ret(self, eng, st, x, v):
        self.rets_n += 1
        if v is not None:
            self.rets.add(v)


class Relocate(Monitor):
    """the pointers inside a list are adjusted for all of its entries; mon: field -> number of entries adjusted"""

    def __init__(self, base, start, esize, fields, minus, plus, used):
        self.base, self.start, self.esize, self.fields, self.minus, self.plus, self.used = base, start, esize, fields, minus, plus, used
        self.bad = {}
        self.rets = 0

    def initial(self):
        return ()

    def key(self, eng, st):
        return tuple(k for k, v in st.mon)

    def join(self, eng, A, B):
        return ()

    def ghosts(self, st):
        return dict(st.mon)

    def setghosts(self, st, values):
        st.mon = tuple(sorted(values.items()))

    def on_store(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b != self.base or size != 8 or not is_poly(v):
            return
        for f, nm in self.fields:
            i = add(sub(o, self.start), const(-f))
            if i[0] % self.esize or any(k % self.esize for m, k in i[1]):
                continue
            i = (i[0] // self.esize, tuple((m, k // self.esize) for m, k in i[1]))
            old = sub(v, self.plus) if self.plus is not None else add(v, self.minus)
            a = as_atom(old)
            n = dict(st.mon).get(nm, const(0))
            if a is None or a[0] == 'heap':
                self.bad.setdefault('does not adjust the %s of an attribute' % nm, x)
            elif n == i or eng.decide(st, c_eq(sub(n, i))) is True:
                d = dict(st.mon)
                d[nm] = add(i, const(1))
                st.mon = tuple(sorted(d.items()))
            else:
                self.bad.setdefault('does not adjust the %s of each attribute once' % nm, x)

    def on_ret(self, eng, st, x, v):
        self.rets += 1
        u = self.used(eng, st)
        for f, nm in self.fields:
            n = dict(st.mon).get(nm, const(0))
            if not (n == u or eng.implies_ge(st, sub(n, u))):
                self.bad.setdefault('does not adjust the %s of every attribute' % nm, x)


# capacity, what is used of it, array, size of an entry
CAPACITY = {'BigAttrSet': (('bufsize', 'bufused', 'attrbuf', 1), ('listsize', 'listused', 'attrlist', 32))}


def rewrite(p, f):
    """replace the atoms of a polynomial"""
    out = const(p[0])
    for mm, k in p[1]:
        t = const(k)
        for a in mm:
            t = T.mul(t, atom(f(a)))
        out = add(out, t)
    return out


def packing(ctx, P, m, pack, unpack, struct, nested):
    """the copies that unpack makes out of the buffer are those pack made into it"""
    fields = m.field_types(struct)
    ptrs = [(n, o) for n, o, sz, t in fields if t and t[0] == 'ptr']
    size = max(o + sz for n, o, sz, t in fields)
    size = (size + 7) // 8 * 8
    A, B = Image(), Image()
    fs = {}
    for n, mon in ((pack, A), (unpack, B)):
        ctx.engine(P, n, mon, nonneg_tags=NONNEG)
        ctx.functions.append(n)
        fs[n] = m.funcs[n]
    bad = []
    obj = atom(('arg', 0, 'p'))

    def where(n, x=None):
        return short(m.loc(x or m.funcs[n].blocks[m.funcs[n].order[0]].ins[0]))

    def say(n, what, x=None):
        bad.append((n, what, where(n, x)))
    # -- what goes into the buffer
    bufs = {base_off(r)[0] for r in A.rets}
    buf = next(iter(bufs)) if len(bufs) == 1 else None
    if buf is None or buf not in A.allocs:
        say(pack, 'does not return a new buffer')
        return A, B, bad

    def canon_a(a):
        if a[0] == 'ld' and a[1] == ('arg', 0, 'p') and is_const(a[2]):
            return ('F', a[2][0])
        if a[0] in ('strlen', 'pure') and any(is_poly(q) for q in a):
            q = next(q for q in a if is_poly(q))
            c = as_atom(q)
            return ('L', canon_a(c)) if c is not None else a
        if a[0] == 'mod' and len(a) > 2 and a[2][0] == 'al':
            return ('S',)
        return a
    pieces = {}
    for (d, s, n), x in A.copies.items():
        b, o = base_off(d)
        if b != buf:
            continue
        a = as_atom(s)
        what = 'self' if s == obj else None
        if a is not None and a[0] == 'ld' and a[1] == ('arg', 0, 'p') and is_const(a[2]):
            what = a[2][0]
        elif a in A.calls and nested:
            g = [q for q in A.calls[a][1] if is_poly(q) and as_atom(q) and as_atom(q)[0] == 'ld' and as_atom(q)[1] == ('arg', 0, 'p')]
            what = as_atom(g[0])[2][0] if g and A.calls[a][0] == nested[0] else None
        if what is None:
            say(pack, 'copies something that is not a part of the block', x)
            continue
        pieces[what] = (rewrite(o, canon_a), rewrite(n, canon_a))
    at = const(0)
    todo = dict(pieces)
    while todo:
        k = next((k for k, (o, n) in todo.items() if o == at), None)
        if k is None:
            say(pack, 'leaves a gap in the buffer or lets two parts overlap')
            break
        at = add(at, todo.pop(k)[1])
    total = rewrite(A.allocs[buf], canon_a)
    grown = not todo and total != at and all(k > 0 for m_, k in sub(total, at)[1]) and sub(total, at)[0] >= 0
    if not todo and total != at and not grown:
        say(pack, 'makes a buffer of another size than what is copied into it')
    told = {rewrite(v, canon_a) for (b, o), vs in A.stores.items() if b == ('arg', 1, 'p') for v in vs}
    if not told or at not in told and not nested is None:
        say(pack, 'reports another size than what was copied')
    if pieces.get('self') != (const(0), const(size)):
        say(pack, 'does not copy the structure itself')
    # -- what comes out
    if unpack in fs and len(m.funcs[unpack].args) > 1:
        new, img = ('arg', 0, 'p'), ('arg', 1, 'p')
    else:
        bufs = {base_off(r)[0] for r in B.rets}
        new, img = (next(iter(bufs)) if len(bufs) == 1 else None), ('arg', 0, 'p')
    strs = {s: None for s in B.strings.values()}
    own = {}
    for n, o in ptrs:
        vs = B.stores.get((new, o), set())
        own[o] = as_atom(next(iter(vs))) if len(vs) == 1 else None
        if own[o] in B.strings:
            strs[B.strings[own[o]]] = o

    def canon_b(a):
        if a[0] == 'ld' and a[1] == img and is_const(a[2]) and a[2][0] < size:
            return ('F', a[2][0])
        if a[0] == 'ld' and a[1] == new and is_const(a[2]) and a[2][0] < size:
            return ('F', a[2][0])
        if a[0] in ('strlen', 'pure') and any(is_poly(q) for q in a):
            q = next(q for q in a if is_poly(q))
            if strs.get(q) is not None:
                return ('L', ('F', strs[q]))
        return a

    def off(p):
        b, o = base_off(p)
        return rewrite(o, canon_b) if b == img else None
    whole = [n for (d, s, n), x in B.copies.items() if d == atom(new) and off(s) == const(0)]
    if whole != [const(size)]:
        say(unpack, 'does not take over the structure itself')
    for n, o in ptrs:
        h = own.get(o)
        if h is None:
            say(unpack, 'leaves %s pointing into another process' % n)
            continue
        want = pieces.get(o)
        got = None
        if h in B.strings:
            q = off(B.strings[h])
            got = (q, add(atom(('L', ('F', o))), const(1))) if q is not None else None
        elif h in B.calls and nested and B.calls[h][0] == nested[1]:
            q = [off(a) for a in B.calls[h][1] if off(a) is not None]
            got = (q[0], want[1]) if q and want else None
        else:
            for (d, s, k), x in B.copies.items():
                if d == atom(h) and off(s) is not None:
                    got = (off(s), rewrite(k, canon_b))
            if got and h in B.allocs:
                room = sub(rewrite(B.allocs[h], canon_b), got[1])
                # a capacity the structure keeps next to what is used of it
                cap = dict((a, c) for c, sz_, a, k_ in CAPACITY.get(struct, ())).get(n)
                if cap is not None:
                    c = next((o_ for f_, o_, s_, t_ in fields if f_ == cap), None)
                    k = next(k_ for c_, sz_, a, k_ in CAPACITY[struct] if a == n)
                    full = sub(rewrite(B.allocs[h], canon_b), scale(atom(('F', c)), k)) if c is not None else room
                    if any(q < 0 for m_, q in full[1]) or full[0] < 0:
                        say(unpack, 'makes less room for %s than the structure says there is' % n)
                if room[0] < 0 or any(k < 0 for m_, k in room[1]) and not any(k > 0 for m_, k in room[1]):
                    say(unpack, 'makes less room for %s than is copied' % n)
        if want is None:
            say(pack, 'does not send %s' % n)
        elif got is None:
            say(unpack, 'does not take over %s' % n)
        elif got[0] != want[0]:
            say(unpack, 'takes %s from another place than where it was put' % n)
        elif got[1] != want[1]:
            say(unpack, 'takes another amount of %s than was put' % n)
    ctx.obligation(not bad, 3 * len(ptrs) + 6)
    ctx.sample({'pack': pack, 'unpack': unpack, 'parts': {str(k): [T.show(o), T.show(n)] for k, (o, n) in pieces.items()}})
    for n, what, loc in bad:
        ctx.violation('%s/%s' % (n, what.replace(' ', '_')), '%s: %s' % (n, what), loc)
    return A, B, bad, pieces, own, new


def relocation(ctx, P, m, pack, unpack, A, B, pieces, own, new):
    """pointers of the list of attributes point into the buffer of the attributes: made relative when packing, absolute when unpacking"""
    fo = {n: o for n, o, sz, t in m.field_types('BigAttrSet')}
    fields = [(o, n) for n, o, sz, t in m.field_types('BigAttr') if t and t[0] == 'ptr']
    es = 32
    buf = next(iter({base_off(r)[0] for r in A.rets}))
    raw = [(base_off(d)[1]) for (d, s, n), x in A.copies.items() if base_off(d)[0] == buf and as_atom(s) and as_atom(s)[0] == 'ld' and as_atom(s)[2] == const(fo['attrlist'])]

    def used(base):
        return lambda eng, st: eng.loadloc(st, base, const(fo['listused']), 8, 'i')
    old = [as_atom(s) for (d, s, n), x in A.copies.items() if as_atom(s) and as_atom(s)[0] == 'ld' and as_atom(s)[2] == const(fo['attrbuf'])]
    mons = []
    if raw and old:
        mons.append((pack, Relocate(buf, raw[0], es, fields, atom(old[0]), None, used(('arg', 0, 'p')))))
    if own.get(fo['attrlist']) and own.get(fo['attrbuf']):
        mons.append((unpack, Relocate(own[fo['attrlist']], const(0), es, fields, None, atom(own[fo['attrbuf']]), used(new))))
    for n, mon in mons:
        ctx.engine(P, n, mon, nonneg_tags=NONNEG)
        ctx.obligation(not mon.bad and mon.rets > 0, mon.rets * len(fields))
        for what, x in sorted(mon.bad.items()):
            ctx.violation('%s/%s' % (n, what.replace(' ', '_')), '%s: %s' % (n, what), short(m.loc(x)))


def check(ctx):
    ctx.explanation = ('Typestate of what a rank has added to a block, over LLVM IR: it is added up once, over all files, to the rank that writes the header, before the block is written or replaced, and is zero '
                       'on the other ranks afterwards.  The description of a block is packed and unpacked symmetrically: every part is taken from where, and as much as, it was put.')
    raw = ctx.raw()
    coll = reaching(raw, COLLECTIVE)
    hk = build.header_functions()
    agree = agreeing(raw)
    own = {n for n in coll if n in hk and not n.startswith(('MPIU_', '_MPIU_', 'mpiu_'))}
    for n in ('_big_block_pack', '_big_block_unpack', 'big_block_mpi_flush'):
        if n not in raw.funcs:
            raise build.AnalysisError('%s not found' % n)
    aset = [n for n in raw.funcs if n in callees(raw.funcs['_big_block_pack']) and 'alloc' not in n and n != '_strdup'], \
           [n for n in raw.funcs if n in callees(raw.funcs['_big_block_unpack']) and 'alloc' not in n and n != '_strdup']
    keep = own | agree | {n for n in raw.funcs if n in hk and n not in coll} | set(aset[0] + aset[1]) | {'_strdup', '_big_block_pack', '_big_block_unpack'}
    P = ctx.program(mpi=True, keep=keep)
    m = P[0]
    # operations that merge and share a block they are given
    shares = {n for n in raw.funcs if {'_big_block_pack', '_big_block_unpack', 'MPI_Bcast'} <= callees(raw.funcs[n])}
    names = []
    for n in sorted(own & set(m.funcs)):
        f = m.funcs[n]
        cs = callees(f)
        if any(isblock(t) for t in m.arg_types(f)) and (cs & {'_big_block_unpack', '_big_block_close_internal'} or {'MPI_Reduce', 'MPI_Allreduce'} & cs and cs & WRITERS):
            names.append(n)
    if len(names) < 3:
        raise build.AnalysisError('operations that share a block between the ranks: %s' % names)
    contracts = {n for n in own if any(isblock(t) for t in m.arg_types(m.funcs[n])) and n == 'big_block_mpi_flush'}

    def one(ctx, n):
        if n == '_pack':
            r = packing(ctx, P, m, '_big_block_pack', '_big_block_unpack', 'BigBlock', (aset[0][0], aset[1][0]) if aset[0] and aset[1] else None)
            if aset[0] and aset[1]:
                r = packing(ctx, P, m, aset[0][0], aset[1][0], 'BigAttrSet', None)
                if not r[2]:
                    relocation(ctx, P, m, aset[0][0], aset[1][0], r[0], r[1], r[3], r[4], r[5])
            return
        f = m.funcs[n]
        blk = [i for i, t in enumerate(m.arg_types(f)) if isblock(t)][0]
        mon = Merge(m, n, blk, contracts - {n})
        ctx.engine(P, n, mon, setup=mon.setup, nonneg_tags=NONNEG)
        if len(mon.ends) > 1:
            mon.bad['discards the block on some ranks only'] = mon.ends[True]
        ctx.functions.append(n)
        ctx.obligation(not mon.bad and mon.rets > 0, mon.rets + 3 * mon.merges)
        ctx.sample({'function': n, 'returns': mon.rets, 'merges': mon.merges})
        for what, (st, x) in sorted(mon.bad.items()):
            ctx.violation('%s/%s' % (n, what.replace(' ', '_')), '%s: %s' % (n, what), short(m.loc(x)), trace_of(st))
    ctx.pmap(one, names + ['_pack'])
    ctx.assumptions = ['memory allocation and MPI calls succeed', 'all ranks of the communicator call the operation', 'sums of 32 bits wrap around',
                       'a block of a file has a name shorter than 8192 bytes']
