"""C05: reading and writing a block transfer exactly the requested items, in order, inside buffer, file and block.
C06: the checksum of each data file accumulates exactly the bytes written to it."""
from sa import build, terms as T
from sa.terms import const, atom, add, sub, mul, neg, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, c_ge, c_not, Monitor
from sa.ctx import short
from .lib import callees, reaching, trace_of, success, FILE_PRIMS, path_edge
from .common import NONNEG
from .c02 import field_off
from .c04 import Opener


class Transfer(Monitor):
    """mon: dict as a frozen tuple of items:
      'io'    number class of transfers so far on this path: 0 or 1 (some)
      'fp'    (file handle, block, file number term) of the last data file opened
      'pos'   (file handle, offset term) of the last seek
      'buf'   ('loaded'|'filled', buffer term, number of items) not yet consumed
      'adv'   number of items moved by the last transfer and not yet added to the position
      'arr'   arrays initialised here: (array term, data term)
      'iter'  iterators initialised here: (iterator term, array term, used?)
      'sum'   (file number, buffer, bytes) added to a checksum and not yet written"""

    def __init__(self, m, name, openers, convert, sums):
        self.m = m
        self.name = name
        self.openers = openers
        self.convert = convert
        self.sums = sums
        self.bad = {}
        self.sites = {}
        self.off = {f: field_off(m, 'BigBlock', f) for f in ('fsize', 'foffset', 'fchecksum', 'size', 'dtype', 'nmemb')}
        self.poff = {f: field_off(m, 'BigBlockPtr', f) for f in ('fileid', 'roffset', 'aoffset')}
        self.size = field_off(m, 'BigArray', 'size')
        self.notsum = {}
        self.sums_used = set()

    def initial(self):
        return ()

    def get(self, st, k):
        return dict(st.mon).get(k)

    def put(self, st, **kw):
        d = dict(st.mon)
        d.update(kw)
        st.mon = tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=lambda e: e[0]))

    def key(self, eng, st):
        d = dict(st.mon)
        return (d.get('path'), d.get('io'), bool(d.get('fp')), (d.get('buf') or (None,))[0], bool(d.get('adv')), bool(d.get('sum')), bool(d.get('unsum')), bool(d.get('pos')),
                tuple((i[0], i[2]) for i in d.get('iter') or ()))

    def join(self, eng, A, B):
        a, b = dict(A.mon), dict(B.mon)
        out = []
        for k, v in sorted(a.items()):
            if k in b and k not in self.ghosts(A):
                r = eng.corr(v, b[k])
                out.append((k, r if r is not None else ('?',) if k in ('fp', 'pos', 'buf', 'adv', 'sum', 'unsum', 'left', 'got') else None))
        return tuple((k, v) for k, v in out if v is not None)

    def ghosts(self, st):
        return {k: v for k, v in st.mon if k in ('left', 'adv') and v != ('?',)}

    def setghosts(self, st, values):
        self.put(st, **values)

    def on_edge(self, eng, st, src, dst):
        self.put(st, path=path_edge(eng, self.get(st, 'path') or (), src, dst) or None)
        if src is not None and eng.rpo[dst] <= eng.rpo[src] and self.get(st, 'io') == 1:
            self.put(st, io=2)

    def retire(self, eng, st, token, stale):
        from sa.engine import rename
        if T.mentions(st.mon, token):
            st.mon = tuple((k, v) for k, v in ((k, rename(v, token, stale) if T.mentions(v, token) else v) for k, v in st.mon))

    def note(self, st, x, what):
        l = self.m.loc(x)
        self.bad.setdefault((l[0][2] if l else '?', what), (st, x))

    def site(self, x, what):
        self.sites[(x.uid, what)] = 1

    # -- terms of the block and the position
    def blk(self):
        return ('arg', 0, 'p')

    def field(self, eng, st, f, idx=None):
        b = self.blk()
        v = eng.loadloc(st, b, const(self.off[f]), 8 if f not in ('nmemb',) else 4, 'p' if f in ('fsize', 'foffset', 'fchecksum') else 'i')
        if idx is None:
            return v
        base, o = base_off(v)
        w = 4 if f == 'fchecksum' else 8
        return eng.loadloc(st, base, add(o, mul(idx, const(w))), w, 'i')

    def pos(self, eng, st, f):
        return eng.loadloc(st, ('arg', 1, 'p'), const(self.poff[f]), 4 if f == 'fileid' else 8, 'i32' if f == 'fileid' else 'i')

    def invariant(self, eng, st):
        """a position lies inside its file"""
        fid = self.pos(eng, st, 'fileid')
        eng.addfact(st, sub(self.field(eng, st, 'fsize', fid), self.pos(eng, st, 'roffset')))

    def on_load(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b == ('arg', 1, 'p') and o == const(self.poff['roffset']):
            self.invariant(eng, st)
        return None

    # -- calls
    def on_call(self, eng, st, x, name, args):
        if name in ('udiv',):
            return None
        if name in ('fread', 'fwrite'):
            self.transfer(eng, st, x, name, args)
        elif name in ('fseek', 'fseeko'):
            if args[2] != const(0):
                self.note(st, x, 'seeks relative to something other than the start of the file')
            self.put(st, pos=(args[0], args[1]))
        elif name in ('rewind',):
            self.put(st, pos=(args[0], const(0)))
        elif name == 'big_array_init':
            arr = tuple(a for a in self.get(st, 'arr') or () if a[0] != args[0])
            self.put(st, arr=arr + ((args[0], args[1]),))
        elif name == 'big_array_iter_init':
            it = tuple(a for a in self.get(st, 'iter') or () if a[0] != args[0])
            self.put(st, iter=tuple(sorted(it + ((args[0], args[1], 0),), key=repr)))
        elif name in self.convert:
            self.conv(eng, st, x, args)
        elif name in ('big_block_seek_rel', 'big_block_seek') and args[0] == atom(self.blk()):
            fid = self.pos(eng, st, 'fileid')
            cur = add(self.field(eng, st, 'foffset', fid), self.pos(eng, st, 'roffset'))
            self.advance(eng, st, x, args[2], name == 'big_block_seek_rel')
            self.put(st, target=add(cur, args[2]) if name == 'big_block_seek_rel' else args[2])
        elif name in self.sums or (name in eng.mod.funcs and args and self.issum(eng, args[0])):
            self.sums_used.add(name)
            self.checksum(eng, st, x, args)
        return None

    def after_call(self, eng, st, x, name, args):
        if name in ('big_block_seek_rel', 'big_block_seek') and args[0] == atom(self.blk()):
            out = []
            for s in [st]:
                t = self.get(s, 'target')
                self.put(s, target=None)
                if t is not None and x.res is not None:
                    a, b = s.copy(), s
                    if eng.assume(a, c_eq(a.env[x.res])) is not False:
                        fid = self.pos(eng, a, 'fileid')
                        d = sub(add(self.field(eng, a, 'foffset', fid), self.pos(eng, a, 'roffset')), t)
                        for e in (d, sub(self.pos(eng, a, 'aoffset'), t)):
                            eng.addfact(a, e)
                            eng.addfact(a, neg(e))
                        left = self.get(a, 'left')
                        if left and left != ('?',):
                            e = sub(self.field(eng, a, 'size'), add(t, left))
                            if eng.implies_ge(a, e):
                                eng.addfact(a, sub(e, d))
                        out.append(a)
                    if eng.assume(b, c_not(c_eq(b.env[x.res]))) is not False:
                        out.append(b)
                    return out
        if name in ('fread', 'fwrite'):
            self.put(st, got=sub(st.env[x.res], args[2]) if x.res is not None and x.res in st.env else ('?',))
        if name in self.openers:
            self.put(st, fp=(st.env.get(x.res), args[self.openers[name][1]]), pos=None)
        return [st]

    def issum(self, eng, p):
        if not is_poly(p):
            return False
        b, o = base_off(p)
        if b is None:
            return False
        t = eng.loctag(b, o)
        return bool(t) and t[:2] == ('BigBlock', 'fchecksum')

    def felsize(self, eng, st):
        return None

    def transfer(self, eng, st, x, name, args):
        buf, sz, n, fp = args
        self.site(x, 'transfer')
        f = self.get(st, 'fp')
        r = self.pos(eng, st, 'roffset')
        fid = self.pos(eng, st, 'fileid')
        self.invariant(eng, st)
        b, o = base_off(buf)
        cap = st.sz.get(b) if b is not None else None
        total = mul(sz, n)
        self.divfacts(eng, st, (total, n))
        if cap is None or not eng.implies_ge(st, sub(cap, add(o, total))):
            self.note(st, x, 'transfers more bytes than the buffer holds')
        if f is None or f == ('?',) or f[0] != fp:
            self.note(st, x, 'uses a file that it did not open')
        elif f[1] != fid and eng.decide(st, c_eq(sub(f[1], fid))) is not True:
            self.note(st, x, 'uses a file other than the one of the position')
        p = self.get(st, 'pos')
        if p is None or p == ('?',) or p[0] != fp or sub(p[1], mul(r, sz)) != const(0) and eng.decide(st, c_eq(sub(p[1], mul(r, sz)))) is not True:
            self.note(st, x, 'is not positioned at the item offset times the item size')
        if not eng.implies_ge(st, sub(self.field(eng, st, 'fsize', fid), add(r, n))):
            self.note(st, x, 'goes past the end of the data file')
        if not eng.implies_ge(st, add(n, const(-1))):
            self.note(st, x, 'transfers no item, so the loop makes no progress')
        if not self.isfel(eng, st, sz):
            self.note(st, x, 'item size is not the size of the data type times the members')
        if self.get(st, 'io') is None:
            self.first(eng, st, x)
        left = self.get(st, 'left') or self.requested(eng, st)
        if left is None or left == ('?',) or not eng.implies_ge(st, sub(left, n)):
            self.note(st, x, 'transfers more items than are left of the request')
        self.put(st, left=left or ('?',))
        if self.get(st, 'adv') is not None:
            self.note(st, x, 'transfers again without moving the position')
        if name == 'fwrite':
            bf = self.get(st, 'buf')
            if bf is None or bf[0] != 'filled' or bf[1] != buf or bf[2] != n:
                self.note(st, x, 'writes items other than those just converted')
            s = self.get(st, 'sum')
            if s is None:
                self.put(st, unsum=(fid, buf, n))
            elif s == ('?',) or s[0] != fid or s[1] != buf or s[2] != n:
                self.note6(st, x, 'adds other bytes to the checksum than it writes, or to that of another file')
            self.put(st, io=self.get(st, 'io') or 1, buf=None, adv=n, sum=None, pos=None)
        else:
            self.put(st, io=self.get(st, 'io') or 1, buf=('loaded', buf, n), adv=n, pos=None)

    def unsummed(self, st, x):
        if self.get(st, 'unsum') is not None:
            self.put(st, unsum=None)
            self.note6(st, x, 'goes on after writing bytes that were not added to the checksum')

    def note6(self, st, x, what):
        l = self.m.loc(x)
        self.notsum.setdefault((l[0][2] if l else '?', what), (st, x))

    def requested(self, eng, st):
        """array->size / (nmemb ? nmemb : 1)"""
        asz = eng.loadloc(st, ('arg', 2, 'p'), const(self.size), 8, 'i')
        nm = eng.loadloc(st, self.blk(), const(self.off['nmemb']), 4, 'i32')
        if eng.decide(st, c_eq(asz)) is True:
            return const(0)
        if eng.decide(st, c_eq(nm)) is True or eng.decide(st, c_eq(add(nm, const(-1)))) is True:
            return asz
        for f in sorted(st.facts):
            for a in T.atoms_of(f):
                if a[0] == 'op' and a[1] in ('udiv', 'sdiv') and a[2] == asz and a[3] == nm:
                    return atom(a)
        return None

    def isfel(self, eng, st, sz):
        """big_file_dtype_itemsize(bb->dtype) * (nmemb ? nmemb : 1)"""
        rest = self.items(eng, st, sz)
        if rest is None or len(rest[1]) != 1 or rest[0] != 0:
            return False
        mono, k = rest[1][0]
        a = mono[0]
        return k == 1 and len(mono) == 1 and self.isel(a)

    def divfacts(self, eng, st, vs):
        """q = a div b implies q * b <= a"""
        seen = set()
        for src in list(vs) + [f for f in st.facts]:
            for a in T.atoms_of(src):
                if a[0] == 'op' and a[1] in ('udiv', 'sdiv') and a not in seen:
                    seen.add(a)
                    eng.addfact(st, sub(a[2], mul(a[3], atom(a))))
                    if eng.nonneg(a[3], st) and eng.implies_ge(st, sub(atom(a), vs[1])):
                        eng.addfact(st, sub(a[2], mul(a[3], vs[1])))

    def first(self, eng, st, x):
        """before the first transfer the whole request was found to fit into the block"""
        size = self.field(eng, st, 'size')
        fid = self.pos(eng, st, 'fileid')
        start = add(self.field(eng, st, 'foffset', fid), self.pos(eng, st, 'roffset'))
        asz = eng.loadloc(st, ('arg', 2, 'p'), const(self.size), 8, 'i')
        ok = False
        ap = self.pos(eng, st, 'aoffset')
        for f in st.facts:
            for s in (start, ap):
                d = sub(sub(size, s), f)     # items requested, if f is size - start - n >= 0
                if is_const(d) or f[0] != 0:
                    continue
                if asz in (d,) or any(a[0] == 'op' and a[1] in ('udiv', 'sdiv') and a[2] == asz for a in T.atoms_of(d)) and len(d[1]) == 1 and d[0] == 0 and d[1][0][1] == 1:
                    ok = True
        if not ok:
            self.note(st, x, 'starts before the request was found to fit into the block')

    def conv(self, eng, st, x, args):
        self.unsummed(st, x)
        dst, src, n = args[:3]
        self.site(x, 'convert')
        its = {i[0]: i for i in self.get(st, 'iter') or ()}
        arr = dict(self.get(st, 'arr') or ())
        if dst not in its or src not in its:
            self.note(st, x, 'converts through an iterator that was not set up')
            return
        data = {k: arr.get(its[k][1]) for k in (dst, src)}
        bf = self.get(st, 'buf')
        user = atom(('arg', 2, 'p'))
        loaded = bf is not None and bf[0] == 'loaded'
        chunk, mem = (src, dst) if loaded else (dst, src)
        if its[mem][1] != user:
            self.note(st, x, 'converts to or from an array other than the caller\'s')
        elif self.get(st, 'io') is not None and its[mem][2] == 0 and not (loaded and self.get(st, 'conv') is None):
            self.note(st, x, 'starts again at the beginning of the caller\'s array')
        if its[chunk][2] != 0:
            self.note(st, x, 'does not start at the beginning of the buffer')
        if loaded:
            if data[chunk] != bf[1]:
                self.note(st, x, 'converts from a buffer other than the one read')
            if not self.times(eng, st, n, bf[2]):
                self.note(st, x, 'converts another number of items than was read')
            self.put(st, buf=None)
        else:
            b = data[chunk]
            self.put(st, buf=('filled', b, self.items(eng, st, n)))
        self.put(st, conv=1, iter=tuple(sorted(((k, a, 1) if k in (dst, src) else (k, a, u) for k, a, u in its.values()), key=repr)))

    def items(self, eng, st, n):
        """n = items * members: the items, or None"""
        nm = eng.loadloc(st, self.blk(), const(self.off['nmemb']), 4, 'i32')
        if eng.decide(st, c_eq(nm)) is True or eng.decide(st, c_eq(add(nm, const(-1)))) is True:
            return n
        a = as_atom(nm)
        return None if a is None else self.divide(n, a)

    def divide(self, n, a):
        if n[0] != 0 or not all(a in mono for mono, k in n[1]):
            return None
        p = const(0)
        for mono, k in n[1]:
            rest = list(mono)
            rest.remove(a)
            q = const(k)
            for r in rest:
                q = mul(q, atom(r))
            p = add(p, q)
        return p

    def isel(self, a):
        """the size of one member"""
        return a[0] == 'pure' and a[1] == 'big_file_dtype_itemsize' and a[2] and a[2][0] == add(atom(self.blk()), const(self.off['dtype']))

    def times(self, eng, st, n, items):
        return self.items(eng, st, n) == items

    def advance(self, eng, st, x, by, rel):
        a = self.get(st, 'adv')
        self.unsummed(st, x)
        self.site(x, 'advance')
        if a is None:
            if self.get(st, 'io') is not None:
                self.note(st, x, 'moves the position without a transfer')
            return
        if a == ('?',):
            self.note(st, x, 'moves the position by a number other than the items transferred')
        elif rel:
            if by != a:
                self.note(st, x, 'moves the position by a number other than the items transferred')
        else:
            fid = self.pos(eng, st, 'fileid')
            cur = add(self.field(eng, st, 'foffset', fid), self.pos(eng, st, 'roffset'))
            if sub(by, cur) != a and sub(by, self.pos(eng, st, 'aoffset')) != a:
                self.note(st, x, 'moves the position by a number other than the items transferred')
        got = self.get(st, 'got')
        if got is not None and (got == ('?',) or eng.decide(st, c_eq(got)) is not True):
            self.note(st, x, 'moves on after transferring fewer items than asked for')
        left = self.get(st, 'left')
        self.put(st, adv=None, got=None, left=sub(left, a) if left and left != ('?',) and a != ('?',) else ('?',))

    def checksum(self, eng, st, x, args):
        self.site(x, 'checksum')
        b, o = base_off(args[0])
        fp, fo = base_off(self.field(eng, st, 'fchecksum'))
        q = sub(o, fo) if b == fp else None
        if q is None:
            self.note6(st, x, 'updates something that is not the checksum of a file')
            return
        fid = self.pos(eng, st, 'fileid')
        if sub(q, mul(fid, const(4))) != const(0):
            self.note6(st, x, 'updates the checksum of another file')
        if self.get(st, 'sum') is not None:
            self.note6(st, x, 'adds to the checksum twice for one write')
        n = self.items(eng, st, args[2])
        el = [a for a in T.atoms_of(args[2]) if self.isel(a)]
        n = self.divide(n, el[0]) if n and el else None
        u = self.get(st, 'unsum')
        if u is not None:
            if u == ('?',) or u != (fid, args[1], n):
                self.note6(st, x, 'adds other bytes to the checksum than it wrote, or to that of another file')
            self.put(st, unsum=None)
            return
        self.put(st, sum=(fid, args[1], n) if n else ('?',))

    def on_store(self, eng, st, x, p, size, v):
        if self.issum(eng, p):
            self.note6(st, x, 'changes a checksum other than by adding written bytes')

    def on_ret(self, eng, st, x, v):
        if not success(eng, st, x.fn, v):
            return
        if self.get(st, 'adv') is not None:
            self.note(st, x, 'returns without moving the position past the items transferred')
        left = self.get(st, 'left')
        if left is None and self.get(st, 'io') is None:
            left = self.requested(eng, st)
        if left is None or left == ('?',) or not eng.implies_ge(st, neg(left)):
            self.note(st, x, 'returns successfully before the whole request is transferred')
        b = self.get(st, 'buf')
        if b is not None:
            self.note(st, x, 'returns with items read but not converted, or converted but not written')
        self.unsummed(st, x)
        if self.get(st, 'sum') is not None:
            self.note6(st, x, 'adds to the checksum without writing')


def prepare(ctx):
    raw = ctx.raw()
    hk = build.header_functions()
    keep = (hk & set(raw.funcs)) - {'big_block_eof'} | ({'_dtype_convert', 'sysvsum'} & set(raw.funcs))
    P = ctx.program(mpi=False, keep=keep)
    m = P[0]
    openers = {}
    from .c03 import OPENERS
    for n in sorted(n for n, f in raw.funcs.items() if callees(f) & set(OPENERS)):
        mon = Opener(ctx.program(mpi=True, keep=set(raw.funcs))[0], n)
        ctx.engine(ctx.program(mpi=True, keep=set(raw.funcs)), n, mon, nonneg_tags=NONNEG)
        printed = {k[1] for k in mon.names if k and k[0] == 'printed'}
        if len(mon.mode) == 1 and len(printed) == 1:
            openers[n] = (mon.mode.pop(), printed.pop())
    convert = {n for n in m.funcs if n == '_dtype_convert'}
    return P, openers, convert


def analyse(ctx, n):
    P, openers, convert = prepare(ctx)
    m = P[0]
    mon = Transfer(m, n, openers, convert, set())
    ctx.engine(P, n, mon, nonneg_tags=NONNEG)
    return mon, m


def check(ctx):
    ctx.explanation = ('On every abstract path of big_block_read and big_block_write (helpers that touch files inlined): each fread and fwrite uses the file opened for the current file number, positioned at the item offset times the item size; '
                       'the item size is the size of the data type times the members; the items fit into the buffer, into the rest of the data file and into what is left of the request; they are converted from or to the caller\'s array, '
                       'which continues where it stopped, and the position then moves by exactly as many items. The whole request is found to fit into the block before the first transfer, and success is returned only when nothing is left.')

    def one(ctx, n):
        mon, m = analyse(ctx, n)
        ctx.functions.append(n)
        kinds = [k for u, k in mon.sites]
        for k in ('transfer', 'convert', 'advance'):
            if k not in kinds:
                ctx.violation('%s/no_%s' % (n, k), '%s: no %s found' % (n, k), None)
        ctx.obligation(not mon.bad, 8 * len(mon.sites))
        for (fn, what), (st, x) in sorted(mon.bad.items()):
            ctx.violation('%s/%s/%s' % (n, fn, what.replace(' ', '_')), '%s: %s' % (n, what), short(m.loc(x)), trace_of(st))
        ctx.sample({'function': n, 'sites': {k: kinds.count(k) for k in set(kinds)}})
    ctx.pmap(one, ['big_block_read', 'big_block_write'])
    ctx.assumptions = ['a position lies inside the data file it names, which big_block_seek establishes', 'sizes do not overflow 64 bits, item sizes not 32', '_dtype_convert transfers the number of elements it is given']
