"""C08: the file table of a block: sizes, offsets and checksums after opening, creating and growing."""
from sa import build, terms as T
from sa.terms import const, atom, add, sub, mul, scale, neg, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, c_ge, Monitor
from sa.ctx import short
from .lib import success, trace_of, path_edge
from .common import NONNEG
from .c02 import field_off

FIELDS = ('fsize', 'foffset', 'fchecksum')
ESIZE = {'fsize': 8, 'foffset': 8, 'fchecksum': 4}
COPY = ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64')


def nonnull(eng, st):
    st.ne = st.ne | {atom(('arg', 0, 'p'))}


class Roles(Monitor):
    """which allocation becomes which table of the block"""

    def __init__(self, m):
        self.off = {field_off(m, 'BigBlock', f): f for f in FIELDS}
        self.role = {}

    def on_store(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b == ('arg', 0, 'p') and is_const(o) and o[0] in self.off and is_poly(v):
            for a in eng.leaves(as_atom(v)) if as_atom(v) and as_atom(v)[0] == 'phi' else [base_off(v)[0]]:
                if a is not None and a[0] in ('heap', 'al'):
                    self.role.setdefault(a, set()).add(self.off[o[0]])


class Table(Monitor):
    """mon: path; what of each table is filled in (a prefix), the last offset stored, the last record read"""

    def __init__(self, m, name, kind, role, start=1):
        self.start = start
        self.m = m
        self.name = name
        self.kind = kind
        self.role = role
        self.bad = {}
        self.rets = 0
        self.stores = 0
        self.zero = set()
        self.off = {f: field_off(m, 'BigBlock', f) for f in FIELDS + ('size', 'Nfile', 'dirty')}

    # -- state
    def get(self, st, k):
        return dict(st.mon).get(k)

    def put(self, st, **kw):
        d = dict(st.mon)
        d.update(kw)
        st.mon = tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=lambda e: e[0]))

    G = ('foffset', 'fsize', 'fchecksum', 'last', 'next', 'recs')

    def initial(self):
        return ()

    def key(self, eng, st):
        return (self.get(st, 'path') if self.kind != 'open' else None, tuple(k for k, v in st.mon), self.get(st, 'todo'))

    def join(self, eng, A, B):
        b = dict(B.mon)
        out = []
        for k, v in A.mon:
            if k in self.G:
                continue
            w = b.get(k)
            if k == 'sized' and w is not None:
                r = tuple(p if p == q else eng.corr(p, q) for p, q in zip(v, w))
                r = None if None in r else r
            else:
                r = v if w == v else eng.corr(v, w) if w is not None else None
            if r is not None:
                out.append((k, r))
        return tuple(out)

    def ghosts(self, st):
        return {k: v for k, v in st.mon if k in self.G}

    def setghosts(self, st, values):
        self.put(st, **values)

    def on_edge(self, eng, st, src, dst):
        if self.kind == 'open':
            return
        self.put(st, path=path_edge(eng, self.get(st, 'path') or (), src, dst) or None)

    def note(self, st, x, what):
        self.bad.setdefault(what, (st, x))

    def field(self, eng, st, f):
        return eng.loadloc(st, ('arg', 0, 'p'), const(self.off[f]), 4 if f in ('Nfile', 'dirty') else 8, 'p' if f in FIELDS else 'i32' if f in ('Nfile', 'dirty') else 'i')

    def setup(self, eng, st):
        self.old = {f: self.field(eng, st, f) for f in FIELDS + ('Nfile', 'size')}
        eng.addfact(st, self.old['Nfile'])
        nonnull(eng, st)
        for i, (t, n) in enumerate(eng.fn.args):
            if t == ('int', 32):
                eng.addfact(st, atom(('arg', i, 'i')))

    def role_of(self, b):
        r = self.role.get(b)
        return next(iter(r)) if r and len(r) == 1 else None

    def after_call(self, eng, st, x, name, args):
        if name in ('malloc', 'calloc', 'realloc') and x.res in st.env:
            b = as_atom(st.env[x.res]) if is_poly(st.env[x.res]) else None
            if b is not None and b[0] == 'heap' and self.role_of(b):
                r = self.role_of(b)
                kw = {r: const(0)}
                if name == 'calloc':
                    self.zero.add(r)
                    if r == 'foffset':
                        kw = {r: const(self.start), 'last': const(0), 'next': const(0)}
                self.put(st, **kw)
        if self.kind == 'open' and name in ('fscanf', '__isoc99_fscanf') and len(args) == 6:
            vals = []
            for p, s, t in zip(args[2:5], (4, 8, 4), ('i32', 'i', 'i32')):
                b, o = base_off(p)
                vals.append(eng.loadloc(st, b, o, s, t))
            if eng.decide(st, c_eq(sub(st.env[x.res], const(4)))) is not False:
                self.put(st, rec=tuple(vals), todo=('fchecksum', 'fsize'), recs=add(self.get(st, 'recs') or const(0), const(1)))
        return [st]

    def eq(self, eng, st, a, b):
        return a == b or is_poly(a) and is_poly(b) and eng.decide(st, c_eq(sub(a, b))) is True

    def on_load(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b is not None and self.role_of(b) == 'foffset' and size == 8:
            n, last = self.get(st, 'foffset'), self.get(st, 'last')
            if n is not None and last is not None and self.eq(eng, st, o, scale(add(n, const(-1)), 8)):
                eng.addfact(st, sub(v, last))
                eng.addfact(st, sub(last, v))
        return None

    # -- stores into the tables
    def on_store(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b is None:
            return
        f = self.role_of(b)
        if b == ('arg', 0, 'p') and is_const(o) and o[0] == self.off['size']:
            fo, last = self.get(st, 'foffset'), self.get(st, 'last')
            N = self.field(eng, st, 'Nfile')
            a = base_off(self.field(eng, st, 'foffset'))[0]
            end = eng.loadloc(st, a, scale(N, 8), 8, 'i') if a is not None and self.role_of(a) == 'foffset' else None
            ok = end is not None and self.eq(eng, st, v, end) or last is not None and self.eq(eng, st, v, last) and self.eq(eng, st, fo, add(N, const(1)))
            self.put(st, sized=(v, N) if ok else None)
            return
        if f == 'foffset':
            self.put(st, sized=None)
        if f is None:
            t = eng.loctag(b, o) if b is not None else None
            if t and t[0] == 'BigBlock' and len(t) == 3 and t[1] in FIELDS and not is_const(v):
                self.note(st, x, 'changes the %s of a block before the new table is in place' % t[1])
            return
        self.stores += 1
        es = ESIZE[f]
        if size != es or o[0] % es or any(k % es for m, k in o[1]):
            self.note(st, x, 'writes part of an entry of %s' % f)
            return
        i = (o[0] // es, tuple((m, k // es) for m, k in o[1]))
        self.entry(eng, st, x, f, i, v)

    def entry(self, eng, st, x, f, i, v):
        n = self.get(st, f)
        if n is None:
            self.note(st, x, 'loses track of %s' % f)
            return
        if f == 'foffset':
            if self.start and self.eq(eng, st, i, const(0)):
                if not self.eq(eng, st, v, const(0)):
                    self.note(st, x, 'stores a first offset that is not 0')
                if is_const(n) and n[0] == 0:
                    self.put(st, foffset=const(1), last=const(0), next=const(0))
                return
            if not self.eq(eng, st, i, n):
                self.note(st, x, 'does not fill in the offsets one after the other')
                return
            k = add(i, const(-1))
            fs = [e for e, r in self.role.items() if r == {'fsize'} and (e in st.mem or e in st.reg)]
            if not fs:
                self.note(st, x, 'stores offsets before there are sizes')
                return
            last, nxt = self.get(st, 'last'), self.get(st, 'next')
            want = [nxt]
            if not is_const(n) or n[0] > 0:
                s = eng.loadloc(st, fs[0], scale(k, 8), 8, 'i')
                want += [last and add(last, s), add(eng.loadloc(st, base_off(self.base_of(st, 'foffset'))[0], scale(k, 8), 8, 'i'), s)]
            if not any(w is not None and self.eq(eng, st, v, w) for w in want):
                self.note(st, x, 'stores an offset that is not the one before plus the size of the file before')
            if self.kind != 'open':
                ns = self.get(st, 'fsize')
                if ns is None or not eng.implies_ge(st, sub(ns, i)):
                    self.note(st, x, 'adds up sizes that are not filled in yet')
            self.put(st, next=add(v, eng.loadloc(st, fs[0], scale(i, 8), 8, 'i')))
            self.put(st, foffset=add(i, const(1)), last=v)
            return
        # an offset computed from this entry would be wrong
        nfo = self.get(st, 'foffset')
        if f == 'fsize' and nfo is not None and not eng.implies_ge(st, add(sub(i, nfo), const(1))):
            self.note(st, x, 'changes a size after its offset was computed')
        if self.kind == 'open':
            rec = self.get(st, 'rec')
            if rec is None:
                self.note(st, x, 'fills in %s with something that is not in the header' % f)
                return
            N = self.field(eng, st, 'Nfile')
            if not self.eq(eng, st, i, rec[0]):
                self.note(st, x, 'fills in the %s of another file than the header says' % f)
            elif not eng.implies_ge(st, i) or not eng.implies_ge(st, add(sub(N, i), const(-1))):
                self.note(st, x, 'fills in the %s of a file the block does not have' % f)
            if not self.eq(eng, st, v, rec[1 if f == 'fsize' else 2]):
                self.note(st, x, 'fills in another %s than the header says' % f)
            self.put(st, todo=tuple(t for t in self.get(st, 'todo') or () if t != f))
            return
        if f == 'fchecksum' and self.eq(eng, st, v, const(0)) and self.kind == 'create':
            if self.eq(eng, st, i, n):
                self.put(st, fchecksum=add(n, const(1)))
            return
        if not self.eq(eng, st, i, n):
            self.note(st, x, 'does not fill in %s one after the other' % f)
            return
        n = i
        for cond, want in self.want(eng, st, f, n):
            if cond is not None and eng.decide(st, cond) is False:
                continue
            if not any(self.eq(eng, st, v, w) for w in want):
                self.note(st, x, {'fsize': 'stores a size that is not the one asked for', 'fchecksum': 'stores a checksum that is not the old one'}[f])
        self.put(st, **{f: add(n, const(1))})

    def base_of(self, st, f):
        for b, r in self.role.items():
            if r == {f} and (b in st.mem or b in st.reg):
                return atom(b)
        return None

    def want(self, eng, st, f, n):
        """what entry n of table f has to be: list of (condition, values)"""
        if self.kind == 'create':
            return [(None, [eng.loadloc(self.st0, base_off(self.arg('fsize', eng))[0], scale(n, 8), 8, 'i')] if f == 'fsize' else [const(0)])]
        N = self.old['Nfile']
        es = ESIZE[f]
        t = 'i' if es == 8 else 'i32'
        first = eng.loadloc(self.st0, base_off(self.old[f])[0], scale(n, es), es, t)
        new = [eng.loadloc(self.st0, base_off(self.arg('fsize', eng))[0], scale(sub(n, N), 8), 8, 'i')] if f == 'fsize' else [const(0)]
        return [(c_ge(add(sub(N, n), const(-1))), [first]), (c_ge(sub(n, N)), new)]

    def arg(self, what, eng):
        ps = [i for i, (t, n) in enumerate(eng.fn.args) if t[0] == 'ptr']
        return atom(('arg', ps[-1], 'p'))

    def count(self, eng):
        ns = [i for i, (t, n) in enumerate(eng.fn.args) if t == ('int', 32)]
        return atom(('arg', ns[-1], 'i'))

    def on_call(self, eng, st, x, name, args):
        if name in COPY:
            b, o = base_off(args[0])
            f = self.role_of(b) if b is not None else None
            if f is None:
                return None
            es = ESIZE[f]
            n = self.get(st, f)
            self.stores += 1
            if self.kind == 'open' or f == 'foffset' or n is None or not self.eq(eng, st, o, scale(n, es)):
                self.note(st, x, 'copies something into %s' % f)
                return None
            ln = args[2]
            if ln[0] % es or any(k % es for m, k in ln[1]):
                self.note(st, x, 'copies part of an entry of %s' % f)
                return None
            cnt = (ln[0] // es, tuple((m, k // es) for m, k in ln[1]))
            N = self.old['Nfile']
            ok = False
            if self.kind == 'create' and f == 'fsize':
                ok = self.eq(eng, st, args[1], add(self.arg('fsize', eng), scale(n, 8)))
            elif self.kind == 'grow':
                if eng.implies_ge(st, sub(N, add(n, cnt))):
                    ok = self.eq(eng, st, args[1], add(self.old[f], scale(n, es)))
                elif f == 'fsize' and eng.implies_ge(st, sub(n, N)):
                    ok = self.eq(eng, st, args[1], add(self.arg('fsize', eng), scale(sub(n, N), 8)))
            if not ok:
                self.note(st, x, 'copies the wrong entries into %s' % f)
            self.put(st, **{f: add(n, cnt)})
        elif name == 'memset' or name.startswith('llvm.memset'):
            b, o = base_off(args[0])
            f = self.role_of(b) if b is not None else None
            if f == 'fchecksum' and self.eq(eng, st, args[1], const(0)):
                n = self.get(st, f)
                es = 4
                ln = args[2]
                if self.kind == 'create' or n is not None and self.eq(eng, st, o, scale(n, es)) and eng.implies_ge(st, sub(n, self.old['Nfile'])):
                    self.put(st, fchecksum=add(n, (ln[0] // es, tuple((m, k // es) for m, k in ln[1]))))
                else:
                    self.note(st, x, 'clears checksums')
            elif f is not None:
                self.note(st, x, 'clears %s' % f)
        return None

    def on_ret(self, eng, st, x, v):
        if not success(eng, st, x.fn, v):
            return
        self.rets += 1
        N = self.field(eng, st, 'Nfile')
        if self.kind == 'grow':
            want = add(self.old['Nfile'], self.count(eng))
            if not self.eq(eng, st, N, want):
                self.note(st, x, 'does not end with the old number of files plus the new ones')
        elif self.kind == 'create' and not self.eq(eng, st, N, self.count(eng)) and not self.eq(eng, st, N, const(0)):
            self.note(st, x, 'does not end with the number of files asked for')
        empty = self.eq(eng, st, N, const(0))
        fo = self.get(st, 'foffset')
        b = {f: self.field(eng, st, f) for f in FIELDS}
        for f in FIELDS:
            if empty and f != 'foffset' and self.eq(eng, st, b[f], const(0)):
                continue
            a = base_off(b[f])[0]
            if a is None or self.role_of(a) != f or base_off(b[f])[1] != const(0):
                self.note(st, x, 'leaves the block without the new %s' % f)
            else:
                need = scale(add(N, const(1)) if f == 'foffset' else N, ESIZE[f])
                sz = st.sz.get(a)
                if sz is None or not eng.implies_ge(st, sub(sz, need)):
                    self.note(st, x, 'allocates too little for %s' % f)
        if fo is None or not eng.implies_ge(st, sub(fo, add(N, const(1)))):
            self.note(st, x, 'does not fill in all offsets')
        size = self.field(eng, st, 'size')
        sized = self.get(st, 'sized')
        last = self.get(st, 'last')
        if not (sized is not None and self.eq(eng, st, size, sized[0]) and self.eq(eng, st, N, sized[1])) and not (last is not None and self.eq(eng, st, size, last) and self.eq(eng, st, fo, add(N, const(1)))):
            self.note(st, x, 'does not set the size to the last offset')
        if self.kind == 'open':
            if not empty and not self.eq(eng, st, self.get(st, 'recs') or const(0), N):
                self.note(st, x, 'does not read as many records as there are files')
            if self.get(st, 'todo'):
                self.note(st, x, 'ignores part of a record')
            return
        if not empty:
            n = self.get(st, 'fsize')
            if n is None or not eng.implies_ge(st, sub(n, N)):
                self.note(st, x, 'does not fill in all sizes')
            n = self.get(st, 'fchecksum')
            least = N if 'fchecksum' not in self.zero else self.old['Nfile'] if self.kind == 'grow' else const(0)
            if n is None or not eng.implies_ge(st, sub(n, least)):
                self.note(st, x, 'does not fill in all checksums')
        if self.kind == 'grow' and not self.eq(eng, st, self.field(eng, st, 'dirty'), const(1)):
            self.note(st, x, 'does not mark the block as changed')


def check(ctx, names=('create', 'grow', 'open')):
    P = ctx.program(mpi=False)
    m = P[0]
    for name, kind in (('_big_block_create_internal', 'create'), ('_big_block_grow_internal', 'grow'), ('_big_block_open', 'open')):
        if kind not in names:
            continue
        roles = Roles(m)
        ctx.engine(P, name, roles, setup=nonnull, nonneg_tags=NONNEG)
        for start in (1, 0):
            # offset 0 is there from the allocation on, or stored like the others
            mon = Table(m, name, kind, roles.role, start)

            def setup(eng, st, mon=mon):
                mon.setup(eng, st)
                mon.st0 = st.copy()
            ctx.engine(P, name, mon, setup=setup, nonneg_tags=NONNEG)
            if start:
                first = mon
            if not mon.bad:
                break
        else:
            mon = first
        ctx.functions.append(name)
        ctx.obligation(not mon.bad and mon.rets > 0 and mon.stores > 0, mon.rets * 8 + mon.stores)
        ctx.sample({'function': name, 'successful_returns': mon.rets, 'stores': mon.stores, 'tables': {str(k[1:]): sorted(v) for k, v in roles.role.items()}})
        if mon.rets == 0 or mon.stores == 0:
            ctx.violation(name + '/nothing', name + ' builds no table', None)
        for what, (st, x) in sorted(mon.bad.items()):
            ctx.violation(name + '/' + what.replace(' ', '_'), name + ': ' + what, short(m.loc(x)), trace_of(st))
