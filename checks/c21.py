"""C21: converting between data types leaves the source alone and keeps what the items mean."""
import itertools
from sa import build
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, Monitor
from sa.ctx import short
from .lib import success, trace_of
from .common import NONNEG
from .c02 import field_off

FN = '_dtype_convert'
NUMERIC = ('i4', 'u4', 'i8', 'u8', 'f4', 'f8')
IRT = {'i4': ('int', 32), 'u4': ('int', 32), 'i8': ('int', 64), 'u8': ('int', 64), 'f4': ('float',), 'f8': ('double',)}
CMPS = {'strcmp', 'strncmp', 'memcmp', 'bcmp'}
COPY = {'memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'}
SETS = {'memset', 'llvm.memset.p0.i64'}


def irname(t):
    return {('int', 8): 'i8', ('int', 16): 'i16', ('int', 32): 'i32', ('int', 64): 'i64'}.get(t, t[0] if t[0] != 'fp' else t[1] if len(t) > 1 else 'fp')


def part(dt):
    """the type of the numbers an item consists of, and how many"""
    if dt[0] == 'c':
        return 'f%d' % (int(dt[1:]) // 2), 2
    return dt, 1


def conversions(d, s):
    """the instructions that turn a number of type s into one of type d"""
    if d == s:
        return ()
    kd, ks, wd, ws = d[0], s[0], int(d[1:]), int(s[1:])
    if kd == 'f' and ks == 'f':
        return ('fpext' if wd > ws else 'fptrunc',)
    if kd == 'f':
        return ('sitofp' if ks == 'i' else 'uitofp',)
    if ks == 'f':
        return ('fptosi' if kd == 'i' else 'fptoui',)
    if wd == ws:
        return ()
    if wd > ws:
        return ('sext' if ks == 'i' else 'zext',)
    return ('trunc',)


class Conv(Monitor):
    """mon: what was swapped (of the destination, of something else), whether anything was stored in the destination"""

    def __init__(self, m, d, s, de, se):
        self.m, self.d, self.s, self.de, self.se = m, d, s, de, se
        self.ao, self.po = field_off(m, 'BigArrayIter', 'array'), field_off(m, 'BigArrayIter', 'dataptr')
        self.dt, self.da = field_off(m, 'BigArray', 'dtype'), field_off(m, 'BigArray', 'data')
        self.bad, self.rets, self.good, self.fails = {}, 0, 0, 0
        self.local = {}
        self.byteload, self.numload = {}, {}
        self.kinds, self.swaps, self.stores, self.odd = set(), 0, 0, False

    def initial(self):
        return (0, 0, False)

    def note(self, st, x, what):
        self.bad.setdefault(what, (st, x))

    # -- whose memory
    def owner(self, b):
        if b is None:
            return None
        if b[0] == 'ld' and b[1] in (('arg', 0, 'p'), ('arg', 1, 'p')) and b[2] == const(self.po):
            return 'dst' if b[1][1] == 0 else 'src'
        if b[0] == 'ld' and b[1][0] == 'ld' and b[2] == const(self.da) and b[1][2] == const(self.ao):
            return {0: 'dst', 1: 'src'}.get(b[1][1][1] if b[1][1][0] == 'arg' else None)
        return None

    def owners(self, eng, p):
        b = base_off(p)[0] if is_poly(p) else None
        if b is None:
            return {None}
        bs = eng.leaves(b) if b[0] == 'phi' else [b]
        # a pointer kept in a local variable that the analysis lost at a join: what the others are
        bs = [x for x in bs if not (x[0] == 'ld' and x[1][0] == 'al')] or bs
        return {self.owner(x) or ('own' if x[0] in ('heap', 'al') or x[0] == 'ret' else None) for x in bs} or {None}

    # -- data types
    def text(self, p):
        """(type of the array, offset) when p points into the data type of an array"""
        b, o = base_off(p) if is_poly(p) else (None, None)
        if b is None or not is_const(o):
            return None
        if b[0] == 'ld' and b[1] in (('arg', 0, 'p'), ('arg', 1, 'p')) and b[2] == const(self.ao):
            k = o[0] - self.dt
            if 0 <= k < 8:
                return ((self.de + self.d) if b[1][1] == 0 else (self.se + self.s)), k
        for (lb, lo), t in self.local.items():
            if lb == b and 0 <= o[0] - lo < 8:
                return t, o[0] - lo
        return None

    def string(self, eng, p):
        t = self.text(p)
        if t is not None:
            return t[0][t[1]:]
        c = eng.models.conststr(eng, p)
        return c.decode('latin1') if c is not None else None

    def on_load(self, eng, st, x, p, size, v):
        t = self.text(p)
        if t is not None and size == 1:
            s = t[0] + '\0' * 9
            return const(ord(s[t[1]]))
        b, o = base_off(p)
        if b is not None and b[0] == 'al' and size == 1 and is_const(o) and not is_const(v):
            for w in (4, 8):
                a = eng.loadloc(st, b, const(o[0] - o[0] % w), w, 'i32' if w == 4 else 'i')
                if is_poly(a) and is_const(a):
                    return const((a[0] >> 8 * (o[0] % w)) & 255)
        ow = self.owners(eng, p)
        if x.ty == ('int', 8):
            self.byteload[as_atom(v) if is_poly(v) else None] = (b, o, ow)
        if x.res is not None:
            self.numload[(x.fn.name, x.res)] = (x, o, ow)
        return None

    def source(self, x):
        """the conversions and the load that a stored register comes from"""
        ops = []
        v = x.a[0]
        defs = self.defs(x.fn)
        while v[0] == 'reg':
            d = defs.get(v[1])
            if d is None:
                return None
            if d.op == 'cast':
                if d.extra['op'] != 'bitcast':
                    ops.append(d.extra['op'])
                v = d.a[0]
            elif d.op == 'load':
                return tuple(reversed(ops)), d
            else:
                return None
        return None

    _defs = {}

    def defs(self, fn):
        r = Conv._defs.get(id(fn))
        if r is None:
            r = Conv._defs[id(fn)] = {i.res: i for i in fn.insns() if i.res is not None}
        return r

    def on_store(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b in (('arg', 0, 'p'), ('arg', 1, 'p')) or b is not None and b[0] == 'al':
            return
        ow = self.owners(eng, p)
        if 'src' in ow:
            self.note(st, x, 'stores into the memory that is converted')
            return
        if b is not None and b[0] == 'ld' and b[2] == const(self.ao):
            self.note(st, x, 'changes the description of an array')
        if ow - {'dst', 'own'}:
            return
        self.stores += 1
        if x.ty == ('int', 8):
            l = self.byteload.get(as_atom(v) if is_poly(v) else None)
            if l is None or l[0] != b:
                self.odd = self.odd or l is None
                if l is not None and (l[2] == ow or l[0] is not None and l[0][0] == 'al'):
                    # through other pointers or a local array
                    self.swaps += 1
                    self.mark(st, ow)
                if 'dst' in ow:
                    st.mon = st.mon[:2] + (True,)
                return
            tot = add(o, l[1])
            dt = self.d if 'dst' in ow else self.s
            w = int(part(dt)[0][1:])
            if is_const(tot) and o != l[1]:
                self.swaps += 1
                if (tot[0] - (w - 1)) % (2 * w) or tot[0] < 0:
                    self.note(st, x, 'exchanges bytes %d apart in numbers of %d bytes (data type %s)' % (tot[0] + 1, w, dt))
                self.mark(st, ow)
            elif o != l[1]:
                self.swaps += 1
                self.mark(st, ow)
            return
        if 'dst' in ow:
            st.mon = st.mon[:2] + (True,)
        src = self.source(x)
        if src is None:
            self.odd = True
            return
        ops, ld = src
        info = self.numload.get((x.fn.name, ld.res))
        if info is None or info[2] == ow and info[1] == o:
            return
        d, s = part(self.d)[0], part(self.s)[0]
        if d in IRT and s in IRT and 'src' in info[2] | ow or info[2] == {'own'} and 'dst' in ow:
            if d not in IRT or s not in IRT:
                return
            self.kinds.add((irname(x.ty), ops, irname(ld.ty)))
            if irname(x.ty) != irname(IRT[d]) or irname(ld.ty) != irname(IRT[s]) or ops != conversions(d, s):
                self.note(st, x, 'turns %s into %s by reading %s, %s and storing %s' % (self.s, self.d, irname(ld.ty), ' '.join(ops) or 'no conversion', irname(x.ty)))
            if part(self.d)[1] == 2 and is_const(o) and is_const(info[1]):
                wd, ws = int(d[1:]), int(s[1:])
                if o[0] in (0, wd) and info[1][0] in (0, ws) and (o[0] == 0) != (info[1][0] == 0):
                    self.note(st, x, 'exchanges the real and the imaginary part')

    def mark(self, st, ow):
        a, b, w = st.mon
        st.mon = (1, b, w) if 'dst' in ow else (a, 1, w)

    def on_call(self, eng, st, x, name, args):
        if name in CMPS:
            a, b = self.string(eng, args[0]), self.string(eng, args[1])
            if a is not None and b is not None and x.res is not None:
                if name != 'strcmp':
                    if not is_const(args[2]):
                        return None
                    n = args[2][0]
                    a, b = (a + '\0' * 16)[:n], (b + '\0' * 16)[:n]
                    if name == 'strncmp':
                        a, b = a.split('\0')[0], b.split('\0')[0]
                st.env[x.res] = const(0 if a == b else -1 if a < b else 1)
                return [st]
        elif name in ('big_file_dtype_itemsize', 'big_file_dtype_kind'):
            a = self.string(eng, args[0])
            if a is not None and x.res is not None:
                if a[:1] not in '<>=|':
                    a = '=' + a
                st.env[x.res] = const(int(a[2:]) if name.endswith('size') else ord(a[1]))
                return [st]
        elif name == 'atoi':
            a = self.string(eng, args[0])
            if a is not None and a.isdigit() and x.res is not None:
                st.env[x.res] = const(int(a))
                return [st]
        elif name in ('_dtype_normalize', 'strcpy', 'strncpy', 'strcat') or name in COPY and self.text(args[1]) is not None:
            t = self.string(eng, args[1])
            b, o = base_off(args[0])
            if t is not None and b is not None and b[0] in ('al', 'heap') and is_const(o):
                self.local[(b, o[0])] = t
        elif name == 'big_array_iter_advance':
            b, o = base_off(args[0])
            p = eng.loadloc(st, b, add(o, const(self.po)), 8, 'p') if b is not None else None
            pb, po = base_off(p) if p is not None and is_poly(p) else (None, None)
            if pb is not None:
                tok = ('unk', ('adv', x.fn.name, x.uid), 'i')
                eng.retire_check(st, tok)
                eng.store(st, add(args[0], const(self.po)), 8, add(atom(pb), atom(tok)), ('st', x.fn.name, x.uid))
                return [st]
        if name in COPY or name in SETS:
            ow = self.owners(eng, args[0])
            if 'src' in ow:
                self.note(st, x, 'copies into the memory that is converted')
            if 'dst' in ow:
                self.stores += 1
                st.mon = st.mon[:2] + (True,)
                if name in COPY and self.owners(eng, args[1]) & {'src', 'own'} and self.d != self.s and 'own' not in self.owners(eng, args[1]):
                    self.note(st, x, 'copies items of another type unchanged')
        return None

    def after_call(self, eng, st, x, name, args):
        if name in ('malloc', 'calloc', 'realloc') and x.res in st.env and is_poly(st.env[x.res]):
            eng.assume(st, c_eq(st.env[x.res]), False)
        return [st]

    def on_ret(self, eng, st, x, v):
        self.rets += 1
        if not success(eng, st, x.fn, v):
            self.fails += 1
            return
        self.good += 1
        for i in (0, 1):
            p = eng.loadloc(st, ('arg', i, 'p'), const(self.po), 8, 'p')
            if p == atom(('ld', ('arg', i, 'p'), const(self.po), 0, 'p')):
                self.note(st, x, 'does not move the iterator of the %s on' % ('destination' if i == 0 else 'source'))
        self.final.append((st.mon, st, x))


def pairs():
    for d, s in itertools.product(NUMERIC, NUMERIC):
        yield d, s
    for d, s in itertools.product(('c8', 'c16'), ('c8', 'c16')):
        yield d, s
    for t in ('b1', 'S1', 'a1', 'f2', 'i2', 'f16'):
        yield t, t


def check(ctx):
    ctx.explanation = ('The conversion of items (casting, swapping bytes, copying; all inlined) is interpreted abstractly once for every pair of data types and byte orders, tests of the data types decided: no store or copy reaches memory of the source, each number is read, converted and stored with the '
                       'instructions its two types need, bytes are exchanged within one number only, the result is in the byte order of the destination, both iterators are moved on, and the pair is converted at all.')
    P = ctx.program(mpi=False, drop=('big_array_init', 'big_array_iter_init'))
    m = P[0]
    if FN not in m.funcs:
        raise build.AnalysisError('function not found: ' + FN)
    nmemb = [i for i, (t, n) in enumerate(m.funcs[FN].args) if t == ('int', 64)]

    def one(ctx, pair):
        d, s = pair
        for de, se in itertools.product('<>', '<>'):
            mon = Conv(m, d, s, de, se)
            mon.final = []

            def setup(eng, st):
                for i in nmemb:
                    eng.addfact(st, add(atom(('arg', i, 'i')), const(-1)))
                st.ne = st.ne | {atom(('arg', 0, 'p')), atom(('arg', 1, 'p'))}
            ctx.engine(P, FN, mon, setup=setup, nonneg_tags=NONNEG, split_returns=True)
            name = '%s%s<-%s%s' % (de, d, se, s)
            if not mon.good:
                ctx.violation('%s<-%s/none' % (d, s), '%s cannot convert %s%s into %s%s' % (FN, se, s, de, d), None)
            elif d != s and mon.fails:
                pass
            w = int(part(d)[0][1:]), int(part(s)[0][1:])
            n = len(mon.final)
            need = (int(de == '>' and w[0] > 1), int(se == '>' and w[1] > 1))

            def right(have):
                return have == need or d == s and (have[0] + have[1] - need[0] - need[1]) % 2 == 0
            judged = not mon.odd and max(w) > 1
            some = any(right(mn[:2]) for mn, st, x in mon.final)
            for mn, st, x in mon.final:
                if not mn[2]:
                    mon.note(st, x, 'succeeds without storing anything into the destination')
                have = mn[:2]
                if not judged or right(have):
                    continue
                for k, what in ((0, 'destination'), (1, 'source')):
                    if have[k] > need[k]:
                        mon.note(st, x, 'exchanges the bytes of the %s (%s), which is in the order of the machine' % (what, name))
                    elif have[k] < need[k] and not some:
                        mon.note(st, x, 'does not exchange the bytes of the %s (%s)' % (what, name))
            ctx.obligation(not mon.bad, 3 + mon.stores + n)
            ctx.cov['stores_judged'] = ctx.cov.get('stores_judged', 0) + mon.stores
            ctx.cov['byte_exchanges'] = ctx.cov.get('byte_exchanges', 0) + mon.swaps
            if de == se == '<':
                ctx.sample({'pair': '%s <- %s' % (d, s), 'numbers': sorted(map(str, mon.kinds)), 'returns': mon.rets})
            for what, (st, x) in sorted(mon.bad.items()):
                ctx.violation('%s/%s' % (FN, what.split('(')[0].strip().replace(' ', '_')), '%s (%s): %s' % (FN, name, what), short(m.loc(x)), trace_of(st))
    ctx.pmap(one, list(pairs()))
    ctx.functions.append(FN)
    ctx.assumptions = ['memory allocation succeeds', 'the machine is little endian', 'source and destination do not overlap']
