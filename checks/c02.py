"""C02: a change to a block's header or attributes stays marked until it has been written out."""
from sa import terms as T
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, c_not
from sa.ctx import short
from .lib import SetMon, success, failure, trace_of, fork_ret
from .common import NONNEG

HFIELDS = {'dtype', 'nmemb', 'Nfile', 'fsize', 'fchecksum'}
AFIELDS = {'attrbuf', 'attrlist', 'listused', 'bufused'}
LOAD = {'_big_block_open', 'big_file_open_block', 'big_file_mpi_open_block', '_big_block_unpack'}
CREATE = {'_big_block_create_internal', '_big_block_create', 'big_file_create_block'}
DESTROY = {'_big_block_close_internal', 'big_block_close', 'big_block_mpi_close'}
SETTERS = {'big_block_set_dirty', 'big_attrset_set_dirty'}
# merging the ranks' checksums and flags is decided by the property on merging the ranks' changes; the others only move a block between ranks
ELSEWHERE = {'big_block_mpi_flush', '_big_block_pack'}
HEADER, ATTR2 = -1, -3


def field_off(m, s, f):
    for n, o, sz, t in m.field_types(s) or ():
        if n == f:
            return o
    return None


class Dirty(SetMon):
    """mon: ('H', block, origin) header data modified; ('A', attrset) attributes modified;
    ('S', attrset) an attribute set seen"""

    def __init__(self, m, name):
        self.m = m
        self.name = name
        self.hd = field_off(m, 'BigBlock', 'dirty')
        self.ha = field_off(m, 'BigBlock', 'attrset')
        self.ad = field_off(m, 'BigAttrSet', 'dirty') if m.field_types('BigAttrSet') else 0
        self.bad = {}
        self.sites = {}

    def mark(self, st, kind, base, x):
        k = (x.fn.name, x.uid)
        self.sites[k] = x
        if not any(e[0] == kind and e[1] == base for e in st.mon):
            st.mon = st.mon | {(kind, base, k)}

    def write(self, eng, st, x, base, off, v=None):
        """data at base+off changes"""
        if v is not None and is_const(v) and v[0] == 0:
            t = eng.loctag(base, off)
            if t and len(t) == 2 and t[1] != 'listused':
                return
        t = eng.loctag(base, off)
        if not t:
            return
        if t[0] == 'BigBlock' and t[1] in HFIELDS:
            b = base
            while len(t) > 2:
                # inside an array the block points to
                l = eng.loc_of_atom(b)
                if l is None:
                    return
                b = l[0]
                t = eng.loctag(*l) or ('?',)
            self.mark(st, 'H', b, x)
        elif t[0] == 'BigAttrSet' and t[1] in AFIELDS:
            b = base
            n = 0
            while len(t) > 2 and n < 4:
                l = eng.loc_of_atom(b)
                if l is None:
                    break
                b = l[0]
                t = eng.loctag(*l) or ('?',)
                n += 1
            self.mark(st, 'A', b, x)
        elif t[0] == 'BigAttr' and eng.typeof(base) != 'x':
            # a record of the set, or the bytes it points to
            if base[0] in ('al',):
                return
            self.mark(st, 'A', None, x)

    def on_load(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b is not None and b[0] not in ('al',):
            t = eng.loctag(b, o)
            if t and t[0] == 'BigAttrSet' and len(t) == 2 and ('S', b) not in st.mon:
                st.mon = st.mon | {('S', b)}
        return None

    def on_store(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b is None:
            return
        t = eng.loctag(b, o)
        if t and t[0] == 'BigAttrSet' and len(t) == 2 and ('S', b) not in st.mon:
            st.mon = st.mon | {('S', b)}
        if t and t[0] == 'BigAttr' and b[0] == 'al':
            return
        if t == ('BigAttr', 'data') or t == ('BigAttr', 'name'):
            # moving the buffer of the set adjusts the pointers; the content is unchanged
            if any(m and any(a[0] == 'ld' and a[1] == b for a in m) for m, k in v[1]):
                return
        if t and t[0] == 'BigAttrSet' and t[1] in ('attrbuf', 'attrlist') and len(t) == 2:
            return
        self.write(eng, st, x, b, o, v)

    def on_call(self, eng, st, x, name, args):
        m = self.m
        if name in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'fread', 'sprintf', 'snprintf'):
            b, o = base_off(args[0])
            if b is not None and not (name == 'memset' and is_const(args[1]) and args[1][0] == 0):
                self.write(eng, st, x, b, o)
        if name in DESTROY:
            b, o = base_off(args[0])
            st.mon = frozenset(e for e in st.mon if e[1] != b)
        if name == 'big_block_flush' and self.name != name:
            b, o = base_off(args[0])
            good, bad = fork_ret(eng, st, x, const(0), const(-1))
            out = [bad]
            todo = [good]
            a = self.attrset(eng, good, b)
            for kind, base, off in (('H', b, self.hd), ('A', a, self.ad)):
                if base is None:
                    continue
                nxt = []
                for s in todo:
                    d = eng.loadloc(s, base, const(off), 4, 'i32')
                    r = eng.decide(s, c_eq(d))
                    if r is None:
                        s2 = s.copy()
                        if eng.assume(s2, c_eq(d), True):
                            nxt.append(s2)
                        eng.assume(s, c_eq(d), False)
                    if r is not True:
                        eng.store(s, add(atom(base), const(off)), 4, const(0), ('st', x.fn.name, x.uid))
                        s.mon = frozenset(e for e in s.mon if not (e[0] == kind and e[1] in (base, None)))
                    nxt.append(s)
                todo = nxt
            return out + todo
        return None

    def dirty(self, eng, st, b):
        return eng.loadloc(st, b, const(self.hd), 4, 'i32')

    def attrset(self, eng, st, b):
        p = eng.loadloc(st, b, const(self.ha), 8, 'p')
        return base_off(p)[0]

    def adirty(self, eng, st, a):
        return eng.loadloc(st, a, const(self.ad), 4, 'i32')

    def after_call(self, eng, st, x, name, args):
        if name in self.m.funcs and name not in LOAD | CREATE | DESTROY | SETTERS and name not in ('big_block_flush', 'big_block_mpi_flush'):
            S = eng.models.sum.get(name)
            if S:
                for (root, d, last) in S.writes:
                    if root[0] != 'arg' or root[1] >= len(args):
                        continue
                    for bb, oo in eng.models.walk(eng, st, args[root[1]], d):
                        if oo is None or last == '*':
                            continue
                        loc = add(oo, const(last[0]))
                        t = eng.loctag(bb, loc)
                        if not t:
                            continue
                        pb, po = base_off(args[root[1]])
                        pt = eng.typeof(pb) if pb else None
                        if t[0] == 'BigBlock' and t[1] in HFIELDS and pt and pt[0] == 'struct' and pt[1] == 'BigBlock' and not d:
                            # the callee keeps the same promise: what it changed is marked
                            dv = self.dirty(eng, st, pb)
                            st.ne = st.ne | {dv} if dv[1] else st.ne
                            self.mark(st, 'H', pb, x)
                        elif t[0] in ('BigBlock', 'BigAttrSet', 'BigAttr') and not (pt and pt[0] == 'struct' and pt[1] in ('BigBlock', 'BigAttrSet')):
                            if t[0] == 'BigAttr' and bb[0] == 'al':
                                continue
                            self.write(eng, st, x, bb, loc)
        return [st]

    def on_ret(self, eng, st, x, v):
        if self.name in CREATE | LOAD and not success(eng, st, x.fn, v):
            return
        sets = [e[1] for e in st.mon if e[0] == 'S']
        for e in st.mon:
            if e[0] == 'H':
                if e[1] is not None and eng.decide(st, c_eq(self.dirty(eng, st, e[1]))) is not False:
                    self.bad.setdefault(('H', e[2]), (st, x))
            elif e[0] == 'A':
                cand = [e[1]] if e[1] is not None and e[1] in sets else sets
                if not cand or not any(eng.decide(st, c_eq(self.adirty(eng, st, a))) is False for a in cand):
                    self.bad.setdefault(('A', e[2]), (st, x))


class Flush(SetMon):
    """big_block_flush with one of the flags set: the file is rewritten before success, the flag survives a failure"""

    def __init__(self, m, which, closing=False):
        self.m = m
        self.which = which
        self.closing = closing
        self.hd = field_off(m, 'BigBlock', 'dirty')
        self.ha = field_off(m, 'BigBlock', 'attrset')
        self.ad = field_off(m, 'BigAttrSet', 'dirty') if m.field_types('BigAttrSet') else 0
        self.bad = []
        self.rets = 0

    def loc(self, eng, st):
        b = ('arg', 0, 'p')
        if self.which == 'header':
            return b, const(self.hd)
        a = base_off(eng.loadloc(st, b, const(self.ha), 8, 'p'))[0]
        return a, const(self.ad)

    def after_call(self, eng, st, x, name, args):
        r = st.env.get(x.res) if x.res is not None else None
        if name == '_big_file_open_a_file':
            b = st.copy()
            b.env[x.res] = const(0)
            if r is not None:
                eng.assume(st, c_not(c_eq(r)))
            mode = eng.models.conststr(eng, args[2])
            want = HEADER if self.which == 'header' else ATTR2
            if is_const(args[1]) and args[1][0] == want and mode and mode[:1] == b'w':
                st.mon = st.mon | {('open', as_atom(st.env[x.res]))}
            return [st, b]
        if name in ('fprintf', 'fputs', 'fwrite', 'vfprintf'):
            i = {'fprintf': 0, 'fputs': 1, 'fwrite': 3, 'vfprintf': 0}[name]
            a = as_atom(args[i])
            b = st.copy()
            if ('open', a) in st.mon:
                st.mon = st.mon | {('data', a)}
            if r is not None:
                if name == 'fwrite':
                    st.env[x.res] = args[2]
                    eng.addfact(b, add(sub(args[2], r), const(-1)))
                else:
                    eng.addfact(st, add(r, const(-1)))
                    b.env[x.res] = const(-1)
            return [st, b]
        if name == 'fclose':
            a = as_atom(args[0])
            b = st.copy()
            if x.res is not None:
                st.env[x.res] = const(0)
                b.env[x.res] = const(-1)
            if ('open', a) in st.mon and (self.which == 'attr' or ('data', a) in st.mon):
                st.mon = (st.mon - {('open', a), ('data', a)}) | {('written',)}
            return [st, b]
        return [st]

    def on_ret(self, eng, st, x, v):
        self.rets += 1
        b, o = self.loc(eng, st)
        d = eng.loadloc(st, b, o, 4, 'i32')
        clear = eng.decide(st, c_eq(d))
        if success(eng, st, x.fn, v) and ('written',) not in st.mon and (self.closing or clear is not False):
            self.bad.append(('unwritten', 'succeeds with the %s modified but not written' % self.which, st, x))
        if not self.closing and not success(eng, st, x.fn, v) and clear is not False and ('written',) not in st.mon:
            self.bad.append(('lost', 'fails and no longer knows that the %s is modified' % self.which, st, x))


def check(ctx):
    ctx.explanation = ('Typestate over LLVM IR: every store to the persistent part of a block (header fields, file sizes, checksums, attributes) must be '
                       'followed, on every path to a return, by a state in which the modified-flag is provably set or the flush has succeeded; '
                       'big_block_flush is analysed once per flag, with every file operation forked into success and failure.')
    prog = ctx.program(mpi=True)
    m = prog[0]
    names = []
    for n, f in sorted(m.funcs.items()):
        if n in LOAD | DESTROY | SETTERS | ELSEWHERE or n.startswith(('MPIU', 'mpiu', '_strdup', '_MPIU')):
            continue
        ts = m.arg_types(f)
        takes = any(t and t[0] == 'ptr' and (t[1].get() or ('',))[0] == 'struct' and t[1].get()[1] in ('BigBlock', 'BigAttrSet') for t in ts)
        local = any(x.op == 'alloca' and x.ty[0] == 'named' and 'BigBlock' == x.ty[1].replace('struct.', '') for x in f.insns())
        if takes or local:
            names.append(n)

    closeprog = ctx.program(mpi=True, drop={'big_block_flush'})

    def one(ctx, n):
        if n in ('big_block_flush', 'big_block_close'):
            for which in ('header', 'attr'):
                mon = Flush(m, which, n == 'big_block_close')

                def setup(e, st):
                    b, o = mon.loc(e, st)
                    e.assume(st, c_eq(e.loadloc(st, b, o, 4, 'i32')), False)
                P = prog if n == 'big_block_flush' else closeprog
                ctx.engine(P, n, mon, setup=setup, nonneg_tags=NONNEG, split_returns=True)
                ctx.obligation(not mon.bad, max(mon.rets, 1))
                for k, msg, st, x in mon.bad[:1]:
                    ctx.violation('%s/%s/%s' % (n, which, k), '%s %s' % (n, msg), short(P[0].loc(x)), trace_of(st))
            ctx.functions.append(n)
            return
        mon = Dirty(m, n)
        ctx.engine(prog, n, mon, nonneg_tags=NONNEG, split_returns=True)
        ctx.functions.append(n)
        ctx.obligation(not mon.bad, max(1, len(mon.sites)))
        ctx.cov['modifying_sites'] = ctx.cov.get('modifying_sites', 0) + len(mon.sites)
        for k, x in list(mon.sites.items())[:3]:
            ctx.sample({'function': n, 'modifies': short(m.loc(x))})
        for (kind, site), (st, rx) in sorted(mon.bad.items(), key=lambda z: str(z[0])):
            x = mon.sites[site]
            l = m.loc(x)
            ctx.violation('%s/%s/%s' % (n, kind, l[0][2] if l else '?'),
                          '%s changes the %s, and can return without having marked it as modified or written it' %
                          (n, 'header data' if kind == 'H' else 'attributes'), short(l), trace_of(st))
    ctx.pmap(one, names + ['big_block_close'])
    ctx.assumptions = ['memory allocation succeeds', 'callers change a block only through the library']
