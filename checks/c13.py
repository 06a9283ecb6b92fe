"""C13: files and buffers are released exactly once, and not used afterwards."""
from sa import build, terms as T
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, rename
from sa.ctx import short
from .lib import FILE_PRIMS, SetMon, callees, reaching, success, failure, trace_of
from .common import NONNEG
from .c03 import isblock
from .c11 import struct

NEW = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', '_strdup', 'reallocarray', 'aligned_alloc'}
OPEN = {'fopen', 'fdopen', 'tmpfile', 'fopen64'}
PASSES = 'always-inline,function(sroa,early-cse,jump-threading,simplifycfg,sccp,adce)'
CLOSE = {'fclose': 'file', 'free': 'heap', 'realloc': 'heap', 'freopen': 'file', 'reallocarray': 'heap'}


def owner_tables(m, hk):
    """by convention of the interface: what takes hold of an object, what releases it"""
    take, drop = {}, {}
    for n, f in m.funcs.items():
        ts = m.arg_types(f)
        for kind, st in (('BigBlock', 'block'), ('BigFile', 'file')):
            idx = [i for i, t in enumerate(ts) if struct(t) == kind]
            if not idx:
                continue
            if n.startswith('big_block') and kind == 'BigFile':
                continue
            if st == 'block' and ('_open_block' in n or '_create_block' in n or n == '_big_block_unpack' or {'_big_block_pack', '_big_block_unpack'} <= callees(f) or n in ('_big_block_open', '_big_block_create', '_big_block_create_internal')):
                take[n] = (idx[0], kind)
            elif st == 'block' and n in ('big_block_close', 'big_block_mpi_close', '_big_block_close_internal'):
                drop[n] = (idx[0], kind)
            elif st == 'file' and n in ('big_file_open', 'big_file_create', 'big_file_mpi_open', 'big_file_mpi_create'):
                take[n] = (idx[0], kind)
            elif st == 'file' and n in ('big_file_close', 'big_file_mpi_close'):
                drop[n] = (idx[0], kind)
    return take, drop


OWNING = {'BigBlock', 'BigAttrSet', 'BigFile', 'BigRecordType'}


class Own(SetMon):
    """mon: ('H', value, kind, result, site) held; ('X', value, site) released; ('S', value, cell base, offset) stored there"""

    def __init__(self, m, name, take, drop, makes, closes):
        self.m, self.name = m, name
        self.take, self.drop, self.makes, self.closes = take, drop, makes, closes
        self.bad = {}
        self.closer = None
        self.fresh = name in self.take_all
        self.shares = {n for n in m.funcs if {'_big_block_pack', '_big_block_unpack'} <= callees(m.funcs[n])}
        self.sites = set()
        self.rets = 0
        self.releases = 0
        self.byuid = {}

    take_all = ()

    def note(self, st, x, what, extra=''):
        self.bad.setdefault((what, extra), (st, x))

    def where(self, x):
        self.byuid[x.uid] = x
        return x.uid

    def exact(self, e):
        return e[0] != 'X' or e[1][0] in ('heap', 'ret') or not isinstance(e[1][0], str)

    def key(self, eng, st):
        return frozenset(e for e in st.mon if self.exact(e))

    def join(self, eng, A, B):
        return frozenset(e for e in A.mon if self.exact(e) or e in B.mon)

    def null(self, eng, st, a):
        if eng.decide(st, c_eq(atom(a))) is True:
            return True
        return eng.implies_ge(st, sub(const(0), atom(a)))

    def retire(self, eng, st, token, stale):
        for e in st.mon:
            if e[0] == 'H' and e[1] == token and not self.null(eng, st, e[1]) and not self.kept(eng, st, e[1], set()):
                self.lost(eng, st, e, self.byuid[e[4]])
        st.mon = frozenset(e for e in st.mon if not (e[0] == 'X' and T.mentions(e, token)) and not (e[0] == 'H' and e[1] == token and self.null(eng, st, e[1])))
        super().retire(eng, st, token, stale)

    def on_edge(self, eng, st, src, dst):
        # what turned out not to exist need not be released
        gone = [e for e in st.mon if e[0] == 'H' and (e[2] in ('heap', 'file', 'set') and self.null(eng, st, e[1])
                                                      or e[2] in ('BigBlock', 'BigFile') and e[3] is not None and eng.decide(st, c_eq(e[3])) is False)]
        if gone:
            st.mon = st.mon - frozenset(gone)
        return True

    def kept(self, eng, st, a, seen, failed=False):
        """is something outside left that leads to this?"""
        if a in seen:
            return False
        seen.add(a)
        for e in st.mon:
            if e[0] == 'S' and e[1] == a:
                b = e[2]
                if b[0] in ('heap',) or any(q[0] == 'H' and q[1] == b for q in st.mon):
                    if self.kept(eng, st, b, seen, failed):
                        return True
                elif b[0] == 'al':
                    continue
                elif not failed or any(q[0] == 'R' and q[1:] == e[2:] for q in st.mon) or b[0] == 'glob':
                    return True
        return False

    def lost(self, eng, st, e, x):
        kind = e[2]
        what = {'heap': 'never releases memory', 'file': 'never closes a file', 'set': 'never releases an attribute set', 'BigBlock': 'never closes a block', 'BigFile': 'never closes a big file'}[kind]
        s = self.byuid.get(e[4])
        self.note(st, s or x, what, 'line %s' % short(self.m.loc(s)).split('(')[0].split(':')[-1] if s is not None else '')

    def base(self, p):
        return base_off(p)[0] if is_poly(p) else None

    def ranks(self, st):
        return [atom(a) for f in st.facts | st.ne for mo, k in f[1] for a in mo if a[0] == 'pure' and a[1] == 'MPI_Comm_rank']

    def on_call(self, eng, st, x, name, args):
        self.old = None
        name = name.split('.')[0]
        if name in ('_big_file_raise', 'big_file_set_error_message'):
            st.mon = st.mon | {('E',)}
        if name == 'MPI_Bcast' and is_const(args[1]) and args[1][0] == 1 and len(args) > 4:
            b, o = base_off(args[0])
            if any(eng.decide(st, c_eq(sub(r, args[3]))) is True for r in self.ranks(st)):
                self.old = b, o, eng.loadloc(st, b, o, 4, 'i32')
        if name in CLOSE or name in self.closes:
            b = self.base(args[0])
            if b is not None:
                self.release(eng, st, x, b, CLOSE.get(name) or self.closes[name])
            return None
        if self.closer is not None and any(a == self.arg for a in args):
            st.mon = st.mon | {('T',)}
        if name in self.drop:
            i, kind = self.drop[name]
            b = args[i]
            self.releases += 1
            held = [e for e in st.mon if e[0] == 'H' and e[1] == b]
            if any(e[0] == 'X' and e[1] == b for e in st.mon):
                self.note(st, x, 'closes a block or file twice')
            st.mon = frozenset(e for e in st.mon if e not in held)
            st.mon = st.mon | {('X' if held else 'C', b, self.where(x))}
            return None
        for a in args:
            b = self.base(a)
            if b is not None:
                self.use(eng, st, x, b)
        if name == 'memset':
            b, o = base_off(args[0])
            if b is not None and is_const(o) and is_const(args[2]):
                self.displace(eng, st, x, b, o[0], o[0] + args[2][0])
        return None

    def displace(self, eng, st, x, b, lo, hi):
        """what the fields of an object led to is this function's to release once it is cut off"""
        t = eng.typeof(b)
        while t and t[0] == 'arr':
            t = t[1]
        if not t or t[0] != 'struct' or t[1] not in OWNING or self.fresh or b[0] in ('al', 'heap'):
            return
        for f, off, size, ft in self.m.field_types(t[1]):
            if ft and ft[0] == 'ptr' and off >= lo and (hi is None or off + size <= hi):
                a = as_atom(eng.loadloc(st, b, const(off), 8, 'p'))
                if a is None or a[0] not in ('ld', 'mod') or any(e[0] in 'HX' and e[1] == a for e in st.mon) or self.null(eng, st, a):
                    continue
                u = struct(ft)
                st.mon = st.mon | {('H', a, 'set' if u == 'BigAttrSet' else 'heap', None, self.where(x))}

    def use(self, eng, st, x, b):
        if any(e[0] == 'X' and e[1] == b for e in st.mon):
            self.note(st, x, 'uses something after it was released')

    def release(self, eng, st, x, b, kind):
        self.releases += 1
        l = eng.loc_of_atom(b) if b[0] in ('mod', 'phi') else None
        if l:
            # a call or a loop may have changed the pointer, as far as we know: it leads to what was put there
            b = next((e[1] for e in sorted(st.mon, key=repr) if e[0] == 'S' and e[2] == l[0] and e[3] == l[1]), b)
        if any(e[0] == 'X' and e[1] == b for e in st.mon):
            self.note(st, x, 'releases something twice')
            return
        held = [e for e in st.mon if e[0] == 'H' and e[1] == b]
        if held and held[0][2] != kind:
            self.note(st, x, 'releases something the wrong way')
        if b[0] == 'al' or b[0] == 'glob':
            self.note(st, x, 'releases something that was not allocated')
        if kind == 'heap' and x.extra['callee'][1] == 'free':
            self.displace(eng, st, x, b, 0, None)
        st.mon = frozenset(e for e in st.mon if e not in held) | {('X', b, self.where(x))}

    def after_call(self, eng, st, x, name, args):
        name = name.split('.')[0]               # linking numbers what several files define for themselves
        r = st.env.get(x.res) if x.res else None
        if self.old is not None:
            # the rank everybody hears from keeps what it has
            b, o, v = self.old
            w = eng.loadloc(st, b, o, 4, 'i32')
            eng.addfact(st, sub(v, w))
            eng.addfact(st, sub(w, v))
        a = as_atom(r) if is_poly(r) else None
        kind = 'heap' if name in NEW else 'file' if name in OPEN else self.makes.get(name)
        if name == 'realloc' and is_poly(args[0]) and base_off(args[0])[0] is None and not is_const(args[0]):
            pass
        if kind and a is not None:
            self.sites.add(x.uid)
            st.mon = frozenset(e for e in st.mon if len(e) == 1 or e[1] != a) | {('H', a, kind, None, self.where(x))}
        elif kind and r is None and x.res is None:
            self.note(st, x, 'drops what it allocates')
        if name in self.take:
            i, kind = self.take[name]
            b = args[i]
            self.sites.add(x.uid)
            if name not in self.shares and any(e[0] == 'H' and e[1] == b for e in st.mon):
                self.note(st, x, 'opens a block or file over one that is open')
            mine = not any(e[0] == 'C' and e[1] == b for e in st.mon)
            st.mon = frozenset(e for e in st.mon if len(e) == 1 or e[1] != b)
            if name in self.shares:
                r = None
            # what the first rank alone opens is followed on the ranks it is sent to: only this rank can have failed here, and it is known not to have
            if mine and not any(eng.decide(st, c_eq(r2)) is True for r2 in self.ranks(st)):
                st.mon = st.mon | {('H', b, kind, r, self.where(x))}
        return [st]

    def on_load(self, eng, st, x, p, size, v):
        b = self.base(p)
        if b is not None:
            self.use(eng, st, x, b)
        return None

    def on_store(self, eng, st, x, p, size, v):
        b, o = base_off(p)
        if b is None:
            return
        self.use(eng, st, x, b)
        if size != 8:
            return
        if is_const(o) and v != eng.loadloc(st, b, o, 8, 'p'):
            self.displace(eng, st, x, b, o[0], o[0] + 8)
        # what was there before: replacing something that was released renews it
        mon = frozenset(e for e in st.mon if not (e[0] == 'S' and e[2] == b and e[3] == o))
        old = eng.loadloc(st, b, o, 8, 'p')
        oa = as_atom(old)
        if oa is not None and any(e[0] == 'X' and e[1] == oa for e in mon):
            mon = mon | {('R', b, o)}
        vb = base_off(v)[0] if is_poly(v) else None
        if vb is not None and vb[0] in ('heap', 'ret', 'pure', 'mod', 'stale') or vb is not None and vb[0] == 'ld' and b[0] != 'al' or vb is not None and any(e[0] == 'H' and e[1] == vb for e in mon):
            mon = mon | {('S', vb, b, o)}
        st.mon = mon

    def on_ret(self, eng, st, x, v):
        self.rets += 1
        if self.closer is not None and ('T',) in st.mon and not any(e[0] in 'CX' and e[1:2] == (self.arg,) for e in st.mon):
            self.note(st, x, 'can return without having released what it closes')
        bad = v is not None and (failure(eng, st, x.fn, v) or ('E',) in st.mon and eng.decide(st, c_eq(v)) is not True)
        for e in sorted((e for e in st.mon if e[0] == 'H'), key=repr):
            a, kind, r = e[1], e[2], e[3]
            if kind in ('BigBlock', 'BigFile'):
                if r is not None and eng.decide(st, c_eq(r)) is False:
                    continue                # it could not be opened
                b = base_off(a)[0]
                if b is not None and b[0] != 'al' and not bad:
                    continue                # the caller's
                self.lost(eng, st, e, x)
                continue
            if self.null(eng, st, a):
                continue
            if v is not None and is_poly(v) and base_off(v)[0] == a:
                continue
            if v is not None and is_poly(v) and base_off(v)[0] is not None and any(q[0] == 'S' and q[1] == a and q[2] == base_off(v)[0] for q in st.mon):
                continue
            if self.kept(eng, st, a, set(), bad):
                continue
            self.lost(eng, st, e, x)


def setfns(m):
    """functions that handle a set of attributes"""
    return {n for n, f in m.funcs.items() if 'BigAttrSet' in [struct(t) for t in m.arg_types(f)] or struct(m.ret_type(f)) == 'BigAttrSet'}


def makers(m):
    """functions that return something new: kind; functions that release: kind"""
    out, closes = {}, {}
    for n, f in m.funcs.items():
        if n in setfns(m):
            if struct(m.ret_type(f)) == 'BigAttrSet':
                out[n] = 'set'
            elif callees(f) & {'free'} and f.ret[0] == 'void' and len(m.arg_types(f)) == 1:
                closes[n] = 'set'
        elif f.ret[0] != 'ptr':
            continue
        elif callees(f) & OPEN:
            out[n] = 'file'
        elif n in ('_big_block_pack', '_path_join', '_strdup'):
            out[n] = 'heap'
    return out, closes


def program(ctx):
    raw = ctx.raw()
    hk = build.header_functions()
    # what neither allocates nor releases nor fails is looked into where it is called
    deep = reaching(raw, NEW | OPEN | set(CLOSE) | {'_big_file_raise'} | FILE_PRIMS)
    P = ctx.program(mpi=True, keep={n for n in raw.funcs if n in hk and (n in deep or len(list(raw.funcs[n].insns())) > 300)} | setfns(raw) | {n for n in raw.funcs if {'_big_block_pack', '_big_block_unpack'} <= callees(raw.funcs[n])} | {'_strdup', '_path_join'}, passes=PASSES)
    m = P[0]
    take, drop = owner_tables(m, hk)
    return P, take, drop, makers(m)


def monitor(m, n, take, drop, mk):
    Own.take_all = frozenset(take)
    mon = Own(m, n, {k: v for k, v in take.items() if k != n}, {k: v for k, v in drop.items() if k != n}, mk[0], {k: v for k, v in mk[1].items() if k != n})
    if n in drop and callees(m.funcs[n]) & (set(drop) - {n}):
        mon.closer = drop[n]
        mon.arg = atom(('arg', drop[n][0], 'p'))
    return mon


def check(ctx):
    ctx.explanation = ('Ownership typestate over LLVM IR: every file, buffer, attribute set and block a function takes hold of is, on every path, released once, or handed to the caller or kept where something '
                       'leads to it; what is cut off from a block, attribute set or record type is released; nothing is used or released again; closing releases whatever happens; a failed operation leaves nothing behind.')
    ctx.assumptions = ['memory allocation succeeds', 'functions that walk directories (linked lists of names) are not judged',
                       'what a function outside the library is given, it neither keeps nor releases']
    P, take, drop, mk = program(ctx)
    m = P[0]

    def one(ctx, n):
        mon = monitor(m, n, take, drop, mk)
        ctx.engine(P, n, mon, nonneg_tags=NONNEG, split_returns=True)
        ctx.functions.append(n)
        ctx.sample({'function': n, 'takes': len(mon.sites), 'releases': mon.releases, 'returns': mon.rets})
        ctx.obligation(not mon.bad, mon.rets + len(mon.sites) + mon.releases)
        for (what, extra), (st, x) in sorted(mon.bad.items(), key=lambda e: str(e[0])):
            ctx.violation('%s/%s %s' % (n, what.replace(' ', '_'), extra), '%s: %s %s' % (n, what, extra), short(m.loc(x)), trace_of(st))
    walks = reaching(m, {'scandir', 'readdir'})
    names = sorted(n for n in m.funcs if n not in walks and not n.startswith(('MPIU_', '_MPIU', 'mpiu', '_mpiu')))
    ctx.pmap(one, names)
