"""C06: the checksum of a data file grows by exactly the bytes written to it."""
from sa import build, terms as T
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, Monitor
from sa.ctx import short
from .lib import reaching, callees, trace_of
from .common import NONNEG
from . import c05


class Sum(Monitor):
    """the function adds every byte of [buf, buf+size) to *sum exactly once"""

    def __init__(self, m, name):
        self.m = m
        self.name = name
        self.bad = {}

    def note(self, st, x, what):
        self.bad.setdefault(what, (st, x))

    def g(self, st, k):
        return dict(st.mon).get(k)

    def put(self, st, **kw):
        d = dict(st.mon)
        d.update(kw)
        st.mon = tuple(sorted(d.items()))

    def initial(self):
        return (('acc', None), ('n', const(0)), ('p', None), ('pend', ()))

    def key(self, eng, st):
        return len(self.g(st, 'pend'))

    def join(self, eng, A, B):
        p = eng.corr(self.g(A, 'pend'), self.g(B, 'pend'))
        return (('acc', None), ('n', const(0)), ('p', None), ('pend', p if p is not None else ()))

    def ghosts(self, st):
        return {k: v for k, v in st.mon if k in ('acc', 'n', 'p') and v is not None}

    def setghosts(self, st, values):
        self.put(st, **values)

    def acc(self, eng, st):
        a = self.g(st, 'acc')
        if a is None:
            a = eng.loadloc(st, ('arg', 0, 'p'), const(0), 4, 'i32')
            self.put(st, acc=a, p=atom(('arg', 1, 'p')))
        return a

    def on_load(self, eng, st, x, p, size, v):
        self.acc(eng, st)
        b, o = base_off(p)
        if b == ('arg', 1, 'p') or b is not None and b[0] == 'phi' and eng.leaves(b) == {('arg', 1, 'p')}:
            if size != 1:
                self.note(st, x, 'reads more than a byte at a time')
                return None
            pend = self.g(st, 'pend')
            want = add(self.g(st, 'p') or atom(('arg', 1, 'p')), const(len(pend)))
            if p != want and eng.decide(st, c_eq(sub(p, want))) is not True:
                self.note(st, x, 'does not take the bytes one after the other')
            self.put(st, pend=pend + (v,))
        return None

    def on_bin(self, eng, st, x, a, b):
        pend = self.g(st, 'pend')
        for i, v in enumerate(pend):
            z = (v, atom(('zx', 8, v)))
            for p, q in ((a, b), (b, a)):
                if is_poly(p) and p in z:
                    if p == v and eng.nonneg(v, st) is not True:
                        self.note(st, x, 'adds a byte with its sign')
                    if x.extra['op'] != 'add':
                        self.note(st, x, 'does something other than adding a byte')
                    elif is_poly(q) and eng.decide(st, c_eq(sub(q, self.acc(eng, st)))) is True:
                        self.put(st, acc=add(q, p), n=add(self.g(st, 'n'), const(1)), p=add(self.g(st, 'p') or atom(('arg', 1, 'p')), const(1)), pend=pend[:i] + pend[i + 1:])
                    else:
                        self.note(st, x, 'adds a byte to something else than the sum so far')
                    return None
        return None

    def on_ret(self, eng, st, x, v):
        s = eng.loadloc(st, ('arg', 0, 'p'), const(0), 4, 'i32')
        if self.g(st, 'pend'):
            self.note(st, x, 'reads a byte and does not add it')
        if eng.decide(st, c_eq(sub(s, self.acc(eng, st)))) is not True:
            self.note(st, x, 'does not store the sum of all bytes')
        if eng.decide(st, c_eq(sub(self.g(st, 'n'), atom(('arg', 2, 'i'))))) is not True:
            self.note(st, x, 'returns after a number of bytes other than the size given')


def check(ctx):
    ctx.explanation = ('In big_block_write every fwrite on every abstract path is preceded by exactly one addition of the same buffer and the same number of bytes to the checksum of the same data file, and nothing else changes a checksum. '
                       'The adding function is shown to add every byte of its range exactly once, unsigned, to the old sum. No other function changes the checksum of an existing block, apart from the constructing functions and the merge between MPI ranks.')
    mon, m = c05.analyse(ctx, 'big_block_write')
    ctx.functions.append('big_block_write')
    kinds = [k for u, k in mon.sites]
    ctx.obligation(not mon.notsum, 2 * len(mon.sites))
    if 'transfer' not in kinds:
        ctx.violation('big_block_write/no_transfer', 'big_block_write: no write found', None)
    if not mon.sums_used and not mon.notsum:
        ctx.violation('big_block_write/no_sum', 'big_block_write: no checksum found', None)
    for (fn, what), (st, x) in sorted(mon.notsum.items()):
        ctx.violation('big_block_write/%s/%s' % (fn, what.replace(' ', '_')), 'big_block_write: %s' % what, short(m.loc(x)), trace_of(st))
    raw = ctx.raw()
    P = ctx.program(mpi=False, keep=set(raw.funcs))
    for n in sorted(mon.sums_used):
        sm = Sum(P[0], n)
        ctx.engine(P, n, sm, setup=lambda eng, st: eng.addfact(st, atom(('arg', 2, 'i'))), nonneg_tags=NONNEG)
        ctx.functions.append(n)
        ctx.obligation(not sm.bad, 6)
        for what, (st, x) in sorted(sm.bad.items()):
            ctx.violation('%s/%s' % (n, what.replace(' ', '_')), '%s: %s' % (n, what), short(P[0].loc(x)), trace_of(st))
    # nobody else
    P = ctx.program(mpi=True, keep=set(build.header_functions()) & set(raw.funcs) | mon.sums_used)
    from .c10 import COLLECTIVE
    coll = reaching(P[0], COLLECTIVE)
    for n, f in sorted(P[0].funcs.items()):
        if n in mon.sums_used or n == 'big_block_write':
            continue
        st = Stores(P[0], n, n in coll)
        ctx.engine(P, n, st, nonneg_tags=NONNEG)
        ctx.functions.append(n)
        ctx.obligation(not st.bad, 1)
        for what, (s, x) in sorted(st.bad.items()):
            ctx.violation('%s/%s' % (n, what.replace(' ', '_')), '%s: %s' % (n, what), short(P[0].loc(x)), trace_of(s))
    ctx.assumptions = ['sums wrap at 32 bits', 'the merge between MPI ranks is the subject of C12']


class Stores(Monitor):
    """stores to the checksums of a block the function was given"""

    def __init__(self, m, name, merging):
        self.m = m
        self.name = name
        self.merging = merging  # the merge between the ranks is the subject of C12
        self.bad = {}
        self.merged = set()     # results of a reduction over the ranks

    def initial(self):
        return ()

    def old(self, eng, p):
        if not is_poly(p):
            return False
        b, o = base_off(p)
        t = eng.loctag(b, o) if b is not None else None
        if not t or t[:2] != ('BigBlock', 'fchecksum') or len(t) != 3:
            return False
        # loaded from the block, not allocated here
        return b[0] in ('ld', 'mod') and not any(a[0] in ('heap', 'al') for a in T.atoms_of(atom(b)))

    def on_store(self, eng, st, x, p, size, v):
        if self.old(eng, p):
            if is_poly(v) and any(a in self.merged for a in T.atoms_of(v)) or self.merging and is_const(v) and v[0] == 0:
                return
            self.bad.setdefault('changes the checksum of a data file', (st, x))

    def on_call(self, eng, st, x, name, args):
        if name in ('MPI_Reduce', 'MPI_Allreduce'):
            b = base_off(args[1])[0] if is_poly(args[1]) else None
            if b is not None:
                self.merged.add(b)
        for i, a in enumerate(args):
            if self.old(eng, a):
                if name in ('free', 'MPI_Reduce', 'MPI_Allreduce', 'MPI_Bcast') or name in ('memcpy', 'llvm.memcpy.p0.p0.i64', 'memmove') and i == 1:
                    continue
                if self.merging and name in ('memset', 'llvm.memset.p0.i64') and is_const(args[1]) and args[1][0] == 0:
                    continue
                self.bad.setdefault('gives the checksums of a block to %s' % name, (st, x))
        return None
