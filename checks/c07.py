"""C07: positions: big_block_seek, big_block_seek_rel, big_block_eof."""
from sa import terms as T
from sa.terms import const, atom, add, sub, mul, neg, is_const, base_off
from sa.engine import c_eq, c_ge, Monitor
from sa.ctx import short
from .lib import success, trace_of, path_edge
from .common import NONNEG
from .c02 import field_off


class Seek(Monitor):
    """mon: facts about the offset table are added whenever one of its entries is loaded"""

    def __init__(self, m, name):
        self.m = m
        self.name = name
        self.bad = {}
        self.rets = self.fails = 0
        self.off = {f: field_off(m, 'BigBlock', f) for f in ('fsize', 'foffset', 'size', 'Nfile')}
        self.poff = {f: field_off(m, 'BigBlockPtr', f) for f in ('fileid', 'roffset', 'aoffset')}

    # mon: the decisions of the path; the last entry of the table known to be behind the offset asked for, or its end
    def initial(self):
        return ((), None)

    def key(self, eng, st):
        return st.mon[0]

    def ghosts(self, st):
        return {} if st.mon[1] is None else {'upper': st.mon[1]}

    def setghosts(self, st, values):
        st.mon = (st.mon[0], values.get('upper'))

    def join(self, eng, A, B):
        return (A.mon[0], eng.corr(A.mon[1], B.mon[1]) if A.mon[1] is not None and B.mon[1] is not None else None)

    def on_edge(self, eng, st, src, dst):
        st.mon = (path_edge(eng, st.mon[0], src, dst), st.mon[1])
        if eng.decide(st, c_eq(self.field(eng, st, 'size'))) is False:
            eng.addfact(st, add(self.field(eng, st, 'Nfile'), const(-1)))

    def on_cond(self, eng, st, ins, c, val):
        base = self.field(eng, st, 'foffset')
        end = self.entry(eng, st, 'foffset', self.field(eng, st, 'Nfile'))
        for a in T.atomset(c) if isinstance(c, tuple) else ():
            if a[0] == 'ld' and atom(a[1]) == base:
                e = atom(a)
                if e == end:
                    continue
                if any(eng.implies_ge(st, add(sub(e, w), const(-1))) for w in self.want(eng, st)):
                    i = a[2]
                    if i[0] % 8 == 0 and all(k % 8 == 0 for t, k in i[1]):
                        st.mon = (st.mon[0], (i[0] // 8, tuple((t, k // 8) for t, k in i[1])))
        return True

    def want(self, eng, st):
        off = atom(('arg', 2, 'i'))
        if eng.implies_ge(st, off):
            return [off]
        size = self.field(eng, st, 'size')
        neg_ = [add(off, size), add(off, self.entry(eng, st, 'foffset', self.field(eng, st, 'Nfile')))]
        if eng.implies_ge(st, add(neg(off), const(-1))):
            return neg_
        return []

    # the block, as it was on entry
    def field(self, eng, st, f):
        return eng.loadloc(st, ('arg', 0, 'p'), const(self.off[f]), 4 if f == 'Nfile' else 8, 'p' if f[0] == 'f' else 'i32' if f == 'Nfile' else 'i')

    def entry(self, eng, st, f, i):
        b, o = base_off(self.field(eng, st, f))
        return eng.loadloc(st, b, add(o, mul(i, const(8))), 8, 'i')

    def p(self, eng, st, f):
        return eng.loadloc(st, ('arg', 1, 'p'), const(self.poff[f]), 4 if f == 'fileid' else 8, 'i32' if f == 'fileid' else 'i')

    def table(self, eng, st):
        """the offset table starts at 0, ends at the size, and each entry is the sum of the sizes before it"""
        n = self.field(eng, st, 'Nfile')
        size = self.field(eng, st, 'size')
        for e in (self.entry(eng, st, 'foffset', const(0)), sub(self.entry(eng, st, 'foffset', n), size)):
            eng.addfact(st, e)
            eng.addfact(st, neg(e))
        for e in (n, size):
            eng.addfact(st, e)
        if eng.decide(st, c_eq(n)) is True:
            eng.addfact(st, neg(size))

    def setup(self, eng, st):
        self.table(eng, st)
        self.old = [self.p(eng, st, f) for f in ('fileid', 'roffset', 'aoffset')]
        st.mon = ((), self.field(eng, st, 'Nfile'))

    def note(self, st, x, what):
        self.bad.setdefault(what, (st, x))

    def outside(self, eng, st, w, size):
        s = st.copy()
        if not eng.assume(s, c_ge(w)) or not eng.assume(s, c_ge(sub(size, w))):
            return True
        for c, v in list(s.bools.items()):
            del s.bools[c]
            r = eng.decide(s, c)
            s.bools[c] = v
            if r is not None and r != v:
                return True
        return any(eng.implies_ge(s, sub(const(-1), f)) for f in s.facts)

    def on_ret(self, eng, st, x, v):
        size = self.field(eng, st, 'size')
        fid, r, a = (self.p(eng, st, f) for f in ('fileid', 'roffset', 'aoffset'))
        want = self.want(eng, st)
        if not success(eng, st, x.fn, v):
            self.fails += 1
            if any(val != old for val, old in zip((fid, r, a), self.old)):
                self.note(st, x, 'moves the position although it fails')
            if want and not any(self.outside(eng, st, w, size) for w in want):
                self.note(st, x, 'refuses an offset inside the block')
            return
        self.rets += 1
        if not any(sub(a, w) == const(0) or eng.decide(st, c_eq(sub(a, w))) is True for w in want):
            self.note(st, x, 'does not store the offset asked for')
        if not eng.implies_ge(st, a):
            self.note(st, x, 'accepts an offset before the start of the block')
        if not eng.implies_ge(st, sub(size, a)):
            self.note(st, x, 'accepts an offset behind the end of the block')
        n = self.field(eng, st, 'Nfile')
        if not eng.implies_ge(st, fid) or not eng.implies_ge(st, sub(add(n, const(-1)), fid)) and eng.decide(st, c_eq(fid)) is not True:
            self.note(st, x, 'stores a file number that the block does not have')
        d = sub(add(self.entry(eng, st, 'foffset', fid), r), a)
        if d != const(0) and eng.decide(st, c_eq(d)) is not True:
            self.note(st, x, 'stores a file and an offset in it that do not add up to the offset asked for')
        if not eng.implies_ge(st, r):
            self.note(st, x, 'stores a negative offset in the file')
        # the next file starts behind the offset, or the file is the last
        if eng.decide(st, c_eq(size)) is not True or eng.decide(st, c_eq(a)) is not True:
            nxt = self.entry(eng, st, 'foffset', add(fid, const(1)))
            up = st.mon[1]
            if not eng.implies_ge(st, add(sub(nxt, a), const(-1))) and (up is None or not eng.implies_ge(st, sub(add(fid, const(1)), up))):
                self.note(st, x, 'stores a file that ends at or before the offset')


class Rel(Seek):
    """a relative seek passes the position plus the distance on, and reports its result"""

    def setup(self, eng, st):
        self.here = add(self.entry(eng, st, 'foffset', self.p(eng, st, 'fileid')), self.p(eng, st, 'roffset'))
        self.pos = [self.here, self.p(eng, st, 'aoffset')]
        st.mon = ((), None)

    def on_call(self, eng, st, ins, name, args):
        if name != 'big_block_seek':
            return None
        self.rets += 1
        self.res = ins.res
        if args[0] != atom(('arg', 0, 'p')) or args[1] != atom(('arg', 1, 'p')):
            self.note(st, ins, 'seeks in another block or position')
        if not any(args[2] == add(h, atom(('arg', 2, 'i'))) for h in self.pos):
            self.note(st, ins, 'does not seek to its position plus the distance asked for')
        return None

    def on_cond(self, eng, st, ins, c, val):
        return True

    def on_ret(self, eng, st, x, v):
        pass


class Eof(Seek):
    """end of file: the position is at or behind the size"""

    def setup(self, eng, st):
        st.mon = ((), None)

    def on_cond(self, eng, st, ins, c, val):
        return True

    def on_ret(self, eng, st, x, v):
        self.rets += 1
        here = [add(self.entry(eng, st, 'foffset', self.p(eng, st, 'fileid')), self.p(eng, st, 'roffset')), self.p(eng, st, 'aoffset')]
        size = self.field(eng, st, 'size')
        for h in here:
            bad = False
            for val in (True, False):
                s = st.copy()
                for p in [size] + here:
                    eng.addfact(s, p)
                if not eng.assume(s, c_ge(sub(h, size)), val):
                    continue
                if eng.decide(s, c_eq(v)) is not (not val):
                    bad = True
            if not bad:
                return
        self.note(st, x, 'does not tell whether the position is at the end')


def check(ctx):
    ctx.explanation = ('big_block_seek is analysed with the offset table described as its constructors build it (first entry 0, last entry the size); at each successful return the stored file number is one of the block, '
                       'the stored offset in the file is not negative and not behind the file\'s end, both add up to the stored offset, and that is the one asked for, which lies in [0, size]; '
                       'the invariants of the search loop are found by the analysis.')
    P = ctx.program(mpi=False)
    m = P[0]
    mon = Seek(m, 'big_block_seek')
    ctx.engine(P, 'big_block_seek', mon, setup=mon.setup, nonneg_tags=NONNEG)
    ctx.functions.append('big_block_seek')
    report(ctx, m, mon, 9)
    ctx.sample({'function': 'big_block_seek', 'successful_returns': mon.rets, 'failing_returns': mon.fails})
    for name, cls in (('big_block_seek_rel', Rel), ('big_block_eof', Eof)):
        mon = cls(m, name)
        ctx.engine(P, name, mon, setup=mon.setup, nonneg_tags=NONNEG)
        ctx.functions.append(name)
        report(ctx, m, mon, 1)


def report(ctx, m, mon, n):
    if mon.rets == 0:
        ctx.violation(mon.name + '/nothing', mon.name + ': no path does what it is for', short(m.loc(m.funcs[mon.name].blocks[m.funcs[mon.name].order[0]].ins[0])))
    ctx.obligation(not mon.bad and mon.rets > 0, n * max(1, mon.rets + mon.fails))
    for what, (st, x) in sorted(mon.bad.items()):
        ctx.violation(mon.name + '/' + what.replace(' ', '_'), mon.name + ': ' + what, short(m.loc(x)), trace_of(st))
