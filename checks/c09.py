"""C09: every data file of a new block, or of the part a block grows by, is created; under MPI the shares of the ranks cover all of them."""
from sa import build, terms as T
from sa.terms import const, atom, add, sub, mul, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, Monitor
from sa.ctx import short
from .lib import callees, success, trace_of, path_edge
from .common import NONNEG
from .c02 import field_off
from .c03 import modes, isblock, OPENERS
from .c04 import find_openers


RANK, SIZE = 'MPI_Comm_rank', 'MPI_Comm_size'


def tasks(v):
    """the rank and size terms in a value"""
    r = sorted({a for a in T.atomset(v) if a[0] == 'pure' and a[1] == RANK}, key=repr)
    s = sorted({a for a in T.atomset(v) if a[0] == 'pure' and a[1] == SIZE}, key=repr)
    return r, s


def at(v, rank, value):
    """v with the rank replaced; exact divisions carried out; numbers of files fit an int"""
    def f(a):
        if a == rank:
            return value
        if a[0] == 'tr':
            return at(a[2], rank, value)
        if a[0] == 'op' and a[1] in ('udiv', 'sdiv'):
            p, d = at(a[2], rank, value), at(a[3], rank, value)
            if is_const(p) and p[0] == 0:
                return const(0)
            da = as_atom(d)
            if da is not None and p[0] == 0 and all(da in m for m, k in p[1]):
                out = []
                for m, k in p[1]:
                    m = list(m)
                    m.remove(da)
                    out.append((tuple(m), k))
                r = const(0)
                for m, k in out:
                    t = const(k)
                    for b in m:
                        t = mul(t, atom(b))
                    r = add(r, t)
                return r
            if is_const(d) and d[0] == 1:
                return p
            return atom(a[:2] + (p, d) + a[4:])
        return None
    return T.subst(v, f)


class Files(Monitor):
    """ghosts: first = number of the first file created, next = number after the last one, counted from `origin`"""

    def __init__(self, m, name, opener, grow, relative):
        self.m = m
        self.name = name
        self.opener = opener
        self.grow = grow
        self.relative = relative
        self.bad = {}
        self.rets = 0
        self.opens = 0
        self.nf = field_off(m, 'BigBlock', 'Nfile')
        self.bn = field_off(m, 'BigBlock', 'basename')
        self.blk = [i for i, t in enumerate(m.arg_types(m.funcs[name])) if isblock(t)][0]
        self.ends = []

    def setup(self, eng, st):
        self.old = eng.loadloc(st, ('arg', self.blk, 'p'), const(self.nf), 4, 'i32') if self.grow else const(0)
        eng.addfact(st, self.old)
        self.origin = self.old if self.relative else const(0)
        self.asked = None
        for i, (t, n) in enumerate(eng.fn.args):
            if t == ('int', 32):
                self.asked = atom(('arg', i, 'i'))
                eng.addfact(st, self.asked)

    def initial(self):
        return (('_path', ()),)

    def get(self, st, k):
        return dict(st.mon).get(k)

    def put(self, st, **kw):
        d = dict(st.mon)
        d.update(kw)
        st.mon = tuple(sorted(d.items()))

    def key(self, eng, st):
        # the first rank often does more than the others
        z = None
        for f in st.facts | st.ne:
            for m, k in f[1]:
                for a in m:
                    if a[0] == 'pure' and a[1] == RANK:
                        z = eng.decide(st, c_eq(atom(a)))
                        if z is not None:
                            return st.mon[0], len(st.mon), z
        return st.mon[0], len(st.mon), z

    def on_edge(self, eng, st, src, dst):
        self.put(st, _path=path_edge(eng, self.get(st, '_path'), src, dst))

    def join(self, eng, A, B):
        return A.mon[:1]

    def ghosts(self, st):
        return dict(st.mon[1:])

    def setghosts(self, st, values):
        self.put(st, **values)

    def note(self, st, x, what):
        self.bad.setdefault(what, (st, x))

    def eq(self, eng, st, a, b):
        return a == b or eng.decide(st, c_eq(sub(a, b))) is True

    def on_call(self, eng, st, x, name, args):
        if name == self.opener[0]:
            ms = modes(eng, args[self.opener[1]])
            fid = args[self.opener[2]]
            rel = sub(fid, self.origin)
            if any(fid == const(c) for c in self.opener[3]) or ms is None or any(mo[:1] != b'w' for mo in ms):
                return None
            self.opens += 1
            base = eng.loadloc(st, ('arg', self.blk, 'p'), const(self.bn), 8, 'p')
            if not any(self.eq(eng, st, a, base) for a in args):
                self.note(st, x, 'creates a file that is not in the directory of the block')
            nxt = self.get(st, 'next')
            if nxt is None:
                self.put(st, first=rel, next=add(rel, const(1)))
                return None
            for s in [atom(a) for f in st.facts for m, k in f[1] for a in m if a[0] == 'pure' and a[1] == SIZE][:1]:
                step = add(s, const(-1))
                if self.eq(eng, st, rel, add(nxt, step)):
                    self.put(st, next=add(rel, const(1)))
                    self.strided = s
                    return None
            if not self.eq(eng, st, rel, nxt):
                self.note(st, x, 'does not create the files one after the other')
            self.put(st, next=add(rel, const(1)))
        return None

    strided = None
    agree = ()

    def after_call(self, eng, st, x, name, args):
        if name in self.agree and x.res in st.env and eng.decide(st, c_eq(args[0])) is False:
            # an error of this rank is an error of all (see C10)
            st.ne = st.ne | {st.env[x.res]}
        return [st]

    def on_ret(self, eng, st, x, v):
        if not success(eng, st, x.fn, v):
            return
        for i, (t, n) in enumerate(eng.fn.args):
            if t[0] == 'ptr' and self.eq(eng, st, atom(('arg', i, 'p')), atom(('glob', 'ompi_mpi_comm_null'))):
                # a process that does not take part
                return
        self.rets += 1
        self.ends.append((eng, st.copy(), x))

    def counted(self, st, k):
        v = self.get(st, k)
        return v and add(v, self.origin)

    def judge(self):
        """the files created at each successful return, once the shares are known"""
        shares = {f for f in {self.counted(st, 'first') for e, st, x in self.ends} - {None} if tasks(f)[0]}
        for eng, st, x in self.ends:
            first, nxt = self.counted(st, 'first'), self.counted(st, 'next')
            now = eng.loadloc(st, ('arg', self.blk, 'p'), const(self.nf), 4, 'i32')
            totals = [now] + ([add(self.old, self.asked)] if self.grow else [])
            ranks = [atom(a) for f in st.facts | st.ne for m, k in f[1] for a in m if a[0] == 'pure' and a[1] == RANK]
            if not shares and not ranks:
                # one process creates all
                if nxt is None:
                    if not any(eng.implies_ge(st, sub(self.old, t)) for t in totals):
                        self.note(st, x, 'succeeds without having created the files')
                elif not self.eq(eng, st, first, self.old):
                    self.note(st, x, 'does not begin with the first new file')
                elif not any(eng.implies_ge(st, sub(nxt, t)) for t in totals):
                    self.note(st, x, 'does not create the last files')
                continue
            ok = False
            why = 'the files created by the ranks are not all of the new files'
            for F in shares:
                r, s = tasks(F)
                if len(r) != 1:
                    continue
                r = r[0]
                if self.strided is not None:
                    ok = ok or self.stride(eng, st, F, r, nxt, totals)
                    continue
                if len(s) != 1:
                    continue
                z = eng.decide(st, c_eq(atom(r))) is True
                lo = at(F, r, const(0)) if z else at(F, r, atom(r))
                hi = at(F, r, const(1)) if z else at(F, r, add(atom(r), const(1)))
                if not self.eq(eng, st, at(F, r, const(0)), self.old):
                    why = 'no rank begins with the first new file'
                    continue
                end = at(F, r, atom(s[0]))
                if not any(self.eq(eng, st, end, at(t, r, atom(r))) for t in totals):
                    why = 'no rank ends with the last new file'
                    continue
                if nxt is None:
                    ok = ok or self.ge(eng, st, lo, hi)
                    why = 'a rank leaves out its share of the files'
                else:
                    ok = ok or self.eq(eng, st, at(first, r, atom(r)), lo) and self.ge(eng, st, nxt, hi)
                    why = 'a rank does not create all files up to the share of the next one'
            if not ok:
                self.note(st, x, why)

    def ge(self, eng, st, a, b):
        return eng.implies_ge(st, sub(a, b)) or eng.implies_ge(st, self.wide(sub(a, b))) or any(self.same(f, sub(a, b)) for f in st.facts)

    def wide(self, v):
        return at(v, None, None)

    def same(self, f, v):
        f = self.wide(f)
        return f[1] == self.wide(v)[1] and f[0] <= v[0]

    def stride(self, eng, st, F, r, nxt, totals):
        if not self.eq(eng, st, at(F, r, const(0)), self.old):
            return False
        if not self.eq(eng, st, sub(at(F, r, const(1)), at(F, r, const(0))), const(1)):
            return False
        if nxt is None:
            return any(eng.implies_ge(st, sub(F, t)) for t in totals)
        return any(eng.implies_ge(st, sub(add(nxt, add(self.strided, const(-1))), t)) for t in totals)


def agreeing(raw):
    """functions by which all ranks learn whether one of them failed"""
    out = set()
    for n, f in raw.funcs.items():
        if len(f.args) == 2 and f.args[0][0] == ('int', 32) and f.ret == ('int', 32) and 'MPI_Allreduce' in callees(f):
            out.add(n)
    return out


def check(ctx):
    ctx.explanation = ('Every call that opens a file for writing is followed on abstract paths of the four functions that create files. The file numbers have to follow one another; a single process begins '
                       'with the first new file and ends with the last. Under MPI the first number is a function F(rank), read off the code: F(0) is the first new file, F(number of ranks) is the number of '
                       'files, and rank r goes on at least to F(r+1), so the shares cover all. Ranks that fail are reported by the agreement function C10 is about.')
    raw = ctx.raw()
    names = [n for n in ('_big_block_create', 'big_block_grow', '_big_block_mpi_create', 'big_block_mpi_grow')]
    for n in names:
        if n not in raw.funcs:
            raise build.AnalysisError('%s not found' % n)
    agree = agreeing(raw)
    openers = find_openers(ctx, raw)
    if len(openers) != 1:
        raise build.AnalysisError('expected one function that opens files, found %s' % sorted(openers))
    keep = {n for n in raw.funcs if n in build.header_functions()} | {'_big_block_create_internal', '_big_block_grow_internal', 'big_block_mpi_broadcast', '_big_block_close_internal'} | agree | set(openers) | set(names)
    P = ctx.program(mpi=True, keep=keep)
    m = P[0]

    def one(ctx, name):
        (op, (modearg, idarg, special)), = openers.items()
        # loops count from 0 or from the old number of files: the numbers are followed either way
        for relative in (False, True) if 'grow' in name else (False,):
            mon = Files(m, name, (op, modearg, idarg, special), 'grow' in name, relative)
            mon.agree = agree
            ctx.engine(P, name, mon, setup=mon.setup, nonneg_tags=NONNEG)
            mon.judge()
            if not mon.bad:
                break
        ctx.functions.append(name)
        ctx.obligation(not mon.bad and mon.opens > 0 and mon.rets > 0, mon.opens + 3 * mon.rets)
        ctx.sample({'function': name, 'opens': mon.opens, 'successful_returns': mon.rets,
                    'first_file': sorted({T.show(mon.counted(st, 'first'))[:160] for e, st, x in mon.ends if mon.get(st, 'first') is not None})})
        if not mon.opens:
            ctx.violation(name + '/nothing', '%s creates no files' % name, None)
        for what, (st, x) in sorted(mon.bad.items()):
            ctx.violation('%s/%s' % (name, what.replace(' ', '_')), '%s: %s' % (name, what), short(m.loc(x)), trace_of(st))
    ctx.pmap(one, names)
    ctx.assumptions = ['the numbers of files and ranks are not negative and their product fits a size_t', 'all ranks of the communicator call the function with the same arguments', 'MPI calls succeed']
