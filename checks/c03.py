"""C03: opening, reading and closing never change anything on disk."""
from sa import terms as T
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, c_not, Monitor
from sa.ctx import short
from .lib import callees, fork_ret, reaching, success, trace_of, FILE_PRIMS
from .common import NONNEG
from .c02 import field_off

READERS = ['big_file_open', 'big_file_list', 'big_file_open_block', 'big_file_close', '_big_block_open', 'big_block_read', 'big_block_read_simple',
           'big_block_seek', 'big_block_seek_rel', 'big_block_eof', 'big_block_get_attr', 'big_block_lookup_attr', 'big_block_list_attrs',
           'big_file_read_records', 'big_file_mpi_open', 'big_file_mpi_open_block', 'big_file_mpi_close', 'big_block_mpi_read',
           'big_file_mpi_read_records']
CLEAN = ['big_block_flush', 'big_block_close', 'big_block_mpi_flush', 'big_block_mpi_close']
CONTRACTS = set(READERS + CLEAN)
WRITES = {'mkdir', 'mkdirat', 'rmdir', 'unlink', 'remove', 'rename', 'truncate', 'ftruncate', 'truncate64', 'ftruncate64', 'creat', 'utimes', 'utime', 'chmod', 'chown',
          'symlink', 'link', 'mkstemp', 'tmpfile', 'write', 'pwrite', 'system', 'popen', 'mknod', 'unlinkat', 'renameat', 'utimensat', 'futimens', 'execve',
          'execvp', 'fork'}
OPENERS = {'fopen': 1, 'fopen64': 1, 'freopen': 1, 'fdopen': 1}


def modes(eng, p):
    """the constant strings a pointer may designate, or None"""
    c = eng.models.conststr(eng, p)
    if c is not None:
        return {c}
    b, o = base_off(p)
    if b is not None and b[0] == 'phi' and is_const(o) and o[0] == 0:
        out = set()
        for l in eng.leaves(b):
            c = eng.models.conststr(eng, atom(l))
            if c is None:
                return None
            out.add(c)
        return out or None
    return None


def isblock(t):
    u = t[1].get() if t and t[0] == 'ptr' else None
    return bool(u) and u[0] == 'struct' and u[1] == 'BigBlock'


class Effects(Monitor):
    def __init__(self, m, name, clean):
        self.m = m
        self.name = name
        self.clean = clean
        self.bad = {}
        self.sites = set()
        self.hd = field_off(m, 'BigBlock', 'dirty')
        self.ha = field_off(m, 'BigBlock', 'attrset')
        self.ad = field_off(m, 'BigAttrSet', 'dirty') or 0
        self.blocks = [i for i, t in enumerate(m.arg_types(m.funcs[name]))
                       if isblock(t)]
        self.initial_flags = None

    def initial(self):
        return ()

    def flags(self, eng, st, ptrs=None):
        """(what, location, value) of the two modified-flags of each block"""
        out = []
        for p in ptrs or [atom(('arg', i, 'p')) for i in self.blocks]:
            b, o = base_off(p)
            if b is None:
                continue
            out.append(('header', (b, add(o, const(self.hd))), eng.loadloc(st, b, add(o, const(self.hd)), 4, 'i32')))
            a, o = base_off(eng.loadloc(st, b, add(o, const(self.ha)), 8, 'p'))
            if a is not None:
                out.append(('attributes', (a, add(o, const(self.ad))), eng.loadloc(st, a, add(o, const(self.ad)), 4, 'i32')))
        return out

    def contract(self, eng, st, x, name, args):
        """a call to an entry point that is analysed on its own"""
        ptrs = [args[i] for i, t in enumerate(self.m.arg_types(self.m.funcs[name])) if isblock(t) and i < len(args)]
        pre = self.flags(eng, st, ptrs)
        if name in CLEAN:
            for what, l, d in pre:
                if eng.decide(st, c_eq(d)) is not True:
                    self.note(st, x, 'calls %s on a block whose %s may be marked as modified' % (name, what))
        out = []
        for s in eng.models.call(eng, st, x, name, args):
            if name in CLEAN or name == 'big_block_seek':
                out.append(s)
            elif 'open' in name:
                a, b = fork_ret(eng, s, x, const(0), const(-1))
                for what, (base, o), d in self.flags(eng, a, ptrs):
                    eng.store(a, add(atom(base), o), 4, const(0), ('st', x.fn.name, x.uid))
                b.mon = ('failed',)     # that failures are reported is another property's business
                out += [a, b]
            else:
                for what, (base, o), d in pre:
                    if eng.loadloc(s, base, o, 4, 'i32') != d:
                        eng.store(s, add(atom(base), o), 4, d, ('st', x.fn.name, x.uid))
                out.append(s)
        return out

    def received(self, st, d):
        if st.mon != ('rank',):
            return False
        a = as_atom(d)
        return a is not None and a[0] in ('ld', 'mod', 'unk', 'phi')

    def note(self, st, x, what):
        l = self.m.loc(x)
        self.bad.setdefault((l[0][2] if l else '?', what), (st, x))

    def on_call(self, eng, st, x, name, args):
        if name in CONTRACTS and name in self.m.funcs:
            self.sites.add(x.uid)
            return self.contract(eng, st, x, name, args)
        if name in OPENERS:
            self.sites.add(x.uid)
            ms = modes(eng, args[OPENERS[name]])
            if ms is None or any(mm.rstrip(b'b') != b'r' for mm in ms):
                self.note(st, x, 'opens a file with mode %s' % (','.join(sorted(mm.decode() for mm in ms)) if ms else 'unknown'))
        elif name in ('open', 'open64', 'openat'):
            self.sites.add(x.uid)
            fl = args[2 if name == 'openat' else 1]
            if not is_const(fl) or fl[0] & 3 or fl[0] & 0o1100:
                self.note(st, x, 'opens a file for writing')
        elif name in WRITES:
            self.sites.add(x.uid)
            self.note(st, x, 'calls %s' % name)
        return None

    def on_cond(self, eng, st, x, c, val):
        if self.name.startswith('big_file_mpi') and st.mon != ('failed',):
            # is this a path of a rank other than the root?
            for r in T.atoms_of(c[1]) if isinstance(c, tuple) and c[0] == 'eq' else ():
                if r[0] == 'pure' and r[1] == 'MPI_Comm_rank' and c[1][0] == 0:
                    st.mon = () if val else ('rank',)
                elif r == ('glob', 'ompi_mpi_comm_null') and val:
                    st.mon = ('none',)
        return True

    def after_call(self, eng, st, x, name, args):
        if name in ('MPI_Reduce', 'MPI_Allreduce') and len(args) > 2:
            # every rank contributes the flag of its copy of the same block: none is set
            b, o = base_off(args[0])
            if b is not None and eng.loctag(b, o) == ('BigBlock', 'dirty'):
                v = eng.loadloc(st, b, o, 4, 'i32')
                if eng.decide(st, c_eq(v)) is True:
                    eng.store(st, args[1], 4, const(0), ('st', x.fn.name, x.uid))
        return [st]

    def on_ret(self, eng, st, x, v):
        if self.clean or self.name.endswith('close'):
            return
        opening = 'open' in self.name
        if st.mon in (('none',), ('failed',)) or opening and not success(eng, st, x.fn, v):
            return
        fl = self.flags(eng, st)
        for i, (what, l, d) in enumerate(fl):
            if opening and self.name.startswith('big_file_mpi') and self.received(st, d):
                # a copy of the root's block, whose flags are checked on the root's paths
                ok = eng.decide(st, c_eq(d)) is not False
            elif opening:
                ok = eng.decide(st, c_eq(d)) is True
            else:
                ok = d == self.initial_flags[i][2] if i < len(self.initial_flags) else True
            if not ok:
                self.note(st, x, 'leaves the %s marked as modified' % what)


def check(ctx):
    ctx.explanation = ('Effect analysis on abstract paths: from each read-only entry point (everything that touches a file inlined into it) no path may reach '
                       'a call that can change the file system, and the modified-flags of the block are unchanged (clear after opening); '
                       'flush and close with clear flags reach no such call either.')
    from sa import build
    raw = ctx.raw()
    mpi = {c for f in raw.funcs.values() for c in callees(f) if c.startswith('MPI_')}
    pure = {n for n, f in raw.funcs.items() if n not in reaching(raw, FILE_PRIMS | mpi) and len(f.order) > 1}
    names = [n for n in READERS + CLEAN if n in raw.funcs]
    missing = [n for n in READERS[:14] + CLEAN[:2] if n not in raw.funcs]
    if missing:
        raise build.AnalysisError('functions not found: %s' % missing)

    def one(ctx, n):
        P = ctx.program(mpi=True, keep=pure | CONTRACTS)
        m = P[0]
        mon = Effects(m, n, n in CLEAN)

        def setup(e, st):
            fl = mon.flags(e, st)
            if n in CLEAN:
                for w, l, d in fl:
                    e.assume(st, c_eq(d), True)
            mon.initial_flags = fl
        ctx.engine(P, n, mon, setup=setup, nonneg_tags=NONNEG, split_returns=True)
        ctx.functions.append(n)
        ctx.obligation(not mon.bad, 1 + len(mon.sites))
        ctx.cov['file_system_calls_reached'] = ctx.cov.get('file_system_calls_reached', 0) + len(mon.sites)
        ctx.sample({'entry': n, 'opens': len(mon.sites), 'effects': sorted(k[1] for k in mon.bad)})
        for (fn, what), (st, x) in sorted(mon.bad.items()):
            ctx.violation('%s/%s/%s' % (n, fn, what.replace(' ', '_')), '%s: %s' % (n, what), short(m.loc(x)), trace_of(st))
    ctx.pmap(one, names)
    ctx.assumptions = ['memory allocation succeeds', 'all ranks hold copies of the same block']
