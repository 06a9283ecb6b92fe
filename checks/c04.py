"""C04: a data file that exists is only ever truncated by creating its block anew."""
from sa import build, terms as T
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, c_ge, c_not, Monitor
from sa.ctx import short
from .lib import callees, reaching, trace_of, success
from .common import NONNEG
from .c02 import field_off
from .c03 import modes, isblock, WRITES, OPENERS

DESTROY = WRITES - {'mkdir', 'mkdirat', 'utimes', 'utime', 'utimensat', 'futimens'}


class Opener(Monitor):
    """how a function that calls fopen derives the path and the mode from its arguments"""

    def __init__(self, m, name):
        self.m = m
        self.name = name
        self.mode = set()
        self.names = {}       # kind of name -> states seen
        self.unknown = []

    def initial(self):
        return ()

    def on_call(self, eng, st, x, name, args):
        if name in ('sprintf', 'snprintf') and len(args) > 2:
            for a in args[2:]:
                t = as_atom(a)
                if t is not None and t[0] == 'arg' and t[2] == 'i':
                    st.mon = ('printed', t[1])
        elif name in eng.mod.funcs and st.mon == ():
            # a path built from a constant name
            for a in args:
                c = eng.models.conststr(eng, a)
                if c is not None:
                    st.mon = ('const', c.decode('latin1'))
        if name in OPENERS:
            mo = as_atom(args[OPENERS[name]])
            if mo is not None and mo[0] == 'arg':
                self.mode.add(mo[1])
            else:
                self.unknown.append(x)
            self.names.setdefault(st.mon, []).append(st.copy())
        return None


class Trunc(Monitor):
    def __init__(self, m, name, openers, creates, may_create):
        self.m = m
        self.name = name
        self.openers = openers
        self.creates = creates
        self.may_create = may_create
        self.bad = {}
        self.sites = {}
        self.nf = field_off(m, 'BigBlock', 'Nfile')
        self.blocks = [i for i, t in enumerate(m.arg_types(m.funcs[name])) if isblock(t)]
        self.entry = []

    def initial(self):
        return ()

    def note(self, st, x, what):
        l = self.m.loc(x)
        self.bad.setdefault((l[0][2] if l else '?', what), (st, x))

    def on_call(self, eng, st, x, name, args):
        if name in self.openers and name != self.name:
            modearg, idarg, special = self.openers[name]
            self.sites[x.uid] = 'open'
            fid = args[idarg]
            if any(fid == const(c) for c in special):
                return None
            ms = modes(eng, args[modearg])
            if ms is None:
                self.note(st, x, 'opens a data file with a mode that is not a constant')
                return None
            for mo in sorted(mm.decode().replace('b', '') for mm in ms):
                if mo in ('r', 'r+'):
                    continue
                if mo[:1] != 'w':
                    self.note(st, x, 'opens a data file with mode %s' % mo)
                elif self.may_create:
                    continue
                elif not any(eng.implies_ge(st, sub(fid, n)) for n in self.entry):
                    self.note(st, x, 'truncates a data file that the block already had')
        elif name in self.creates and name != self.name:
            self.sites[x.uid] = 'create'
            if not self.may_create and st.mon != ('w+',):
                self.note(st, x, 'creates a block anew without having been asked to')
        return None

    def on_cond(self, eng, st, x, c, val):
        # "w+" asks for new blocks
        if isinstance(c, tuple) and c[0] in ('eq', 'not'):
            neg = c[0] == 'not'
            p = c[1][1] if neg else c[1]
            a = as_atom(p) if is_poly(p) else None
            if a is not None and a[0] == 'pure' and a[1] in ('strcmp', 'strncmp'):
                strs = [eng.models.conststr(eng, v) for v in a[2] if is_poly(v)]
                if b'w+' in strs:
                    if (val != neg):
                        st.mon = ('w+',)
                    elif st.mon == ('w+',):
                        st.mon = ()
        return True


def find_openers(ctx, raw, report=False):
    """the functions that open files: which argument is the mode, which the file number, and which numbers are not data files"""
    direct = {n for n, f in raw.funcs.items() if callees(f) & set(OPENERS)}
    P = ctx.program(mpi=True, keep=set(raw.funcs))
    openers = {}
    for n in sorted(direct):
        mon = Opener(P[0], n)
        ctx.engine(P, n, mon, nonneg_tags=NONNEG)
        if report:
            ctx.functions.append(n)
        printed = {k[1] for k in mon.names if k and k[0] == 'printed'}
        if mon.unknown and not mon.mode:
            # opens with its own modes: judged where it is inlined
            if not report:
                continue
            ctx.obligation(False)
            ctx.violation('%s/mode' % n, '%s opens files with a mode of its own' % n, short(P[0].loc(mon.unknown[0])))
            continue
        if len(mon.mode) != 1 or len(printed) != 1 or mon.unknown:
            raise build.AnalysisError('cannot tell how %s derives path and mode (%s)' % (n, sorted(map(str, mon.names))))
        idarg = printed.pop()
        special = set()
        for k, sts in mon.names.items():
            if k and k[0] == 'const':
                for c in range(-8, 0):
                    if any(st_eq(mon, P, s, idarg, c) for s in sts):
                        special.add(c)
        openers[n] = (mon.mode.pop(), idarg, special)
        if not report:
            continue
        ctx.sample({'opener': n, 'mode_argument': openers[n][0], 'file_number_argument': idarg, 'numbers_that_are_not_data': sorted(special)})
        ctx.obligation(True)
    return openers


def check(ctx):
    ctx.explanation = ('Every call that opens a data file is found on abstract paths of every function that can reach one: the mode must be a constant, "r" or "r+", or "w" only '
                       'for a file number that is provably not below the number of files the block had at entry (growing) or in a function that creates the block. '
                       'Creating functions are called from nowhere else, except under the mode "w+". No function of the library can reach a call that removes, renames or truncates a file.')
    raw = ctx.raw()
    direct = {n for n, f in raw.funcs.items() if callees(f) & set(OPENERS)}
    low = {n for n, f in raw.funcs.items() if callees(f) & {'open', 'open64', 'openat', 'creat', '*indirect*'} and callees(f) & {'open', 'open64', 'openat', 'creat'}}
    hk = build.header_functions()
    creates = {n for n in raw.funcs if n in ('_big_block_create', '_big_block_create_internal', 'big_file_create_block', 'big_file_mpi_create_block', '_big_file_mpi_create_block')}
    if not direct or len(creates) < 4:
        raise build.AnalysisError('file opening functions not found')
    openers = find_openers(ctx, raw, report=True)
    for n in sorted(low):
        ctx.violation('%s/open' % n, '%s opens files with a system call' % n, None)
    # 2. every function that can reach an opener
    for n, f in sorted(raw.funcs.items()):
        ctx.functions.append(n)
        ctx.obligation(not callees(f) & DESTROY)
        for x in f.insns():
            if x.op == 'call' and x.extra['callee'][0] == 'glob' and x.extra['callee'][1] in DESTROY:
                ctx.violation('%s/%s' % (n, x.extra['callee'][1]), '%s calls %s' % (n, x.extra['callee'][1]), short(raw.loc(x)))
    keep = (hk & set(raw.funcs)) - {'_big_block_grow_internal', '_big_block_open'} | set(openers) | creates
    P = ctx.program(mpi=True, keep=keep)
    m = P[0]
    roots = []
    for n in sorted(keep & set(m.funcs)):
        cs = callees(m.funcs[n])
        if n not in openers and cs & (set(openers) | creates):
            roots.append(n)

    def one(ctx, n):
        mon = Trunc(m, n, openers, creates, n in creates)

        def setup(e, st):
            for i in mon.blocks:
                mon.entry.append(e.loadloc(st, ('arg', i, 'p'), const(mon.nf), 4, 'i32'))
        ctx.engine(P, n, mon, setup=setup, nonneg_tags=NONNEG)
        ctx.functions.append(n)
        ctx.obligation(not mon.bad, len(mon.sites))
        for k in set(mon.sites.values()):
            ctx.cov['sites_' + k] = list(mon.sites.values()).count(k)
        ctx.sample({'function': n, 'sites': len(mon.sites), 'creates': n in creates})
        for (fn, what), (st, x) in sorted(mon.bad.items()):
            ctx.violation('%s/%s/%s' % (n, fn, what.replace(' ', '_')), '%s: %s' % (n, what), short(m.loc(x)), trace_of(st))
    ctx.pmap(one, roots)
    ctx.assumptions = ['the Nfile argument and field are not negative', 'creating a block over an existing one replaces it (that is what it is for)']


def st_eq(mon, P, st, idarg, c):
    from sa.engine import Engine
    v = atom(('arg', idarg, 'i'))
    e = mon_engine(P, mon)
    return e.decide(st, c_eq(add(v, const(-c)))) is True


_me = {}


def mon_engine(P, mon):
    from sa.engine import Engine
    k = mon.name
    if k not in _me:
        _me[k] = Engine(P[0], P[0].funcs[k], P[1], mon, nonneg_tags=NONNEG)
    return _me[k]
