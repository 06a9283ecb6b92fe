"""C10: a failure on any rank is reported by the MPI operation on every rank."""
from sa import build, terms as T
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, Monitor
from sa.ctx import short
from . import errprop
from .lib import callees, reaching, trace_of, path_edge
from .common import NONNEG
from .c09 import agreeing, RANK

COLLECTIVE = {'MPI_Allreduce', 'MPI_Reduce', 'MPI_Bcast', 'MPI_Barrier', 'MPI_Gather', 'MPI_Gatherv', 'MPI_Scatter', 'MPI_Scatterv', 'MPI_Allgather', 'MPI_Allgatherv',
              'MPI_Alltoall', 'MPI_Alltoallv', 'MPI_Comm_split', 'MPI_Comm_free', 'MPI_Comm_dup', 'MPI_Scan', 'MPI_Exscan', 'MPI_Reduce_scatter'}


def operations(m):
    """the functions of the MPI layer that return a result and talk to the other ranks"""
    coll = reaching(m, COLLECTIVE)
    return sorted(n for n in coll if m.funcs[n].ret == ('int', 32) and not n.startswith(('MPIU_', '_MPIU_', 'MPI_')))


class Errors(errprop.ErrProp):
    def __init__(self, ctx, fallible, agree):
        super().__init__(ctx, fallible)
        self.agree = agree
        self.uses = 0

    def on_call(self, eng, st, x, name, args):
        if name in self.agree:
            # decided before the result of the same call in an earlier round is retired
            self.raised = eng.decide(st, c_eq(args[0])) is False
        return super().on_call(eng, st, x, name, args)

    def after_call(self, eng, st, x, name, args):
        if name in self.agree:
            self.uses += 1
            r = st.env.get(x.res)
            if st.mon[0] is not None or self.raised:
                if r is not None and self.raised:
                    st.ne = st.ne | {r}
                return [st]
            # no failure here; another rank may have failed
            b = st.copy()
            self.setret(eng, st, x, const(0))
            if r is not None:
                b.ne = b.ne | {r}
            self.fail(b, x, name)
            return [st, b]
        if name is None or name.startswith('*'):
            self.site(x, 'an operation called through a pointer')
            if st.mon[0] is None and x.res is not None:
                return self.fork(eng, st, x, 'an operation called through a pointer', const(0), const(-1))
        return super().after_call(eng, st, x, name, args)


class Agree(Monitor):
    """The function by which ranks agree, analysed in three situations of this rank:
    'failed'  its argument is not zero; 'other' its argument is zero, another rank's is not; 'fine' all ranks' arguments are zero.
    A reduction relates its result to what this rank (and, known from 'failed', another one) contributes; when each failing rank contributes
    rank + k and the others less, the maximum names a failing rank (the winner), whose broadcast argument is not zero."""

    def __init__(self, name, case, failed=None):
        self.name = name
        self.case = case
        self.failed = failed        # the analysis of 'failed', for 'other'
        self.bad = {}
        self.rets = 0
        self.contrib = {}           # call -> set of (op, contribution) of this rank
        self.sends = {}             # call -> the winner may broadcast a zero
        self.reductions = 0

    def initial(self):
        return ()

    def setup(self, eng, st):
        self.arg = atom(('arg', 0, 'i'))
        if self.case == 'failed':
            st.ne = st.ne | {self.arg}
        else:
            st.env[eng.fn.args[0][1]] = const(0)

    def rank(self, eng, st, comm):
        return atom(('pure', RANK, (comm,), 'i'))

    def on_call(self, eng, st, x, name, args):
        if name == 'MPI_Allreduce':
            src = args[1] if is_const(args[0]) else args[0]
            b, o = base_off(src)
            self.now = (x.uid, eng.loadloc(st, b, o, 4, 'i32'), args[1], args[4][1][0][0][0][1] if as_atom(args[4]) else None, args[5], is_const(args[2]) and args[2][0] == 1)
        elif name == 'MPI_Bcast':
            b, o = base_off(args[0])
            self.now = (x.uid, eng.loadloc(st, b, o, 4, 'i32'), args[0], args[3], args[4])
        return None

    def after_call(self, eng, st, x, name, args):
        if name == 'MPI_Allreduce':
            uid, v, out, op, comm, one = self.now
            if not one:
                return [st]
            self.reductions += 1
            b, o = base_off(out)
            w = eng.loadloc(st, b, o, 4, 'i32')
            self.contrib.setdefault(uid, set()).add((op, v))
            if op == 'ompi_mpi_op_max':
                eng.addfact(st, sub(w, v))
            elif op == 'ompi_mpi_op_min':
                eng.addfact(st, sub(v, w))
            elif op in ('ompi_mpi_op_lor', 'ompi_mpi_op_bor') and eng.decide(st, c_eq(v)) is False:
                st.ne = st.ne | {w}
            if self.case == 'fine' and is_const(v) and (op in ('ompi_mpi_op_max', 'ompi_mpi_op_min', 'ompi_mpi_op_bor', 'ompi_mpi_op_land', 'ompi_mpi_op_band') or v[0] == 0):
                # every rank contributes the same
                eng.store(st, out, 4, v, ('st', 'fine', x.uid))
            if self.case == 'other':
                cs = self.failed.contrib.get(uid, set())
                if len(cs) == 1:
                    (op2, u), = cs
                    k = sub(u, self.rank(eng, st, comm))
                    low = k if is_const(k) else u if is_const(u) else None
                    if op == 'ompi_mpi_op_max' and low is not None:
                        eng.addfact(st, sub(w, low))
                    elif op == 'ompi_mpi_op_min' and is_const(u):
                        eng.addfact(st, sub(u, w))
                    elif op in ('ompi_mpi_op_lor', 'ompi_mpi_op_bor') and (is_const(u) and u[0] != 0 or u == self.arg):
                        st.ne = st.ne | {w}
            win = self.winner(eng, st, uid, op, v, comm)
            st.mon = st.mon + ((uid, w, win),)
            return [st]
        if name == 'MPI_Bcast':
            uid, v, buf, root, comm = self.now
            me = self.rank(eng, st, comm)
            for ruid, w, k in st.mon:
                if k is None or eng.decide(st, c_eq(sub(add(root, const(k)), w))) is not True:
                    continue
                same = eng.decide(st, c_eq(sub(root, me)))
                if self.case == 'other':
                    if same is True:
                        return []           # the winner is one of the ranks that failed
                    if self.failed.sends.get(uid) is False:
                        self.nonzero(eng, st, buf)
                elif self.case == 'failed':
                    if same is False:
                        self.nonzero(eng, st, buf)
                    elif eng.decide(st, c_eq(v)) is False:
                        self.sends.setdefault(uid, False)
                        self.nonzero(eng, st, buf)
                    else:
                        self.sends[uid] = True
        return [st]

    def winner(self, eng, st, uid, op, v, comm):
        """k when the result of the reduction is rank + k of a rank that failed"""
        cs = self.contrib if self.case == 'failed' else self.failed.contrib if self.failed else {}
        cs = cs.get(uid, set())
        if len(cs) != 1 or op != 'ompi_mpi_op_max':
            return None
        (op2, u), = cs
        k = sub(u, self.rank(eng, st, comm))
        if not is_const(k):
            return None
        if self.case == 'other' and not eng.implies_ge(st, sub(const(k[0] - 1), v)):
            return None
        return k[0]

    def nonzero(self, eng, st, buf):
        b, o = base_off(buf)
        st.ne = st.ne | {eng.loadloc(st, b, o, 4, 'i32')}

    def on_ret(self, eng, st, x, v):
        self.rets += 1
        z = eng.decide(st, c_eq(v))
        if self.case == 'fine':
            if z is not True:
                self.bad.setdefault('reports a failure although no rank failed', (st, x))
        elif z is not False:
            self.bad.setdefault('can return 0 on a rank that failed' if self.case == 'failed' else 'can return 0 when another rank failed', (st, x))


def agreement(ctx, P, name):
    m = P[0]
    f = None
    for case in ('failed', 'other', 'fine'):
        mon = Agree(name, case, f)
        ctx.engine(P, name, mon, setup=mon.setup, nonneg_tags=NONNEG)
        if case == 'failed':
            f = mon
        ctx.obligation(not mon.bad and mon.rets > 0, mon.rets + mon.reductions)
        ctx.sample({'function': name, 'situation': case, 'returns': mon.rets, 'contributions': sorted(T.show(v) for s in mon.contrib.values() for o, v in s)})
        for what, (st, x) in sorted(mon.bad.items()):
            ctx.violation('%s/%s' % (name, what.replace(' ', '_')), '%s: %s' % (name, what), short(m.loc(x)), trace_of(st))
    ctx.functions.append(name)


def check(ctx):
    ctx.explanation = ('Failure-propagation typestate over LLVM IR for every operation of the MPI layer: each call that can fail on this rank, each operation called through a pointer and each report '
                       'of a failure on another rank is forked into its outcomes; after the first failure every return must be provably a failure value. '
                       'By uniformity dataflow, what an operation returns is the same on all ranks of its communicator.')
    raw = ctx.raw()
    ops = operations(raw)
    agree = agreeing(raw)
    if not agree:
        raise build.AnalysisError('no function by which ranks agree on a failure')
    serial = errprop.fallible(raw)
    keep = set(ops) - {n for n in ops if n not in build.header_functions() and n not in agree}
    keep |= {n for n in raw.funcs if n in build.header_functions() and n not in reaching(raw, COLLECTIVE)}
    keep -= {'_big_file_open_a_file'}
    bc = {n for n in raw.funcs if {'_big_block_pack', '_big_block_unpack', 'MPI_Bcast'} <= callees(raw.funcs[n])}
    P = ctx.program(mpi=True, keep=keep | bc | agree)
    m = P[0]
    fall = (serial | (set(ops) & set(m.funcs))) - agree - bc - {'big_file_list', '_big_file_open_a_file', 'big_file_dtype_parse'}
    names = [n for n in ops if n in m.funcs and n in keep and n not in agree | bc]

    def one(ctx, n):
        if n in agree:
            return agreement(ctx, P, n)
        mon = Errors(ctx, fall, agree)
        ctx.engine(P, n, mon, nonneg_tags=NONNEG)
        ctx.functions.append(n)
        ctx.cov['fallible_call_sites'] = len(mon.sites)
        errprop.report(ctx, m, mon, n)
        ctx.sample({'function': n, 'fallible_calls': sorted({nm for nm, x in mon.sites.values()}), 'agreements': mon.uses})
    ctx.pmap(one, names + sorted(agree & set(m.funcs)))
    from . import c11
    c11.analyse(ctx, only='result can differ')
    ctx.assumptions = ['memory allocation and MPI calls succeed', 'all ranks of the communicator call the operation']
