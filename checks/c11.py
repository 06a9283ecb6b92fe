"""C11: all ranks make the same collective calls, and the operations return the same result on all of them."""
from sa import build, summary
from sa.uniform import Uniform, iscomm, DET, ALLOC, COMM
from sa.ctx import short
from .lib import callees, reaching
from .c02 import field_off
from .c03 import isblock
from .c10 import COLLECTIVE


def struct(t):
    u = t[1].get() if t and t[0] == 'ptr' else None
    return u[1] if u and u[0] == 'struct' else None


def deterministic(m):
    """functions whose results and effects depend on their arguments and the memory these lead to only"""
    good = set(m.funcs)
    ch = True
    while ch:
        ch = False
        for n in sorted(good):
            cs = callees(m.funcs[n])
            bad = [c for c in cs if c not in good and c not in DET and c not in ALLOC and c not in ('_big_file_raise', 'strerror', '__errno_location') and not c.startswith('llvm.')
                   and c not in m.globals]
            if bad:
                good.discard(n)
                ch = True
    return good


def constants(m):
    """functions that always return the same constant"""
    out = set()
    ch = True
    while ch:
        ch = False
        for n, f in m.funcs.items():
            if n in out or f.ret[0] != 'int':
                continue
            vals = set()
            for b in f.order:
                t = f.blocks[b].ins[-1]
                if t.op == 'ret':
                    v = t.a[0]
                    d = next((x for x in f.insns() if v[0] == 'reg' and x.res == v[1]), None)
                    if d is not None and d.op == 'call' and d.extra['callee'][0] == 'glob' and d.extra['callee'][1] in out:
                        v = ('call', d.extra['callee'][1])
                    vals.add(v)
            if len(vals) == 1 and next(iter(vals))[0] in ('c', 'call'):
                out.add(n)
                ch = True
    return out


def analyse(ctx, only=None):
    """only: the kind of problem that counts"""
    raw = ctx.raw()
    coll = reaching(raw, COLLECTIVE)
    hk = build.header_functions()
    from .c09 import agreeing
    agree = agreeing(raw)
    bc = {n for n in raw.funcs if {'_big_block_pack', '_big_block_unpack', 'MPI_Bcast'} <= callees(raw.funcs[n])}
    own = {n for n in coll if (n in hk and not n.startswith(('MPIU_', '_MPIU_', 'mpiu_'))) or n in agree | bc}
    keep = own | {n for n in raw.funcs if n in hk and n not in coll}
    P = ctx.program(mpi=True, keep=keep, passes='always-inline,function(sroa,early-cse,jump-threading,simplifycfg,sccp,adce)')
    m = P[0]
    S = summary.Summaries(m)
    det = deterministic(m)
    con = constants(m)
    cells = {f: field_off(m, 'BigBlock', f) for f in ('dirty', 'fchecksum', 'attrset')}
    names = sorted(own & set(m.funcs))
    if not agree or not bc or len(names) < 10:
        raise build.AnalysisError('the operations of the MPI layer were not found: %s' % names)

    def one(ctx, n):
        f = m.funcs[n]
        ts = m.arg_types(f)
        records = any(struct(t) == 'BigRecordType' for t in ts)
        local, init = set(), {}
        for i, t in enumerate(ts):
            if struct(t) == 'BigArray' or records and t[0] == 'ptr' and t[1].get() is None:
                local.add(i)
            if isblock(t):
                init[(('arg', i), (), cells['dirty'])] = None
                init[(('arg', i), (cells['fchecksum'],), 'def')] = None
                init[(('arg', i), (cells['attrset'],), 'def')] = None
        u = Uniform(m, S, f, local=local, initial=init, collective=own, agree=agree, whole=bc, det={k: True for k in det}, consts=con,
                    comm={i for i, t in enumerate(ts) if iscomm(t)})
        # what every rank passes for itself
        for i, (t, nm) in enumerate(f.args):
            if n in agree and i == 0 or records and any(struct(q) is None and q[0] == 'ptr' and q[1].get() is None for q in ts) and t == ('int', 64) and 'size' in nm:
                u.L[nm] = None
        u.run()
        ctx.functions.append(n)
        problems = {k: x for k, x in u.problems.items() if only is None or only in k[0]}
        ctx.obligation(not problems, u.calls + 1 if only is None else 1)
        ctx.sample({'function': n, 'collective_calls': u.calls, 'differing_branches': sum(1 for b in u.live if len(u.succ[b]) > 1 and u.cond(b) is None)})
        ctx.cov['collective_calls'] = u.calls
        for (what, uid), x in sorted(problems.items()):
            ctx.violation('%s/%s' % (n, what.replace(' ', '_')), 'in %s: %s' % (n, what), short(m.loc(x)))
    ctx.pmap(one, names)


def check(ctx):
    ctx.explanation = ('Uniformity dataflow over LLVM IR: every value, memory cell and branch of the MPI layer is classified by the largest communicator on whose ranks it is certainly the same. A collective call '
                       'under a branch that can go different ways on ranks of its communicator is a violation unless both ways make the same calls, and so is a count, root, type or result that can differ.')
    analyse(ctx)
    ctx.assumptions = ['all ranks pass the same arguments, except for their part of the data, its size and what only describes it', 'settings such as the aggregation threshold are the same on all ranks',
                       'memory allocation and MPI calls succeed', 'a block is the same on all ranks after the operations that broadcast it, except for the modification mark, checksums and attributes']
