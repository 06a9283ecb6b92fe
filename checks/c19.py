"""C19: in Python the ranks of a parallel operation make the same collective calls and fail together."""
from sa import pyx
from sa.engine import AnalysisError
from . import errprop
from .c16 import modules, where
from .c17 import mentions

COLL = {'allgather', 'allreduce', 'bcast', 'Bcast', 'barrier', 'Barrier', 'Allreduce', 'Allgather', 'gather', 'Gather', 'scatter', 'Scatter', 'reduce', 'Reduce', 'alltoall', 'Alltoall', 'scan', 'exscan', 'Allgatherv', 'Split', 'Dup'}
# the same value on every rank
AGREED = {'allgather', 'allreduce', 'bcast'}
LOCAL = {'array', 'buf', 'value', 'sl', 'index', 'out', 'start', 'length', 'state'}
OWN = {'dirty', 'fchecksum', '_deallocated'}
RANK = ('rank',)


def local(t):
    """may differ from rank to rank"""
    if not isinstance(t, tuple) or not t:
        return False
    if t == RANK or t[0] in ('exc', 'out', 'var', 'own'):
        return True
    if t[0] == 'par' and t[1] in LOCAL:
        return True
    if t[0] == 'attr' and t[2] in OWN:
        return True
    if t[0] == 'coll':
        return t[2] not in AGREED
    if t[0] == 'obj':
        return False
    return any(local(x) for x in t)


class Colls:
    """mon: (events, failing step or None)"""
    forget = True
    turns = True

    def __init__(self, fall, externs):
        self.fall, self.externs = fall, externs
        self.sites = set()

    def initial(self):
        return ((), None)

    def keeps(self, k):
        return not local(k) or mentions(k, RANK)

    def on_attr(self, I, st, o, name, e):
        if name in ('rank', 'Get_rank') and self.comm(o):
            return [(st, RANK)]
        return None

    def comm(self, o):
        return o is not None and (o[0] in ('attr', 'par', 'par?', 'glob') and str(o[-1]) == 'comm' or o[0] == 'par?' and o[1] == 'comm')

    def on_call(self, I, st, o, name, args, kw, e):
        if name == 'Get_rank' and self.comm(o):
            return [(st, RANK)]
        if name in COLL and o is not None and self.comm(o):
            f = I.stack[-1]
            self.sites.add((f.qual, e['line'], name))
            ev, fail = st.mon
            n = len(ev)
            st.mon = (ev + ((name, f.mod.path, f.qual, e['line']),), fail)
            if args:
                st.heap[('collarg', n)] = args[0]
                if name in AGREED and I.truth(args[0], st) is True:
                    # whatever the others say
                    st.facts[('anycoll', n)] = True
            return [(st, ('coll', n, name))]
        if o is None and name in ('any', 'max', 'sum', 'bool') and len(args) == 1 and args[0][0] == 'coll' and args[0][2] in AGREED:
            return [(st, ('anycoll', args[0][1]))]
        if o is None and name in self.externs:
            for i, a in enumerate(args):
                if a[0] == 'ref' and isinstance(a[1], str):
                    st.env[a[1]] = ('out', name, e['line'], i)
            if name in self.fall:
                f = I.stack[-1]
                ev, fail = st.mon
                if fail is not None:
                    if fail[0] == 'big_file_create' and name == 'big_file_open':
                        return [(st, ('c', -1))]
                    return [(st, ('c', 0))]
                t = st.copy()
                t.mon = (ev, (name, f.qual, f.mod.path, e['line']))
                return [(st, ('c', 0)), (t, ('c', -1))]
        return None

    def truth(self, I, v, st):
        if v[0] == 'cmp' and v[1] in ('in', '==') and ('c', True) in v[2:]:
            x = v[3] if v[2] == ('c', True) else v[2]
            if x[0] == 'coll' and x[2] in AGREED and st.facts.get(('anycoll', x[1])):
                st.facts[v] = True
                return True
        return None


def pairs(outs, mon):
    """groups of paths by what all ranks agree on; paths that the same single rank takes do not meet"""
    infos = []
    for kind, st, v in outs:
        uni = {k: b for k, b in st.facts.items() if not local(k)}
        rank = {k: b for k, b in st.facts.items() if mentions(k, RANK)}
        infos.append((kind, st.mon[0], st.mon[1], uni, rank))
    return infos


def single(rank):
    """the path is taken by one rank only"""
    for k, b in rank.items():
        if k == RANK and b is False:
            return True
        if k[0] == 'cmp' and k[1] == '==' and RANK in k[2:] and b is True:
            return True
    return False


def clash(a, b):
    for k, v in a.items():
        if k in b and b[k] != v:
            return True
    return False


def check(ctx):
    ms = modules()
    lib = ctx.raw(mpi=False)
    externs = set(ms[0].externs)
    fall = errprop.fallible(lib) & externs
    mon = Colls(fall, externs)
    n = 0
    for m in ms:
        for f in m.functions():
            I = pyx.Interp(ms, mon)
            I.inline = 12
            I.LIMIT = 40000
            before = len(mon.sites)
            try:
                outs = I.run(f)
            except pyx.PyxError as x:
                raise AnalysisError('%s: %s' % (f.qual, x))
            infos = {}
            for i in pairs(outs, mon):
                infos.setdefault(repr((i[0], [e[0] for e in i[1]], i[3], i[4])), i)
            infos = list(infos.values())
            if not any(i[1] for i in infos):
                continue
            n += 1
            ctx.functions.append('%s:%s' % (m.path, f.qual))
            ctx.sample({'function': f.qual, 'paths': len(outs), 'distinct': len(infos), 'collective_calls': sorted({len(i[1]) for i in infos})})
            bad = {}
            count = 0
            for x in range(len(infos)):
                for y in range(x + 1, len(infos)):
                    a, b = infos[x], infos[y]
                    if clash(a[3], b[3]) or single(a[4]) and single(b[4]) and not clash(a[4], b[4]):
                        continue
                    # one failure at a time: two different failing ranks are two pairs with one that did not fail
                    if a[2] is not None and b[2] is not None:
                        continue
                    count += 1
                    sa, sb = [e[0] for e in a[1]], [e[0] for e in b[1]]
                    who = a[2] or b[2]
                    key = '%s/%s' % (who[1], who[0]) if who else f.qual
                    loc = '%s:%s' % (who[2], who[3]) if who else where(f, f.line)
                    if sa != sb:
                        what = '%s: %s one rank makes the collective calls [%s], another [%s]' % (f.qual, ('when %s fails in %s,' % (who[0], who[1])) if who else 'depending on what only it knows,', ', '.join(sa), ', '.join(sb))
                        bad.setdefault(('order/' + key), (what, loc))
                    elif a[0] != b[0] and sa:
                        what = '%s: %s one rank raises and another returns normally' % (f.qual, ('when %s fails in %s,' % (who[0], who[1])) if who else 'depending on what only it knows,')
                        bad.setdefault(('raise/' + key), (what, loc))
            ctx.obligation(not bad, count)
            for k, (what, loc) in sorted(bad.items()):
                ctx.violation('%s/%s' % (f.qual, k), what, loc)
    if not mon.sites:
        raise AnalysisError('no collective calls found')
    ctx.explanation = ('Path enumeration over the syntax trees of the Python layer, with the sequence of collective mpi4py calls of each path and the conditions it rests on. Conditions on values every rank has (names, sizes, results of allgather, allreduce and bcast, '
                       'looked at in the same position) separate paths; conditions on the rank, on local data and on local failures do not. Two paths that two ranks can take at the same time have to make the same calls and end the same way.')
    ctx.assumptions = ['all ranks call the operation with the same arguments but for their own data', 'memory does not run out, and names decode', 'mpi4py calls do not fail', 'one rank fails, at one step', 'Column.append on a parallel column is documented as not fit for concurrency and not covered']
