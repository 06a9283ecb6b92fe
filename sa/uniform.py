"""Which values are the same on all ranks of a communicator, and which calls are made by all of them.

A level is a communicator, written as a path: () the communicator passed to the function, (u,) one split from it at call u, (u, v) one split
from that.  A value at level p is the same on all ranks of the communicator p (and of those split from it); LOCAL (None) means it can
differ.  The analysis is flow-sensitive for memory, uses control dependence for what is executed under a differing condition, and runs to a fixpoint."""
from .ctx import short

LOCAL = None
DET = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'memcmp', 'strstr', 'atoi', 'atol', 'strtol', 'strtoll', 'toupper', 'tolower', 'strcoll', '__ctype_b_loc', 'isspace', 'isblank', 'abs',
       'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', 'vsprintf', 'vsnprintf', 'memccpy', 'bsearch', 'qsort', 'sscanf', 'free', 'abort', 'exit', '__assert_fail', 'sqrt', 'floor', 'ceil'}
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'alloca', '__strdup', 'strndup'}
COMM = {'MPI_Allreduce': 5, 'MPI_Reduce': 6, 'MPI_Bcast': 4, 'MPI_Barrier': 0, 'MPI_Gather': 7, 'MPI_Gatherv': 8, 'MPI_Scatter': 7, 'MPI_Scatterv': 8, 'MPI_Allgather': 6,
        'MPI_Allgatherv': 7, 'MPI_Alltoall': 6, 'MPI_Alltoallv': 8, 'MPI_Comm_split': 0, 'MPI_Comm_free': 0, 'MPI_Comm_dup': 0, 'MPI_Scan': 5, 'MPI_Exscan': 5, 'MPI_Reduce_scatter': 5}
# arguments that have to be the same on all ranks of the communicator: count, operation, root, type
SAME = {'MPI_Allreduce': (2, 3, 4), 'MPI_Reduce': (2, 3, 4, 5), 'MPI_Bcast': (1, 2, 3), 'MPI_Gather': (6,), 'MPI_Gatherv': (7,), 'MPI_Scatter': (6,), 'MPI_Scatterv': (7,),
        'MPI_Allgather': (4, 5), 'MPI_Scan': (2, 3, 4), 'MPI_Exscan': (2, 3, 4)}
ARGNAME = {'MPI_Allreduce': {2: 'count', 3: 'type', 4: 'operation'}, 'MPI_Reduce': {2: 'count', 3: 'type', 4: 'operation', 5: 'root'}, 'MPI_Bcast': {1: 'count', 2: 'type', 3: 'root'}}


def join(a, b):
    if a is LOCAL or b is LOCAL:
        return LOCAL
    if a[:len(b)] == b:
        return a
    if b[:len(a)] == a:
        return b
    return LOCAL


def within(level, comm):
    """the same on all ranks of comm"""
    return level is not LOCAL and comm is not LOCAL and comm[:len(level)] == level


class Uniform:
    def __init__(self, m, S, fn, local=(), initial=None, collective=(), agree=(), whole=(), det=None, consts=(), comm=None):
        """local: arguments whose contents differ between ranks; initial: cells that differ at entry;
        collective: own functions that are collective over their communicator argument; whole: those after which a block is the same on all ranks"""
        self.m, self.S, self.f = m, S, fn
        self.local = set(local)
        self.collective = set(collective)
        self.whole = set(whole)
        self.det = det or {}
        self.consts = set(consts)
        self.L = {}
        self.org, self.content = S.origins(fn)
        self.comms = {}             # cell -> communicator stored there
        self.init = dict(initial or {})
        self.problems = {}
        self.calls = 0
        for i, (t, n) in enumerate(fn.args):
            self.L[n] = ()
        self.commargs = [n for i, (t, n) in enumerate(fn.args) if comm is not None and i in comm]
        self.graph()

    # ------------------------------------------------------------ control dependence
    def graph(self):
        f = self.f
        succ = {}
        for b in f.order:
            t = f.blocks[b].ins[-1]
            if t.op == 'br':
                s = [t.a[0]]
            elif t.op == 'cbr':
                s = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[1]] + [q[1] for q in t.a[2]]
            else:
                s = []
            succ[b] = s
        # blocks that end the program do not count
        live = {b for b in f.order if f.blocks[b].ins[-1].op == 'ret'}
        ch = True
        while ch:
            ch = False
            for b in f.order:
                if b not in live and any(s in live for s in succ[b]):
                    live.add(b)
                    ch = True
        self.live = [b for b in f.order if b in live]
        self.succ = {b: [s for s in dict.fromkeys(succ[b]) if s in live] for b in self.live}
        self.pred = {b: [p for p in self.live if b in self.succ[p]] for b in self.live}
        full = set(self.live) | {'$exit'}
        pd = {b: set(full) for b in self.live}
        pd['$exit'] = {'$exit'}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.live):
                ss = self.succ[b] or ['$exit']
                n = set.intersection(*[pd[s] for s in ss]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        self.pd = pd
        # direct control dependence: b is in pd of one successor of a, but does not postdominate a
        self.cd = {b: set() for b in self.live}
        for a in self.live:
            if len(self.succ[a]) < 2:
                continue
            for s in self.succ[a]:
                for b in pd[s] - {'$exit'}:
                    if b == a or b not in pd[a]:
                        self.cd[b].add(a)
        # transitive
        self.tcd = {}
        for b in self.live:
            seen, work = set(), list(self.cd[b])
            while work:
                c = work.pop()
                if c not in seen:
                    seen.add(c)
                    work += self.cd[c]
            self.tcd[b] = seen

    def ipdom(self, a):
        c = self.pd[a] - {a}
        for b in c:
            if b != '$exit' and self.pd[b] >= c:
                return b
        return '$exit'

    def cond(self, b):
        t = self.f.blocks[b].ins[-1]
        return self.lv(t.a[0]) if t.op in ('cbr', 'switch') else ()

    def control(self, b, matched=False):
        l = ()
        for a in self.tcd[b]:
            if matched and self.same_calls(a):
                continue
            l = join(l, self.cond(a))
        return l

    # ------------------------------------------------------------ values and memory
    def lv(self, v):
        k = v[0]
        if k == 'reg':
            return self.L.get(v[1], ())
        if k in ('ce', 'agg'):
            return ()
        return ()

    def cells(self, v):
        return self.org(v)

    def load(self, mem, cell):
        r, d, o = cell
        l = ()
        for c, x in mem.items():
            if c[0] == r and c[1] == d and c[2] != 'def' and (c[2] == o or o == '*' or c[2] == '*'):
                l = join(l, x)
        if o == '*' or (r, d, o) not in mem:
            if (r, d, 'def') in mem:
                l = join(l, mem[(r, d, 'def')])
            elif r[0] == 'arg' and r[1] in self.local:
                l = LOCAL
        return l

    def put(self, mem, cells, level, strong=True):
        cells = set(cells)
        one = len(cells) == 1 and strong
        for c in cells:
            if one and c[2] != '*':
                mem[c] = level
            else:
                mem[c] = join(mem[c], level) if c in mem else join(self.load(mem, c), level)

    def fill(self, mem, cells, level, strong):
        """the whole object is overwritten"""
        cells = {(r, d) for r, d, o in cells}
        for r, d in cells:
            if strong and len(cells) == 1:
                for c in [c for c in mem if c[0] == r and c[1] == d]:
                    del mem[c]
                mem[(r, d, 'def')] = level
            else:
                self.put(mem, {(r, d, '*')}, level)

    def contents(self, mem, v):
        l = ()
        for r, d, o in self.cells(v):
            l = join(l, self.load(mem, (r, d, '*')))
        return l

    # ------------------------------------------------------------ instructions
    def setl(self, x, l):
        if x.res is None:
            return
        n = join(self.L[x.res], l) if x.res in self.L else l
        if x.res not in self.L or n != self.L[x.res]:
            self.L[x.res] = n
            self.changed = True

    def comm(self, v):
        if v[0] == 'reg' and v[1] in self.commargs:
            return ()
        if v[0] == 'reg':
            d = self.defs.get(v[1])
            if d is not None and d.op == 'load':
                cs = {self.comms.get(c) for c in self.cells(d.a[0])}
                if len(cs) == 1:
                    return cs.pop()
            if d is not None and d.op == 'phi':
                cs = {self.comm(w) for w, b in d.a}
                if len(cs) == 1:
                    return cs.pop()
        return LOCAL

    def run(self):
        self.defs = {x.res: x for x in self.f.insns() if x.res is not None}
        for x in self.f.insns():
            x_ = x
        entry = self.f.order[0]
        self.inm = {entry: dict(self.init)}
        for rnd in range(60):
            self.changed = False
            for b in self.live:
                if b not in self.inm:
                    continue
                mem = dict(self.inm[b])
                ctl = self.control(b)
                for x in self.f.blocks[b].ins:
                    self.step(x, b, mem, ctl)
                for s in self.succ[b]:
                    if s not in self.inm:
                        self.inm[s] = dict(mem)
                        self.changed = True
                        continue
                    t = self.inm[s]
                    for c in set(mem) | set(t):
                        l = join(t[c] if c in t else self.load(t, c), mem[c] if c in mem else self.load(mem, c))
                        if c not in t or l != t[c]:
                            t[c] = l
                            self.changed = True
            if not self.changed:
                break
        else:
            raise RuntimeError('no fixpoint in %s' % self.f.name)
        self.judging = True
        for b in self.live:
            if b in self.inm:
                mem = dict(self.inm[b])
                ctl = self.control(b)
                for x in self.f.blocks[b].ins:
                    self.step(x, b, mem, ctl)
        return self

    judging = False

    def note(self, x, what):
        if self.judging:
            self.problems.setdefault((what, x.uid), x)

    def step(self, x, b, mem, ctl):
        op = x.op
        if op == 'load':
            l = self.lv(x.a[0])
            for c in self.cells(x.a[0]):
                l = join(l, self.load(mem, c))
            if not self.cells(x.a[0]):
                l = LOCAL
            self.setl(x, l)
        elif op == 'store':
            self.put(mem, self.cells(x.a[1]), join(join(self.lv(x.a[0]), ctl), self.lv(x.a[1])))
        elif op == 'phi':
            vals = {v for v, p in x.a if p in self.pred[b]}
            l = ()
            for v in vals:
                l = join(l, self.lv(v))
            same = x.ty == ('ptr',) and len(self.cells(('reg', x.res))) == 1 and all(c[2] != '*' for c in self.cells(('reg', x.res)))
            if len(vals) > 1 and not same:
                for v, p in x.a:
                    if p in self.pred[b]:
                        l = join(l, self.control(p))
                        if len(self.succ[p]) > 1:
                            l = join(l, self.cond(p))
            self.setl(x, l)
        elif op == 'call':
            self.call(x, b, mem, ctl)
        elif op == 'alloca':
            self.setl(x, ())
        elif op == 'gep':
            l = ()
            for t, v in x.a:
                l = join(l, self.lv(v))
            self.setl(x, l)
        elif op == 'ret':
            if x.a and self.f.ret[0] == 'int' and self.judging:
                self.ret = self.lv(x.a[0]) if x.a[0][0] == 'reg' else ()
                if not within(self.ret, ()):
                    self.note(x, 'the result can differ between ranks')
        elif x.res is not None:
            l = ()
            for v in x.a:
                if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple):
                    v = v[1]
                if isinstance(v, tuple) and v and isinstance(v[0], str):
                    l = join(l, self.lv(v))
            self.setl(x, l)

    def call(self, x, b, mem, ctl):
        c = x.extra['callee']
        name = c[1] if c[0] == 'glob' else None
        args = [v for t, v in x.a]
        if name is not None and name.startswith('llvm.'):
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.copy(mem, args, ctl)
            elif name.startswith('llvm.memset'):
                self.put(mem, {(r, d, '*') for r, d, o in self.cells(args[0])}, ctl)
            elif x.res is not None:
                l = ()
                for v in args:
                    l = join(l, self.lv(v))
                self.setl(x, l)
            return
        if name in COMM:
            return self.mpi(x, b, mem, ctl, name, args)
        if name in ('MPI_Comm_rank', 'MPI_Comm_size'):
            self.put(mem, self.cells(args[1]), LOCAL if name == 'MPI_Comm_rank' else self.comm(args[0]))
            self.setl(x, ())
            return
        if name is not None and name.startswith('MPI_'):
            l = ctl
            for v in args:
                l = join(l, self.lv(v))
            self.outs(mem, name, args, l)
            self.setl(x, ())
            return
        if name in self.collective:
            return self.own(x, b, mem, ctl, name, args)
        if name in self.m.funcs:
            return self.local_call(x, mem, ctl, [name], args)
        if name is None:
            cand = [n for n in self.m.funcs if len(self.m.funcs[n].args) == len(args) and n in self.taken()]
            self.local_call(x, mem, ctl, cand, args)
            self.setl(x, LOCAL)
            return
        if name in ALLOC:
            self.setl(x, ())
            return
        l = LOCAL
        if name in DET:
            l = ()
            for i, v in enumerate(args):
                l = join(l, self.lv(v))
                if name not in ('memset', 'free') and not (i == 0 and name in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'sprintf', 'snprintf')):
                    l = join(l, self.contents(mem, v))
        if name in ('memcpy', 'memmove'):
            self.copy(mem, args, ctl)
        elif name == 'memset':
            self.put(mem, {(r, d, '*') for r, d, o in self.cells(args[0])}, join(l, ctl))
        else:
            self.outs(mem, name, args, join(l, ctl))
        self.setl(x, l)

    def copy(self, mem, args, ctl):
        l = ctl
        for v in args:
            l = join(l, self.lv(v))
        self.fill(mem, self.cells(args[0]), join(l, self.contents(mem, args[1])), False)

    def outs(self, mem, name, args, l):
        from .summary import EXT_W, EXT_WVAR
        for i in EXT_W.get(name, ()):
            if i < len(args):
                self.put(mem, {(r, d, '*' if not name.startswith('MPI_Type') else o) for r, d, o in self.cells(args[i])}, l)
        if name in EXT_WVAR:
            for v in args[EXT_WVAR[name]:]:
                self.put(mem, {(r, d, '*') for r, d, o in self.cells(v)}, l)

    _taken = None

    def taken(self):
        if self._taken is None:
            self._taken = set()
            for f in self.m.funcs.values():
                for y in f.insns():
                    def val(v):
                        if isinstance(v, tuple):
                            if len(v) == 2 and v[0] == 'glob':
                                self._taken.add(v[1])
                            else:
                                for z in v:
                                    val(z)
                    val(y.a)
            for g in self.m.globals.values():
                pass
        return self._taken

    def local_call(self, x, mem, ctl, names, args):
        lev = ()
        for v in args:
            lev = join(lev, self.lv(v))
        for n in names:
            s = self.S.get(n)
            if s is None:
                continue
            l = lev
            for root, d, last in s.reads:
                if root[0] == 'arg' and root[1] < len(args):
                    for r, dd, o in self.S.expand(self.cells(args[root[1]]), d, self.content):
                        off = '*' if last == '*' or o == '*' or last[0] == '*' else o + last[0]
                        l = join(l, self.load(mem, (r, dd, off)))
            if not self.det.get(n, False):
                l = LOCAL
            for root, d, last in s.writes:
                if root[0] == 'arg' and root[1] < len(args):
                    for r, dd, o in self.S.expand(self.cells(args[root[1]]), d, self.content):
                        off = '*' if last == '*' or o == '*' or last[0] == '*' else o + last[0]
                        self.put(mem, {(r, dd, off)}, join(l, ctl), strong=False)
            self.setl(x, () if n in self.consts else l)

    def own(self, x, b, mem, ctl, name, args):
        f = self.m.funcs[name]
        ci = [i for i, t in enumerate(self.m.arg_types(f)) if iscomm(t)]
        comm = self.comm(args[ci[0]]) if ci else LOCAL
        self.participate(x, b, comm, name)
        s = self.S.get(name)
        from checks.c03 import isblock
        for i, t in enumerate(self.m.arg_types(f)):
            if isblock(t) and i < len(args):
                # afterwards the block is the same on all ranks (the property on merging)
                for r, d, o in self.cells(args[i]):
                    for c in [c for c in mem if c[0] == r and c[1][:len(d)] == d]:
                        del mem[c]
                    if r[0] == 'arg' and r[1] in self.local:
                        mem[(r, d, 'def')] = comm
        self.setl(x, comm)

    def participate(self, x, b, comm, name):
        if not self.judging:
            return
        self.calls += 1
        if comm is LOCAL:
            self.note(x, 'cannot tell the communicator of %s' % name)
            return
        ctl = self.control(b, True)
        if not within(ctl, comm):
            self.note(x, '%s is not called by all ranks of its communicator' % name)

    def seqs(self, b, stop, seen):
        """the sequences of collective calls on paths from b to stop"""
        if b == stop:
            return {()}
        if b in seen:
            return {'loop'}
        here = tuple(self.sig(x) for x in self.f.blocks[b].ins if self.sig(x))
        out = set()
        for s in self.succ[b] or (['$exit'] if stop == '$exit' else []):
            for q in self.seqs(s, stop, seen | {b}):
                if q == 'loop':
                    out.add(q)
                else:
                    out.add(here + q)
                if len(out) > 4:
                    return out
        if not self.succ[b]:
            out.add(here)
        return out

    def sig(self, x):
        if x.op != 'call' or x.extra['callee'][0] != 'glob':
            return None
        n = x.extra['callee'][1]
        if n in COMM:
            return n, self.comm(x.a[COMM[n]][1])
        if n in self.collective:
            ci = [i for i, t in enumerate(self.m.arg_types(self.m.funcs[n])) if iscomm(t)]
            return n, self.comm(x.a[ci[0]][1]) if ci else LOCAL
        return None

    def same_calls(self, a):
        if not hasattr(self, '_same'):
            self._same = {}
        if a not in self._same:
            stop = self.ipdom(a)
            s = set()
            for q in self.succ[a]:
                s |= self.seqs(q, stop, {a})
            self._same[a] = len(s) == 1 and 'loop' not in s and s != {()}
        return self._same[a]

    def mpi(self, x, b, mem, ctl, name, args):
        comm = LOCAL
        cv = args[COMM[name]]
        if name == 'MPI_Comm_free':
            cs = {self.comms.get(c) for c in self.cells(cv)}
            comm = cs.pop() if len(cs) == 1 else LOCAL
        else:
            comm = self.comm(cv)
        self.participate(x, b, comm, name)
        for i in SAME.get(name, ()):
            if not within(self.lv(args[i]), comm):
                self.note(x, 'the %s of %s can differ between ranks' % (ARGNAME.get(name, {}).get(i, 'root or type'), name))
        self.setl(x, ())
        const1 = {'MPI_Allreduce': 2, 'MPI_Bcast': 1}
        if name in const1:
            out = args[0] if name == 'MPI_Bcast' else args[1]
            n = args[const1[name]]
            cs = self.cells(out)
            if (n == ('c', 1) or n[0] == 'c') and len(cs) == 1 and all(o != '*' for r, d, o in cs):
                self.put(mem, cs, comm)
            elif len(cs) == 1 and all(o == 0 for r, d, o in cs):
                self.fill(mem, cs, comm, True)
            else:
                self.put(mem, cs, comm)
        elif name == 'MPI_Allgather' or name == 'MPI_Allgatherv':
            cs = self.cells(args[3])
            self.fill(mem, cs, comm, len(cs) == 1)
        elif name == 'MPI_Comm_split':
            for c in self.cells(args[3]):
                self.comms[c] = comm + (x.uid,) if comm is not LOCAL else LOCAL
            self.put(mem, self.cells(args[3]), ())
            # the colour is the same on all ranks of the new communicator
            d = self.defs.get(args[1][1]) if args[1][0] == 'reg' else None
            new = comm + (x.uid,) if comm is not LOCAL else LOCAL
            if d is not None and d.op == 'load' and new is not LOCAL:
                cs = self.cells(d.a[0])
                if len(cs) == 1 and self.load(mem, next(iter(cs))) is LOCAL and d.blk is x.blk:
                    self.put(mem, cs, new)
        else:
            self.outs(mem, name, args, LOCAL)


def iscomm(t):
    u = t[1].get() if t and t[0] == 'ptr' else None
    return bool(u) and len(u) > 1 and u[1] == 'ompi_communicator_t'
