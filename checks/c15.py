"""C15: a command-line tool that fails to do something exits with a failure."""
import os
from sa import build, ir, summary, models
from sa.terms import const, is_const, atom, as_atom, add, sub, mul, base_off
from sa.engine import c_eq, Monitor, AnalysisError, rename
from sa import terms as T
from sa.ctx import short
from . import errprop
from .lib import trace_of, path_edge
from .common import NONNEG
from .c02 import field_off

TOOLS = ('cat', 'copy', 'copy-mpi', 'create', 'get-attr', 'ls', 'sample-mpi', 'set-attr')
OUT, IN = 'stdout', 'stdin'
WRITES = {'printf': None, 'puts': None, 'putchar': None, 'fprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3}
MODIFY = {'big_block_write': 0, 'big_block_set_attr': 0, 'big_block_mpi_write': 0, 'big_block_grow': 0, 'big_block_mpi_grow': 0, 'big_block_set_dirty': 0,
          'big_file_create_block': 1, 'big_file_mpi_create_block': 1, '_big_file_mpi_create_block': 1, 'big_block_remove_attr': 0}
# failing means that there is nothing to do
GOAL = {'big_block_remove_attr'}
CLOSE = {'big_block_close', 'big_block_mpi_close'}


class Tool(errprop.ErrProp):
    """fails: as in C01; the output is written when it was flushed and neither that nor a write failed"""

    def __init__(self, m, fallible, modified):
        errprop.ErrProp.__init__(self, None, fallible)
        self.m = m
        self.modified = modified
        self.exits = 0
        self.recwrites = set()

    def initial(self):
        return (None, frozenset(), frozenset())

    def std(self, p):
        """stdin or stdout when p is that stream"""
        a = as_atom(p)
        if a and a[0] == 'ld' and a[1] in (('glob', OUT), ('glob', IN)):
            return a[1][1]
        t = str(p)
        for n in (OUT, IN):
            if "'%s'" % n in t:
                return n
        return None

    def after_call(self, eng, st, x, name, args):
        n = name
        if st.mon[0] is not None:
            kind = st.mon[0][0]
            if n == 'ferror' and (kind == 'write' and self.std(args[0]) == OUT or kind == 'read' and self.std(args[0]) == IN):
                self.setret(eng, st, x, const(1))
            elif n == 'feof' and kind == 'read' and self.std(args[0]) == IN:
                self.setret(eng, st, x, const(0))
            return [st]
        if n in self.recwrites:
            self.site(x, n)
            b = st.copy()
            st.mon = (None, st.mon[1] | {'unwritten'}, st.mon[2])
            self.fail(b, x, n, 'write')
            return [st, b]
        if n in WRITES and (WRITES[n] is None or self.std(args[WRITES[n]]) == OUT):
            self.site(x, n)
            b = st.copy()
            st.mon = (None, st.mon[1] | {'unwritten'}, st.mon[2])
            if n == 'fwrite':
                self.setret(eng, st, x, args[2])
                r = b.env.get(x.res) if x.res is not None else None
                if r is not None:
                    eng.addfact(b, add(sub(args[2], r), const(-1)))
            else:
                self.setret(eng, b, x, const(-1))
                r = st.env.get(x.res) if x.res is not None else None
                if r is not None:
                    eng.addfact(st, r)
            self.fail(b, x, n, 'write')
            return [st, b]
        if n in ('fflush', 'fclose') and args and (self.std(args[0]) == OUT or is_const(args[0])):
            self.site(x, n)
            b = st.copy()
            was = 'unwritten' in st.mon[1]
            st.mon = (None, st.mon[1] - {'unwritten'}, st.mon[2])
            self.setret(eng, st, x, const(0))
            if not was:
                return [st]
            self.setret(eng, b, x, const(-1))
            self.fail(b, x, n, 'flush')
            return [st, b]
        if n == 'ferror':
            self.setret(eng, st, x, const(0))
            return [st]
        if n in ('fread', 'fgets', 'getline', 'fgetc', 'getc', 'getchar', 'fscanf', 'scanf') and (n in ('getchar', 'scanf') or any(self.std(a) == IN for a in args)):
            self.site(x, n)
            b = st.copy()
            if n == 'fread' and x.res is not None:
                r = st.env[x.res]
                eng.addfact(st, sub(args[2], r))
                eng.addfact(b, add(sub(args[2], r), const(-1)))
            elif n == 'fgets':
                self.setret(eng, b, x, const(0))
            else:
                self.setret(eng, b, x, const(-1))
            self.fail(b, x, n, 'read')
            return [st, b]
        if n in self.fallible and n not in GOAL:
            if n in CLOSE and not self.written(x):
                return [st]
            self.site(x, n)
            return self.fork(eng, st, x, n, const(0), const(-1))
        return [st]

    def written(self, x):
        """the block that is closed here may have been modified"""
        v = x.a[0][1]
        k = v[1] if v[0] == 'glob' else root(x.fn, v)
        return k is None or k in self.modified or (x.fn.name, k) in self.modified

    def on_call(self, eng, st, x, name, args):
        if name in ('exit', '_exit', '_Exit'):
            self.leave(eng, st, x, args[0])
        elif name == 'MPI_Abort':
            pass
        return None

    def leave(self, eng, st, x, v):
        self.exits += 1
        if st.mon[0] is not None:
            if eng.decide(st, c_eq(v)) is not False:
                self.bad.setdefault(st.mon[0][1], []).append((st, x, v))
        elif 'unwritten' in st.mon[1] and eng.decide(st, c_eq(v)) is not False:
            self.bad.setdefault('unwritten', []).append((st, x, v))

    def on_ret(self, eng, st, x, v):
        if x.fn.name == 'main':
            self.leave(eng, st, x, v if v is not None else const(0))


class Place(Monitor):
    """copying: what is read at an offset is written there, the parts read follow each other from the start to the end; attributes are copied one after the other.
    mon: pos (items copied), start (where the last part was read), seek (where the next write goes), k (attributes copied); arr, blk, list: who"""

    G = ('pos', 'start', 'seek', 'k')

    def __init__(self, m, what):
        self.m = m
        self.what = what
        self.dims = field_off(m, 'BigArray', 'dims')
        self.size = field_off(m, 'BigBlock', 'size')
        self.nmemb = field_off(m, 'BigBlock', 'nmemb')
        self.attr = {f: field_off(m, 'BigAttr', f) for f in ('name', 'data', 'dtype', 'nmemb')}
        self.asize = struct_size(m, 'BigAttr')
        self.bad = {}
        self.sites = set()

    def initial(self):
        return (('k', const(0)),) + ((('pos', const(0)),) if self.what == 'copy' else ())

    get = lambda self, st, k: dict(st.mon).get(k)

    def put(self, st, **kw):
        d = dict(st.mon)
        d.update(kw)
        st.mon = tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=lambda e: e[0]))

    def key(self, eng, st):
        return tuple((k, None if k in self.G else v) for k, v in st.mon)

    def join(self, eng, A, B):
        return tuple((k, v) for k, v in A.mon if k not in self.G)

    def ghosts(self, st):
        return {k: v for k, v in st.mon if k in self.G}

    def setghosts(self, st, values):
        self.put(st, **values)

    def retire(self, eng, st, token, stale):
        st.mon = tuple((k, rename(v, token, stale) if T.mentions(v, token) else v) for k, v in st.mon)

    def on_edge(self, eng, st, src, dst):
        self.put(st, path=path_edge(eng, self.get(st, 'path') or (), src, dst) or None)

    def eq(self, eng, st, a, b):
        return a is not None and b is not None and (a == b or eng.decide(st, c_eq(sub(a, b))) is True)

    def note(self, what, st, x):
        self.bad.setdefault(what, (st, x))

    def on_call(self, eng, st, x, name, args):
        if name in CLOSE and self.get(st, 'blk') is not None and args[0] != self.get(st, 'blk'):
            self.sites.add(x.uid)
            b, o = base_off(self.get(st, 'blk'))
            size = eng.loadloc(st, b, add(o, const(self.size)), 8, 'i')
            nm = eng.loadloc(st, b, add(o, const(self.nmemb)), 4, 'i32')
            pos = self.get(st, 'pos')
            if self.what == 'copy' and not (eng.implies_ge(st, sub(pos, size)) or eng.implies_ge(st, sub(const(0), size)) or eng.implies_ge(st, sub(const(0), nm)) or eng.decide(st, c_eq(size)) is True):
                self.note('ends before everything was copied', st, x)
            c = self.get(st, 'cnt')
            if c is not None:
                b, o = base_off(c)
                if not eng.implies_ge(st, sub(self.get(st, 'k'), eng.loadloc(st, b, o, 8, 'i'))):
                    self.note('ends before all attributes were copied', st, x)
            else:
                self.note('does not copy the attributes', st, x)
        return None

    def after_call(self, eng, st, x, name, args):
        if name in ('big_file_open', 'big_file_create', 'big_file_open_block', 'big_file_create_block', 'big_block_read_simple', 'big_block_seek', 'big_block_set_attr', 'big_block_write',
                    'big_block_close', 'big_file_mpi_open', 'big_file_mpi_create', 'big_file_mpi_open_block', 'big_file_mpi_create_block', 'big_block_mpi_close') and x.res is not None:
            st.env[x.res] = const(0)
        if name in ('big_file_open_block', 'big_file_mpi_open_block'):
            self.put(st, blk=args[1])
        elif name == 'big_block_list_attrs':
            self.put(st, list=st.env[x.res], cnt=args[1])
        elif name == 'big_block_read_simple':
            self.sites.add(x.uid)
            if self.get(st, 'pos') is not None and not self.eq(eng, st, self.get(st, 'pos'), args[1]):
                self.note('reads from somewhere else than after what was copied so far', st, x)
            self.put(st, start=args[1], arr=args[3], seek=None)
            b, o = base_off(args[3])
            n = eng.loadloc(st, b, add(o, const(self.dims)), 8, 'i')
            eng.addfact(st, n)
            self.put(st, got=n)
        elif name == 'big_block_seek':
            self.put(st, seek=args[2])
        elif name == 'big_block_write':
            self.sites.add(x.uid)
            if self.what == 'sample-mpi':
                return [st]
            if self.get(st, 'arr') != args[2]:
                self.note('writes something else than what was read last', st, x)
            elif not self.eq(eng, st, self.get(st, 'start'), self.get(st, 'seek')):
                self.note('writes to another place than it read from', st, x)
            elif self.what == 'copy' and self.get(st, 'got') is not None:
                self.put(st, pos=add(self.get(st, 'pos'), self.get(st, 'got')), got=None, seek=None, start=None, arr=None)
        elif name == 'big_block_set_attr':
            self.sites.add(x.uid)
            l, k = self.get(st, 'list'), self.get(st, 'k')
            if l is not None:
                a = add(l, mul(k, const(self.asize)))
                for f, i, w, t in (('name', 1, 8, 'p'), ('data', 2, 8, 'p'), ('nmemb', 4, 4, 'i32')):
                    b, o = base_off(add(a, const(self.attr[f])))
                    if not self.eq(eng, st, eng.loadloc(st, b, o, w, t), args[i]):
                        self.note('copies an attribute with a %s that is not its own' % f, st, x)
                if not self.eq(eng, st, add(a, const(self.attr['dtype'])), args[3]):
                    self.note('copies an attribute with a type that is not its own', st, x)
                self.put(st, k=add(k, const(1)))
        return [st]


def struct_size(m, name):
    return max(o + s for f, o, s, t in m.field_types(name)) + 7 & ~7


def root(f, v, depth=0):
    """the alloca or global a pointer is taken from"""
    if v[0] == 'glob':
        return v[1]
    if v[0] != 'reg' or depth > 20:
        return None
    for x in f.insns():
        if x.res == v[1]:
            if x.op == 'alloca':
                return x.res
            if x.op in ('getelementptr', 'bitcast') and x.a:
                w = x.a[0][1] if isinstance(x.a[0], tuple) and len(x.a[0]) == 2 and isinstance(x.a[0][1], tuple) else x.a[0]
                return root(f, w, depth + 1)
            return None
    return None


def tool(ctx, name, fall, lib):
    src = os.path.join(build.REPO, 'utils', 'bigfile-%s.c' % name)
    if not os.path.exists(src):
        raise AnalysisError('tool not found: bigfile-%s' % name)
    ll = build.compile_tu(src)
    first = ir.parse(open(ll).read())
    rec = recursive(first)
    m = ir.parse(build.link_and_opt([ll] + list(build.library(True)), rec | {'main'} | set(lib.funcs)))
    S = summary.Summaries(m)
    P = (m, models.Models(S, set(m.funcs)))
    mod = set()
    for f in (m.funcs[n] for n in sorted(rec | {'main'})):
        for x in f.insns():
            if x.op == 'call' and x.extra['callee'][0] == 'glob' and x.extra['callee'][1] in MODIFY:
                i = MODIFY[x.extra['callee'][1]]
                v = x.a[i][1]
                r = root(f, v)
                if r is not None:
                    mod.add(r if v[0] == 'glob' else (f.name, r))
    for n in sorted(rec | {'main'}):
        if n not in m.funcs:
            continue
        mon = Tool(m, fall, mod)
        mon.recwrites = {r for r in rec if any(x.op == 'call' and x.extra['callee'][0] == 'glob' and x.extra['callee'][1] in WRITES for x in m.funcs[r].insns())} if n == 'main' else set()
        ctx.engine(P, n, mon, nonneg_tags=NONNEG)
        ctx.functions.append('bigfile-%s:%s' % (name, n))
        ctx.obligation(not mon.bad, len(mon.sites) + mon.exits)
        ctx.sample({'tool': name, 'function': n, 'steps_that_can_fail': len(mon.sites), 'exits': mon.exits})
        for s, l in sorted(mon.bad.items(), key=str):
            st, x, v = l[0]
            if s == 'unwritten':
                ctx.violation('%s/output' % name, 'bigfile-%s: succeeds although it does not know whether its output was written' % name, short(m.loc(x)), trace_of(st))
            else:
                c, y = mon.sites[s]
                ctx.violation('%s/%s/%s' % (name, n, c), 'bigfile-%s: succeeds although %s failed' % (name, c), short(m.loc(y)), trace_of(st))


    if name in ('copy', 'copy-mpi', 'sample-mpi'):
        mon = Place(m, name)
        ctx.engine(P, 'main', mon, nonneg_tags=NONNEG)
        ctx.obligation(not mon.bad and len(mon.sites) > 0, len(mon.sites))
        if not mon.sites:
            raise AnalysisError('bigfile-%s copies nothing' % name)
        for what, (st, x) in sorted(mon.bad.items()):
            ctx.violation('%s/%s' % (name, what.replace(' ', '_')), 'bigfile-%s: %s' % (name, what), short(m.loc(x)), trace_of(st))


def recursive(m):
    """functions that can reach themselves"""
    succ = {f.name: {x.extra['callee'][1] for x in f.insns() if x.op == 'call' and x.extra['callee'][0] == 'glob'} & set(m.funcs) for f in m.funcs.values()}
    out = set()
    for n in succ:
        seen, todo = set(), list(succ[n])
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += succ[k]
        if n in seen:
            out.add(n)
    return out


def check(ctx):
    ctx.explanation = ('Failure-propagation typestate over each command-line tool (its own functions inlined into main, linked with the library for its effects): after any step that failed (a library call, a write to the standard output, '
                       'a read of the standard input, the final flush) every exit of the process has a status that is provably not 0, and output is flushed and checked before a successful exit. '
                       'In the tools that copy blocks: each part is written where it was read, the parts follow each other from the start to the end of the block, and each attribute is copied with its own name, type, length and data.')
    ctx.assumptions = ['closing a block that was only read, and closing a file, cannot lose anything', 'removing an attribute fails only when there is none', 'while listing a file recursively, directories that are not blocks are skipped',
                       'memory allocation and MPI calls succeed', 'what the tools should do is judged for the copying tools only; for the others only whether failures are reported']
    lib = ctx.raw()
    hk = build.header_functions()
    from .c10 import operations
    fall = (errprop.fallible(lib) | set(operations(lib))) & hk - {'big_file_mpi_close'} | {'big_file_dtype_parse'}

    def one(ctx, n):
        tool(ctx, n, fall, lib)
    ctx.pmap(one, TOOLS)
