"""Flow-insensitive side-effect summaries of the library's own functions.

For every function: the access paths (argument, field dereferences, field) that it may write or
read, directly or through the functions it calls.  Objects it allocates itself are local."""
from .ir import VOID

# external functions: indices of pointer arguments whose pointee is written / read
EXT_W = {
    'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,),
    'sprintf': (0,), 'snprintf': (0,), 'vsprintf': (0,), 'vsnprintf': (0,), 'fread': (0,), 'stat': (1,), 'lstat': (1,),
    'qsort': (0,), 'scandir': (1,), 'fgets': (0,), 'gettimeofday': (0,), 'strtol': (1,), 'strtoll': (1,), 'strtod': (1,),
    'MPI_Comm_rank': (1,), 'MPI_Comm_size': (1,), 'MPI_Bcast': (0,), 'MPI_Reduce': (1,), 'MPI_Allreduce': (1,),
    'MPI_Allgather': (3,), 'MPI_Gather': (3,), 'MPI_Gatherv': (3,), 'MPI_Scatterv': (4,), 'MPI_Scatter': (3,),
    'MPI_Alltoall': (3,), 'MPI_Alltoallv': (4,), 'MPI_Comm_split': (3,), 'MPI_Comm_free': (0,), 'MPI_Type_contiguous': (2,),
    'MPI_Type_commit': (0,), 'MPI_Type_free': (0,), 'MPI_Type_get_extent': (1, 2), 'MPI_Irecv': (0, 6), 'MPI_Isend': (6,),
    'MPI_Recv': (0, 6), 'MPI_Sendrecv': (5,), 'MPI_Waitall': (1, 2), 'MPI_Allgatherv': (3,), 'MPI_Scan': (1,), 'MPI_Exscan': (1,),
    'memccpy': (0,), 'getopt': (), 'realloc': (), 'free': (), 'fclose': (), 'MPI_Init': (),
}
EXT_WVAR = {'fscanf': 2, 'sscanf': 2, 'scanf': 1}
EXT_READ = {'memcpy': (1,), 'memmove': (1,), 'strcpy': (1,), 'strncpy': (1,), 'strcat': (0, 1), 'strlen': (0,), 'strcmp': (0, 1),
            'strncmp': (0, 1), 'memcmp': (0, 1), 'atoi': (0,), 'strchr': (0,), 'fwrite': (0,), 'bsearch': (0, 1), 'strtoll': (0,)}
STRREAD = {'strcpy', 'strncpy', 'strcat', 'strlen', 'strcmp', 'strncmp', 'atoi', 'strchr', 'strtoll'}
IMPURE = {'fopen', 'fclose', 'fread', 'fwrite', 'fprintf', 'printf', 'fscanf', 'scanf', 'fseek', 'ftell', 'mkdir', 'stat',
          'malloc', 'calloc', 'realloc', 'free', 'exit', 'abort', 'scandir', 'utimes', 'setbuf', 'fputs', 'fputc', 'putc',
          'feof', 'fflush', 'rmdir', 'unlink', 'remove', 'rename', 'fputs', 'puts'}
HARMLESS = {'strerror', '__errno_location', 'strcoll', 'toupper', 'tolower', 'isspace', 'isblank', '__ctype_b_loc', 'time', 'atof',
            'strtoul', 'strstr', 'strrchr', 'getenv', 'isatty', 'fileno', 'sqrt', 'floor', 'ceil', 'pow', 'log', 'exp',
            'MPI_Barrier', 'MPI_Finalize', 'MPI_Wtime', 'strdup', 'alloca', 'clock', 'sleep', 'usleep', 'MPI_Abort'}

MAXD = 4


class Summary:
    def __init__(self):
        self.writes = set()
        self.reads = set()
        self.impure = False
        self.globals_w = set()
        self.unknown = False
        self.ret_origins = set()


def norm(path):
    root, ds, last = path
    if len(ds) > MAXD:
        return (root, ds[:MAXD], '*')
    return path


class Summaries:
    def __init__(self, mod):
        self.mod = mod
        self.s = {}
        for f in mod.funcs:
            self.s[f] = Summary()
        ch = True
        n = 0
        while ch and n < 20:
            ch = False
            n += 1
            for f in mod.funcs.values():
                if self.compute(f):
                    ch = True

    def get(self, name):
        return self.s.get(name)

    def origins(self, f):
        """reg -> set of (root, derefs, off): where a pointer value may point"""
        org = {}
        argn = {n: i for i, (t, n) in enumerate(f.args)}

        def val(v):
            k = v[0]
            if k == 'reg':
                if v[1] in argn:
                    return {(('arg', argn[v[1]]), (), 0)}
                return org.get(v[1], set())
            if k == 'glob':
                return {(('glob', v[1]), (), 0)}
            if k == 'ce' and v[1] == 'gep':
                return {(r, d, '*') for r, d, o in val(v[3][0][1])}
            if k == 'ce' and v[1] in ('bitcast', 'inttoptr', 'ptrtoint'):
                return val(v[3])
            return set()

        # contents of local objects: pointers stored into them
        content = {}
        ch = True
        rounds = 0
        while ch and rounds < 12:
            ch = False
            rounds += 1
            for x in f.insns():
                new = None
                if x.op == 'alloca':
                    new = {(('loc', x.uid), (), 0)}
                elif x.op == 'gep':
                    base = val(x.a[0][1])
                    off = self.constoff(x)
                    new = set()
                    for r, d, o in base:
                        new.add((r, d, (o + off) if off is not None and o != '*' else '*'))
                elif x.op == 'load' and (x.ty[0] == 'ptr' or x.ty == ('int', 64)):
                    new = set()
                    for r, d, o in val(x.a[0]):
                        if r[0] in ('loc', 'new'):
                            new |= content.get(r, set())
                        elif x.ty[0] == 'ptr':
                            if len(d) < MAXD:
                                new.add((r, d + (o,), 0))
                            else:
                                new.add((r, d, '*'))
                    if x.ty[0] != 'ptr':
                        # an integer loaded from a local may carry a pointer; from elsewhere not
                        pass
                elif x.op in ('phi',):
                    new = set()
                    for v, b in x.a:
                        new |= val(v)
                elif x.op == 'select':
                    new = val(x.a[1]) | val(x.a[2])
                elif x.op == 'cast' and x.extra['op'] in ('ptrtoint', 'inttoptr', 'bitcast'):
                    new = val(x.a[0])
                elif x.op == 'freeze':
                    new = val(x.a[0])
                elif x.op == 'call':
                    c = x.extra['callee']
                    name = c[1] if c[0] == 'glob' else None
                    if x.ty[0] == 'ptr':
                        if name in ('strchr', 'strrchr', 'strstr', 'strcpy', 'strcat', 'memcpy'):
                            new = {(r, d, '*') for r, d, o in val(x.a[0][1])}
                        elif name == 'bsearch':
                            new = {(r, d, '*') for r, d, o in val(x.a[1][1])}
                        elif name in self.s:
                            new = set()
                            for (root, d, o) in self.s[name].ret_origins:
                                if root[0] == 'arg' and root[1] < len(x.a):
                                    for q in self.expand(val(x.a[root[1]][1]), d, content):
                                        new.add((q[0], q[1], o if q[2] == 0 else '*'))
                                elif root[0] == 'glob':
                                    new.add((root, d, o))
                            new.add((('new', x.uid), (), 0))
                        else:
                            new = {(('new', x.uid), (), 0)}
                elif x.op == 'atomicrmw':
                    new = set()
                    for r, d, o in val(x.a[0]):
                        if r[0] not in ('loc', 'new') and len(d) < MAXD:
                            new.add((r, d + (o,), 0))
                elif x.op == 'store':
                    vs = val(x.a[0])
                    if vs:
                        for r, d, o in val(x.a[1]):
                            if r[0] in ('loc', 'new'):
                                c0 = content.setdefault(r, set())
                                if not vs <= c0:
                                    c0 |= vs
                                    ch = True
                if new:
                    o = org.setdefault(x.res, set())
                    if not new <= o:
                        o |= new
                        if len(o) > 60:
                            o2 = {(r, d, '*') for r, d, _ in o}
                            org[x.res] = o2
                        ch = True
        self._content = content
        return val, content

    def expand(self, origins, derefs, content):
        """apply a dereference chain to origins"""
        cur = set(origins)
        for o in derefs:
            nxt = set()
            for r, d, off in cur:
                if r[0] in ('loc', 'new'):
                    nxt |= content.get(r, set())
                elif len(d) < MAXD:
                    fo = (off + o) if off != '*' and o != '*' else '*'
                    nxt.add((r, d + (fo,), 0))
                else:
                    nxt.add((r, d, '*'))
            cur = nxt
        return cur

    def constoff(self, x):
        mod = self.mod
        off = 0
        t = x.ty
        first = True
        for ty, v in x.a[1:]:
            rt = None
            if first:
                first = False
                if v[0] != 'c':
                    return None
                off += v[1] * mod.size(t)
                continue
            rt = mod.resolve(t)
            if v[0] != 'c':
                return None
            if rt[0] == 'struct':
                off += mod.field_offset(rt, v[1])
                t = rt[1][v[1]]
            else:
                off += v[1] * mod.size(rt[2])
                t = rt[2]
        return off

    def compute(self, f):
        S = self.s[f.name]
        old = (len(S.writes), len(S.reads), S.impure, len(S.globals_w), S.unknown, len(S.ret_origins))
        val, content = self.origins(f)

        def w(origins, size, kind='w'):
            for r, d, o in origins:
                if r[0] == 'arg':
                    p = norm((r, d, (o, size) if o != '*' and size is not None else ((o, None) if o != '*' else '*')))
                    (S.writes if kind == 'w' else S.reads).add(p)
                elif r[0] == 'glob' and kind == 'w':
                    S.globals_w.add(r[1])
                elif r[0] == 'glob':
                    S.reads.add((r, d, '*'))

        for x in f.insns():
            if x.op == 'store':
                w(val(x.a[1]), self.mod.size(x.ty))
            elif x.op == 'load':
                w(val(x.a[0]), self.mod.size(x.ty), 'r')
            elif x.op == 'atomicrmw':
                w(val(x.a[0]), self.mod.size(x.ty))
            elif x.op == 'ret' and x.a:
                for r, d, o in val(x.a[0]):
                    if r[0] in ('arg', 'glob'):
                        S.ret_origins.add((r, d, o))
            elif x.op == 'call':
                c = x.extra['callee']
                name = c[1] if c[0] == 'glob' else None
                if name is None:
                    S.unknown = True
                    S.impure = True
                    continue
                if name.startswith('llvm.'):
                    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name.startswith('llvm.memset'):
                        n = x.a[2][1]
                        w(val(x.a[0][1]), n[1] if n[0] == 'c' else None)
                        if 'memset' not in name:
                            w(val(x.a[1][1]), n[1] if n[0] == 'c' else None, 'r')
                            self.copyptrs(val, content, x)
                    continue
                if name in self.s:
                    T = self.s[name]
                    S.impure = S.impure or T.impure
                    S.unknown = S.unknown or T.unknown
                    S.globals_w |= T.globals_w
                    for kind, paths in (('w', T.writes), ('r', T.reads)):
                        for (root, d, last) in list(paths):
                            if root[0] == 'glob':
                                S.reads.add((root, d, last))
                                continue
                            if root[1] >= len(x.a):
                                continue
                            for q in self.expand(val(x.a[root[1]][1]), d, content):
                                r0, d0, o0 = q
                                if last == '*' or o0 == '*':
                                    w({(r0, d0, '*')}, None, kind)
                                else:
                                    w({(r0, d0, o0 + last[0])}, last[1], kind)
                    continue
                if name in EXT_W:
                    for i in EXT_W[name]:
                        if i < len(x.a):
                            sz = None
                            if name in ('memset', 'memcpy', 'memmove', 'strncpy') and x.a[2][1][0] == 'c':
                                sz = x.a[2][1][1]
                            if name in ('MPI_Comm_rank', 'MPI_Comm_size'):
                                sz = 4
                            if name in ('MPI_Comm_split', 'MPI_Type_contiguous', 'MPI_Comm_free', 'MPI_Type_free', 'MPI_Type_commit'):
                                sz = 8
                            w(val(x.a[i][1]), sz)
                if name in EXT_WVAR:
                    for t, v in x.a[EXT_WVAR[name]:]:
                        w(val(v), None)
                if name in EXT_READ:
                    for i in EXT_READ[name]:
                        w(val(x.a[i][1]), 8 if name in STRREAD else None, 'r')
                if name in IMPURE or name.startswith('MPI_') and name not in ('MPI_Comm_rank', 'MPI_Comm_size'):
                    S.impure = True
                elif name not in EXT_W and name not in EXT_WVAR and name not in HARMLESS and name not in EXT_READ:
                    S.impure = True
                if name in ('memcpy', 'memmove'):
                    self.copyptrs(val, content, x)
        return old != (len(S.writes), len(S.reads), S.impure, len(S.globals_w), S.unknown, len(S.ret_origins))

    def copyptrs(self, val, content, x):
        for r, d, o in val(x.a[0][1]):
            if r[0] in ('loc', 'new'):
                for r2, d2, o2 in val(x.a[1][1]):
                    if r2[0] in ('loc', 'new'):
                        content.setdefault(r, set()).update(content.get(r2, set()))
