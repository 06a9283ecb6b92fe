"""What calls do to an abstract state: models of the C library, MPI, and (through computed
side-effect summaries) of the library's own functions."""
from . import terms as T
from .terms import const, atom, add, sub, mul, scale, is_const, as_atom, base_off, is_poly
from .engine import c_eq, c_ge, c_not

ERRNO = ('glob', 'errno')
PURE_EXT = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'strstr', 'memcmp', 'atoi', 'atof', 'strcoll', 'toupper', 'tolower',
            'isspace', 'isblank', 'sqrt', 'floor', 'ceil', 'pow', 'log', 'exp', 'abs', 'labs', 'strpbrk', 'strspn', 'strcspn', 'isdigit'}
NORETURN = {'exit', '_exit', 'abort', 'MPI_Abort', '__assert_fail', '_Exit'}
NOEFFECT = {'free', 'fclose', 'fprintf', 'printf', 'puts', 'putchar', 'fputs', 'fputc', 'putc', 'fwrite', 'fseek', 'ftell', 'rewind',
            'feof', 'ferror', 'fflush', 'setbuf', 'setvbuf', 'mkdir', 'utimes', 'utime', 'rmdir', 'unlink', 'remove', 'rename', 'clearerr',
            'MPI_Barrier', 'MPI_Finalize', 'MPI_Wtime', 'MPI_Init', 'perror', 'strerror', 'time', 'getenv', 'sleep', 'usleep', 'truncate',
            'ftruncate', 'fileno', 'isatty', 'fsync', 'access', 'getopt', 'putenv', 'srand', 'rand', 'signal', 'closedir', 'fputs',
            'strerror_r', 'gsl_rng_free', 'fdopen', 'opendir', 'close', 'vfprintf', 'fseeko', 'ftello', 'random', 'srandom', 'clock'}
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', '_strdup', 'fopen', 'reallocarray', 'aligned_alloc', 'mpiu_malloc'}
SETERRNO = {'fopen', 'fclose', 'fread', 'fwrite', 'fprintf', 'fseek', 'ftell', 'mkdir', 'stat', 'utimes', 'fscanf', 'scandir', 'fflush'}


class Models:
    def __init__(self, summaries, internal, pure_internal=(), alloc_nonnull=True):
        self.sum = summaries
        self.internal = internal          # names of functions with bodies in this module
        self.alloc_nonnull = alloc_nonnull

    # -------------------------------------------------------------- intrinsics
    def intrinsic(self, eng, st, x, name):
        if name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            args = [eng.operand(st, t, v) for t, v in x.a[:3]]
            args = [eng.as_poly(a) for a in args]
            base = 'memset' if 'memset' in name else 'memcpy'
            return self.observed(eng, st, x, base, args)
        if name.startswith(('llvm.va_', 'llvm.stack', 'llvm.assume', 'llvm.prefetch')):
            if x.res is not None:
                eng.setreg(st, x, atom(('unk', ('ins', x.fn.name, x.uid), 'p' if x.ty[0] == 'ptr' else 'i')))
            return [st]
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            a = eng.as_poly(eng.operand(st, *x.a[0]))
            b = eng.as_poly(eng.operand(st, *x.a[1]))
            lt = eng.icmp(st, ('u' if name[5] == 'u' else 's') + 'lt', x.ty, a, b)
            out = []
            mn = 'min' in name[:9]
            for val in (True, False):
                s = st.copy()
                if eng.assume(s, lt, val) if not isinstance(lt, bool) else lt == val:
                    eng.setreg(s, x, a if val == mn else b)
                    out.append(s)
            return out
        if x.res is not None:
            args = [eng.operand(st, t, v) for t, v in x.a if v[0] != 'md']
            eng.setreg(st, x, atom(('op', name, tuple(args), 'i')))
        return [st]

    def observed(self, eng, st, x, name, args):
        if eng.mon is not None:
            r = eng.mon.on_call(eng, st, x, name, args)
            if r is not None:
                return r
        res = self.call(eng, st, x, name, args)
        if eng.mon is not None:
            out = []
            for s in res:
                out.extend(eng.mon.after_call(eng, s, x, name, args))
            return out
        return res

    # -------------------------------------------------------------- calls
    def call(self, eng, st, x, name, args):
        m = getattr(self, 'm_' + name, None) if name else None
        if m is not None and (name not in self.internal or name in ('_strdup',)):
            r = m(eng, st, x, args)
            if name in SETERRNO:
                for s in (r or []):
                    self.clobber_errno(eng, s, x)
            return r
        if name in PURE_EXT:
            vs = []
            for a in args:
                b, o = base_off(a)
                vs.append(a)
                if b is not None:
                    vs.append(self.strversion(eng, st, b, o))
            if name == 'strlen':
                tok = ('strlen', args[0], vs[1] if len(vs) > 1 else None)
                if args[0] and T.as_atom(args[0]) and False:
                    pass
                c = self.conststr(eng, args[0])
                if c is not None:
                    eng.setreg(st, x, const(len(c)))
                    return [st]
                eng.setreg(st, x, self.strlen(eng, st, args[0]))
                return [st]
            eng.setreg(st, x, atom(('pure', name, tuple(vs), 'p' if x.ty[0] == 'ptr' else 'i')))
            return [st]
        if name in NORETURN:
            if eng.mon is not None and hasattr(eng.mon, 'on_exit'):
                eng.mon.on_exit(eng, st, x, name, args)
            return []
        if name in ALLOC and name not in self.internal:
            return self.alloc(eng, st, x, name, args)
        if name in NOEFFECT:
            self.setret(eng, st, x)
            if name in SETERRNO:
                self.clobber_errno(eng, st, x)
            return [st]
        if name in self.internal:
            return self.internal_call(eng, st, x, name, args)
        if name and name.startswith('MPI_'):
            return self.mpi(eng, st, x, name, args)
        return self.unknown(eng, st, x, name, args)

    def clobber_errno(self, eng, st, x):
        tok = ('cs', x.fn.name, x.uid, 'errno')
        eng.retire_check(st, tok)
        eng.havoc(st, ERRNO, tok)

    def setret(self, eng, st, x, *flags):
        if x.res is not None and x.ty[0] != 'void':
            tok = eng.ret_atom(st, x, *flags)
            eng.setreg(st, x, atom(tok))
            return tok
        return None

    def strversion(self, eng, st, b, o):
        return eng.version(st, b, o if is_const(o) else None, 8)

    def conststr(self, eng, p):
        b, o = base_off(p)
        if b is not None and b[0] == 'glob' and is_const(o):
            g = eng.mod.globals.get(b[1])
            if g and g['const'] and g['init'] and g['init'][0] == 'cstr':
                s = g['init'][1][o[0]:]
                i = s.find(b'\0')
                return s[:i] if i >= 0 else s
        return None

    def strlen(self, eng, st, p):
        c = self.conststr(eng, p)
        if c is not None:
            return const(len(c))
        b, o = base_off(p)
        # strings produced by models carry their length in a side table
        if b is not None:
            t = st.mem.get(('strl', b), {}).get((o, 0)) if False else None
        return atom(('strlen', p, self.strversion(eng, st, b, o) if b is not None else None, 'i'))

    # -------------------------------------------------------------- allocation
    def alloc(self, eng, st, x, name, args):
        if name == 'fopen':
            self.clobber_errno(eng, st, x)
            self.setret(eng, st, x)
            return [st]
        tok = ('heap', (x.fn.name, x.uid))
        old = None
        if name == 'realloc':
            old = args[0]
        eng.retire_check(st, tok)
        if name == 'malloc' or name == 'aligned_alloc':
            size = args[-1]
        elif name == 'calloc':
            size = mul(args[0], args[1])
        elif name == 'realloc':
            size = args[1]
        elif name in ('strdup', '_strdup', 'strndup'):
            size = add(self.strlen(eng, st, args[0]), const(1))
        elif name == 'mpiu_malloc':
            size = args[1]
        else:
            size = atom(('unk', ('sz', x.fn.name, x.uid), 'i'))
        st.sz[tok] = size
        st.mem.pop(tok, None)
        if name == 'calloc':
            st.reg[tok] = ((None, None, 'zero', None),)
        elif name == 'realloc' and old is not None:
            ob, oo = base_off(old)
            if ob is not None:
                tok2 = eng.version(st, ob)
                st.reg[tok] = ((None, None, 'copy', (ob, const(0), ('ver', hash_ver(tok2)))),)
                m = st.mem.get(ob)
                if m:
                    st.mem[tok] = dict(m)
            else:
                st.reg[tok] = ((None, None, 'havoc', ('uninit', tok)),)
        else:
            st.reg[tok] = ((None, None, 'havoc', ('uninit', tok)),)
        eng.setreg(st, x, atom(tok))
        if not self.alloc_nonnull:
            s2 = st.copy()
            eng.setreg(s2, x, const(0))
            return [st, s2]
        return [st]

    # -------------------------------------------------------------- memory functions
    def m_memcpy(self, eng, st, x, args):
        d, s, n = args
        tok = ('cs', x.fn.name, x.uid, 'w')
        eng.retire_check(st, tok)
        db, do = base_off(d)
        sb, so = base_off(s)
        if db is not None:
            if sb is not None and is_const(n) and is_const(do):
                ents = {}
                for (o, sz), v in st.mem.get(sb, {}).items():
                    q = sub(o, so)
                    if is_const(q) and q[0] >= 0 and q[0] + sz <= n[0]:
                        ents[(add(do, q), sz)] = v
                sregs = st.reg.get(sb, ())
                ver = sregs[0] if sregs else 0
                if len(sregs) == 1 and sregs[0][2] == 'zero':
                    eng.havoc_range(st, d, n, tok, 'zero')
                else:
                    sv = 0
                    if sregs:
                        sv = sregs[0][3] if sregs[0][2] == 'havoc' else ('cpv', sregs[0])
                    eng.havoc_range(st, d, n, tok, 'copy', (sb, so, sv))
                    if sregs and sregs[0][2] == 'copy' and is_const(so) and (sregs[0][0] is None or sregs[0][0] <= so[0]):
                        sb2, so2, sv2 = sregs[0][3]
                        eng.havoc_range(st, d, n, tok, 'copy', (sb2, add(so2, add(so, const(-(sregs[0][0] or 0)))), sv2))
                m = st.mem.setdefault(db, {})
                for l, v in ents.items():
                    m[l] = v
                # field names travel with the copy
                for (b, o), t in list(eng.tags.items()):
                    if b == sb:
                        q = sub(o, so)
                        if is_const(q) and 0 <= q[0] < n[0]:
                            eng.tags.setdefault((db, add(do, q)), t)
            else:
                eng.havoc_range(st, d, n, tok)
                self.through_phi(eng, st, db, tok)
        if x.res is not None:
            eng.setreg(st, x, d)
        return [st]

    m_memmove = m_memcpy

    def through_phi(self, eng, st, b, tok):
        if b[0] == 'phi':
            for c in eng.leaves(b):
                eng.havoc(st, c, tok)
        mine = eng.leaves(b) if b[0] == 'phi' else frozenset((b,))
        if eng.nphi:
            for c in list(st.mem):
                if c != b and c[0] == 'phi' and not mine.isdisjoint(eng.leaves(c)):
                    eng.havoc(st, c, tok)

    def m_memset(self, eng, st, x, args):
        tok = ('cs', x.fn.name, x.uid, 'w')
        eng.retire_check(st, tok)
        zero = is_const(args[1]) and args[1][0] == 0
        eng.havoc_range(st, args[0], args[2], tok, 'zero' if zero else 'havoc')
        if x.res is not None:
            eng.setreg(st, x, args[0])
        return [st]

    def dest(self, eng, st, x, args, i=0, n=None):
        tok = ('cs', x.fn.name, x.uid, i)
        eng.retire_check(st, tok)
        eng.havoc_range(st, args[i], n, tok)
        b, o = base_off(args[i])
        if b is not None:
            self.through_phi(eng, st, b, tok)

    def m_strcpy(self, eng, st, x, args):
        c = self.conststr(eng, args[1])
        self.dest(eng, st, x, args, 0, const(len(c) + 1) if c is not None else None)
        if x.res is not None:
            eng.setreg(st, x, args[0])
        return [st]

    def m_strcat(self, eng, st, x, args):
        self.dest(eng, st, x, args)
        if x.res is not None:
            eng.setreg(st, x, args[0])
        return [st]

    def m_strncpy(self, eng, st, x, args):
        self.dest(eng, st, x, args, 0, args[2])
        if x.res is not None:
            eng.setreg(st, x, args[0])
        return [st]

    m_strncat = m_strcat

    def m_sprintf(self, eng, st, x, args):
        self.dest(eng, st, x, args)
        self.setret(eng, st, x)
        return [st]

    def m_snprintf(self, eng, st, x, args):
        self.dest(eng, st, x, args, 0, args[1])
        self.setret(eng, st, x)
        return [st]

    m_vsprintf = m_sprintf
    m_vsnprintf = m_snprintf

    def m_fread(self, eng, st, x, args):
        self.dest(eng, st, x, args, 0, mul(args[1], args[2]))
        tok = self.setret(eng, st, x, 'nn')
        if tok:
            # fread never returns more than requested
            eng.addfact(st, sub(args[2], atom(tok)))
        return [st]

    def m_fwrite(self, eng, st, x, args):
        tok = self.setret(eng, st, x, 'nn')
        if tok:
            eng.addfact(st, sub(args[2], atom(tok)))
        return [st]

    def m_fscanf(self, eng, st, x, args, start=2):
        for i in range(start, len(args)):
            b, o = base_off(args[i])
            if b is None:
                continue
            self.dest(eng, st, x, args, i, self.scanwidth(eng, x, args, start, i))
        self.setret(eng, st, x)
        return [st]

    def scanwidth(self, eng, x, args, start, i):
        fmt = self.conststr(eng, args[start - 1])
        if fmt is None:
            return None
        sizes = scan_sizes(fmt.decode('latin1'))
        k = i - start
        if k < len(sizes) and sizes[k]:
            return const(sizes[k])
        return None

    def m_sscanf(self, eng, st, x, args):
        return self.m_fscanf(eng, st, x, args, 2)

    def m_stat(self, eng, st, x, args):
        self.dest(eng, st, x, args, 1)
        self.setret(eng, st, x)
        self.clobber_errno(eng, st, x)
        return [st]

    m_lstat = m_stat

    def m_scandir(self, eng, st, x, args):
        self.dest(eng, st, x, args, 1, const(8))
        self.setret(eng, st, x)
        return [st]

    def m_qsort(self, eng, st, x, args):
        self.dest(eng, st, x, args, 0)
        return [st]

    def m_bsearch(self, eng, st, x, args):
        vs = []
        for i, a in enumerate(args[:2]):
            b, o = base_off(a)
            v = eng.version(st, b) if b is not None else None
            if i == 0 and b is not None and b[0] == 'al':
                # a key built in a local: only its content matters
                v = (tuple(e for e in v[0]), tuple(r for r in v[1] if r[2] != 'havoc'))
            else:
                vs.append(a)
            vs.append(v)
        vs.append(args[2])
        # a pointer into the array, or null
        eng.setreg(st, x, atom(('pure', 'bsearch', tuple(vs), 'p')))
        return [st]

    def m_strtoll(self, eng, st, x, args):
        if not (is_const(args[1]) and args[1][0] == 0):
            self.dest(eng, st, x, args, 1, const(8))
        b, o = base_off(args[0])
        eng.setreg(st, x, atom(('pure', 'strtoll', (args[0], self.strversion(eng, st, b, o) if b else None, args[2]), 'i')))
        return [st]

    m_strtol = m_strtoll
    m_strtoul = m_strtoll
    m_strtoull = m_strtoll

    def m_strtod(self, eng, st, x, args):
        if not (is_const(args[1]) and args[1][0] == 0):
            self.dest(eng, st, x, args, 1, const(8))
        self.setret(eng, st, x)
        return [st]

    def m_fgets(self, eng, st, x, args):
        self.dest(eng, st, x, args, 0, args[1])
        self.setret(eng, st, x)
        return [st]

    def m___errno_location(self, eng, st, x, args):
        eng.setreg(st, x, atom(ERRNO))
        return [st]

    def m___ctype_b_loc(self, eng, st, x, args):
        eng.setreg(st, x, atom(('pure', 'ctype', (), 'p')))
        return [st]

    def m_gettimeofday(self, eng, st, x, args):
        self.dest(eng, st, x, args, 0)
        self.setret(eng, st, x)
        return [st]

    def m__strdup(self, eng, st, x, args):
        return self.alloc(eng, st, x, '_strdup', args)

    # -------------------------------------------------------------- own functions
    def internal_call(self, eng, st, x, name, args):
        if name.startswith('_strdup'):
            return self.alloc(eng, st, x, '_strdup', args)
        S = self.sum.get(name)
        if S is None:
            return self.unknown(eng, st, x, name, args)
        if S.unknown:
            # calls through a pointer it was given: treat the pointed-to objects as changed
            pass
        if not S.writes and not S.impure and not S.globals_w:
            # a pure function of what it reads
            vs = list(args)
            for (root, d, last) in sorted(S.reads, key=repr):
                if root[0] == 'glob':
                    vs.append(eng.version(st, root))
                    continue
                if root[1] >= len(args):
                    continue
                for b, o in self.walk(eng, st, args[root[1]], d):
                    if last == '*':
                        vs.append(eng.version(st, b))
                    else:
                        vs.append(eng.version(st, b, add(o, const(last[0])), last[1] or 8))
            flags = ('p',) if x.ty[0] == 'ptr' else ('i',)
            if x.res is not None:
                eng.setreg(st, x, atom(('pure', name, tuple(vs)) + flags))
            return [st]
        tok = ('cs', x.fn.name, x.uid, 'w')
        eng.retire_check(st, tok)
        locs = []
        for (root, d, last) in sorted(S.writes, key=repr):
            if root[0] != 'arg' or root[1] >= len(args):
                continue
            for b, o in self.walk(eng, st, args[root[1]], d):
                locs.append((b, o, last))
        seen = set()
        for b, o, last in locs:
            if (b, o, last) in seen:
                continue
            seen.add((b, o, last))
            if last == '*' or last[1] is None or o is None:
                if last != '*' and o is not None and is_const(o):
                    eng.havoc_range(st, add(atom(b), add(o, const(last[0]))), None, tok)
                else:
                    eng.havoc(st, b, tok)
            else:
                lo = add(o, const(last[0]))
                size = last[1]
                eng.kill_overlap(st, b, lo, size, tok)
                m = st.mem.setdefault(b, {})
                if size <= 8:
                    t = eng.loctag(b, lo)
                    m[(lo, size)] = atom(('mod', tok, b, lo, 'p' if self.ptrfield(eng, t) else 'i'))
                else:
                    eng.havoc_range(st, add(atom(b), lo), const(size), tok)
            self.through_phi(eng, st, b, tok)
        for g in sorted(S.globals_w):
            eng.havoc(st, ('glob', g), tok)
        if S.impure:
            self.clobber_errno(eng, st, x)
        self.setret(eng, st, x)
        return [st]

    PTRFIELDS = {('BigBlock', 'basename'), ('BigBlock', 'fsize'), ('BigBlock', 'foffset'), ('BigBlock', 'fchecksum'),
                 ('BigBlock', 'attrset'), ('BigFile', 'basename'), ('BigArray', 'data'), ('BigAttr', 'name'), ('BigAttr', 'data'),
                 ('BigAttrSet', 'attrbuf'), ('BigAttrSet', 'attrlist'), ('BigArrayIter', 'array'), ('BigArrayIter', 'dataptr'),
                 ('BigRecordType', 'fields'), ('BigRecordField', 'name')}

    def ptrfield(self, eng, t):
        return t in self.PTRFIELDS

    def walk(self, eng, st, p, derefs):
        """objects reached from pointer p by a dereference chain: [(base, off)]"""
        b, o = base_off(p)
        cur = [(b, o)] if b is not None else []
        for off in derefs:
            nxt = []
            for b, o in cur:
                if off == '*' or o is None:
                    # every pointer known to be stored in the object
                    for (oo, s), v in st.mem.get(b, {}).items():
                        if is_poly(v):
                            bb, ob = base_off(v)
                            if bb is not None:
                                nxt.append((bb, None))
                    continue
                v = eng.loadloc(st, b, add(o, const(off)), 8, 'p')
                if is_poly(v):
                    bb, ob = base_off(v)
                    if bb is not None:
                        nxt.append((bb, ob))
            cur = nxt
        return cur

    def unknown(self, eng, st, x, name, args):
        eng.unknown_calls.add((name, eng.where(x)[0][:2] if eng.where(x) else None))
        tok = ('cs', x.fn.name, x.uid, 'w')
        eng.retire_check(st, tok)
        for a in args:
            if a is None:
                continue
            b, o = base_off(a)
            if b is not None and b[0] != 'fnp':
                g = eng.mod.globals.get(b[1]) if b[0] == 'glob' else None
                if g and g['const']:
                    continue
                m = dict(st.mem.get(b, {}))
                eng.havoc(st, b, tok)
                for l, v in m.items():
                    if is_poly(v):
                        bb, oo = base_off(v)
                        if bb is not None and bb != b:
                            eng.havoc(st, bb, tok)
        self.clobber_errno(eng, st, x)
        self.setret(eng, st, x)
        return [st]

    # -------------------------------------------------------------- MPI
    def mpi(self, eng, st, x, name, args):
        from .summary import EXT_W
        if name in ('MPI_Comm_rank', 'MPI_Comm_size'):
            comm = args[0]
            v = atom(('pure', name, (comm,), 'i'))
            if name == 'MPI_Comm_size':
                eng.addfact(st, add(v, const(-1)))
            r = atom(('pure', 'MPI_Comm_rank', (comm,), 'i'))
            s = atom(('pure', 'MPI_Comm_size', (comm,), 'i'))
            eng.addfact(st, add(sub(s, r), const(-1)))
            eng.store(st, args[1], 4, v, ('cs', x.fn.name, x.uid, 'w'))
            self.setret(eng, st, x)
            return [st]
        for i in EXT_W.get(name, range(len(args)) if name not in EXT_W else ()):
            if i >= len(args):
                continue
            b, o = base_off(args[i])
            if b is None or b[0] in ('fnp',):
                continue
            g = eng.mod.globals.get(b[1]) if b[0] == 'glob' else None
            if g and (g['const'] or g['ext']):
                continue
            n = None
            if name in ('MPI_Comm_split', 'MPI_Comm_free', 'MPI_Type_contiguous', 'MPI_Type_commit', 'MPI_Type_free', 'MPI_Type_get_extent'):
                n = const(8)
            elif name in ('MPI_Bcast', 'MPI_Allreduce', 'MPI_Reduce'):
                cnt = args[1] if name == 'MPI_Bcast' else args[2]
                dt = args[2] if name == 'MPI_Bcast' else args[3]
                n = mul(cnt, self.dtsize(dt))
            tok = ('cs', x.fn.name, x.uid, i)
            eng.retire_check(st, tok)
            if n is not None and is_const(n) and n[0] <= 8 and is_const(o):
                eng.kill_overlap(st, b, o, n[0], tok)
                t = eng.loctag(b, o)
                st.mem.setdefault(b, {})[(o, n[0])] = atom(('mod', tok, b, o, 'p' if name == 'MPI_Comm_split' or name.startswith('MPI_Type_c') else 'i'))
            else:
                eng.havoc_range(st, args[i], n, tok)
            self.through_phi(eng, st, b, tok)
        self.setret(eng, st, x)
        return [st]

    def dtsize(self, dt):
        a = as_atom(dt)
        n = a[1] if a is not None and a[0] == 'glob' else None
        return const({'ompi_mpi_int': 4, 'ompi_mpi_long': 8, 'ompi_mpi_byte': 1, 'ompi_mpi_unsigned': 4,
                      'ompi_mpi_char': 1, 'ompi_mpi_double': 8, 'ompi_mpi_unsigned_long': 8, 'ompi_mpi_float': 4,
                      'ompi_mpi_long_long_int': 8}[n]) if n in (
            'ompi_mpi_int', 'ompi_mpi_long', 'ompi_mpi_byte', 'ompi_mpi_unsigned', 'ompi_mpi_char', 'ompi_mpi_double',
            'ompi_mpi_unsigned_long', 'ompi_mpi_float', 'ompi_mpi_long_long_int') else atom(('pure', 'dtsize', (dt,), 'i'))


_vh = {}


def hash_ver(v):
    return _vh.setdefault(v, len(_vh))


def scan_sizes(fmt):
    """bytes written by every assigned conversion of a scanf format (None: a string)"""
    out = []
    for c in scan_convs(fmt):
        f, width, ln, star, ch = c
        if star:
            continue
        if ch in 'diuoxX':
            out.append({'': 4, 'h': 2, 'hh': 1, 'l': 8, 'll': 8, 'z': 8, 't': 8, 'j': 8}[ln])
        elif ch in 'n':
            out.append(4)
        elif ch in 'eEfgGa':
            out.append({'': 4, 'l': 8, 'L': 16}.get(ln, 4))
        elif ch == 'c':
            out.append(width or 1)
        elif ch in 's[':
            out.append(width + 1 if width else None)
        else:
            out.append(None)
    return out


def scan_convs(fmt):
    import re
    out = []
    i = 0
    while i < len(fmt):
        if fmt[i] != '%':
            i += 1
            continue
        if fmt[i + 1:i + 2] == '%':
            i += 2
            continue
        m = re.match(r'%([-+ #0]*)(\*?)(\d*)(?:\.(\d+|\*))?(hh|h|ll|l|z|t|j|L)?(\[\^?\]?[^]]*\]|[a-zA-Z])', fmt[i:])
        if not m:
            i += 1
            continue
        ch = m.group(6)[0]
        out.append((m.group(1), int(m.group(3)) if m.group(3) else None, m.group(5) or '', m.group(2) == '*', ch))
        i += m.end()
    return out
