"""Failure propagation: every call that can fail is given a succeeding and a failing outcome; on every
path after the first failing outcome the function must return a value that provably means failure."""
from sa import terms as T
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import Monitor, c_eq, c_not, rename
from sa.models import ERRNO, scan_convs
from sa.ctx import short

ENOENT, EEXIST = 2, 17
OPTIONAL = {b'attr', b'attr-v2'}

# name -> index of the stream argument
STREAM = {'fclose': 0, 'fflush': 0, 'fread': 3, 'fwrite': 3, 'fprintf': 0, 'fscanf': 0, 'fseek': 0, 'fseeko': 0, 'ftell': 0, 'ftello': 0, 'fputs': 1,
          'setbuf': 0, 'setvbuf': 0, 'feof': 0, 'ferror': 0, 'fgets': 2, 'fputc': 1, 'putc': 1, 'fgetc': 0}


class ErrProp(Monitor):
    """mon = (fail, streams, names)
    fail: None or (kind, site)
    streams: set of (token, mode, tail, unbuffered, dirty)
    names: set of (buffer token, last path component if constant)"""

    def __init__(self, ctx, fallible, ptr_fallible=(), ret='int', name=None, prims=True, ok_ret=None):
        self.ctx = ctx
        self.fallible = fallible
        self.ptr_fallible = set(ptr_fallible)
        self.ret = ret
        self.sites = {}
        self.bad = {}
        self.prims = prims

    def initial(self):
        return (None, frozenset(), frozenset())

    def join(self, eng, A, B):
        return A.mon

    def retire(self, eng, st, token, stale):
        f, s, n = st.mon
        if T.mentions(s_tuple(s), token):
            s = frozenset(rename(x, token, stale) for x in s if not T.mentions(x, stale))
        if T.mentions(s_tuple(n), token):
            n = frozenset(rename(x, token, stale) for x in n if not T.mentions(x, stale))
        st.mon = (f, s, n)

    # ------------------------------------------------------------ helpers
    def site(self, x, name):
        k = (x.fn.name, x.uid)
        self.sites[k] = (name, x)
        return k

    def fail(self, st, x, name, kind='fail'):
        self.site(x, name)
        if st.mon[0] is None:
            st.mon = ((kind, (x.fn.name, x.uid)), frozenset(), frozenset())

    def setret(self, eng, st, x, v):
        if x.res is not None:
            st.env[x.res] = v

    def fork(self, eng, st, x, name, okv, failv, kind='fail', failfact=None, okfact=None):
        a = st
        b = st.copy()
        if okv is not None:
            self.setret(eng, a, x, okv)
        for f in okfact or ():
            eng.addfact(a, f)
        if failv is not None:
            self.setret(eng, b, x, failv)
        for f in failfact or ():
            eng.addfact(b, f)
        self.fail(b, x, name, kind)
        return [a, b]

    # ------------------------------------------------------------ calls
    def on_call(self, eng, st, x, name, args):
        if name == '_big_file_raise':
            self.site(x, name)
            if st.mon[0] is None:
                self.fail(st, x, name, 'raised')
        if name in ('sprintf', 'snprintf', 'strcpy', 'strcat', 'memcpy', 'strncpy', 'strdup', '_strdup') and st.mon[0] is None:
            self.note_name(eng, st, x, name, args)
        if name == 'free' and st.mon[2]:
            b, o = base_off(args[0])
            st.mon = (st.mon[0], st.mon[1], frozenset(n for n in st.mon[2] if n[0] != b))
        return None

    def note_name(self, eng, st, x, name, args):
        src = None
        dst = args[0]
        if name in ('strcpy', 'strcat', 'memcpy', 'strncpy'):
            src = args[1]
        elif name in ('sprintf', 'snprintf'):
            fi = 1 if name == 'sprintf' else 2
            fmt = eng.models.conststr(eng, args[fi])
            if fmt and fmt.endswith(b'%s'):
                src = args[-1]
        b, o = base_off(dst)
        if b is None or src is None:
            return
        c = eng.models.conststr(eng, src)
        if c is None:
            sb, so = base_off(src)
            for t, tail in st.mon[2]:
                if t == sb:
                    c = tail
        n = frozenset(z for z in st.mon[2] if z[0] != b)
        if c:
            n = n | {(b, c)}
        st.mon = (st.mon[0], st.mon[1], n)

    def stream(self, st, p):
        a = as_atom(p) if is_poly(p) else None
        for s in st.mon[1]:
            if s[0] == a:
                return s
        return None

    def upd(self, st, old, new):
        f, s, n = st.mon
        s = frozenset(z for z in s if z != old)
        if new is not None:
            s = s | {new}
        st.mon = (f, s, n)

    def after_call(self, eng, st, x, name, args):
        if st.mon[0] is not None:
            return self.after_fail(eng, st, x, name, args)
        r = st.env.get(x.res) if x.res is not None else None
        n = name
        if n in self.fallible:
            self.site(x, n)
            # failing own functions return a negative value (checked at their own returns)
            return self.fork(eng, st, x, n, const(0), const(-1))
        if n in self.ptr_fallible:
            self.site(x, n)
            a = st
            b = st.copy()
            if r is not None:
                eng.assume(a, c_not(c_eq(r)))
                self.setret(eng, b, x, const(0))
            self.fail(b, x, n)
            return [a, b]
        if not self.prims:
            return [st]
        if n == 'fopen':
            return self.m_fopen(eng, st, x, args, r)
        if n in ('setbuf',):
            s = self.stream(st, args[0])
            if s and is_const(args[1]) and args[1][0] == 0:
                self.upd(st, s, s[:3] + (True, s[4]))
            return [st]
        if n == 'setvbuf':
            s = self.stream(st, args[0])
            if s and is_const(args[2]) and args[2][0] == 2:
                self.upd(st, s, s[:3] + (True, s[4]))
            return [st]
        if n in ('fwrite', 'fread'):
            s = self.stream(st, args[3])
            cnt = args[2]
            a = st
            b = st.copy()
            self.setret(eng, a, x, cnt)
            if n == 'fwrite':
                if s and not s[3]:
                    self.upd(a, s, s[:4] + (True,))
                elif s is None:
                    pass
            if is_const(cnt) and cnt[0] == 1:
                self.setret(eng, b, x, const(0))
            elif r is not None:
                eng.addfact(b, add(sub(cnt, r), const(-1)))
            out = [a, b]
            if n == 'fread' and s and s[2] == b'attr' and is_const(args[1]) and args[1][0] == 4:
                # the legacy attribute file simply ends between two records: end of file is not a failure there
                c = st.copy()
                self.setret(eng, c, x, const(0))
                c.bools[('opaque', ('eof', (x.fn.name, x.uid)))] = True
                c.mon = (c.mon[0], frozenset(z for z in c.mon[1] if z != s) | {s[:4] + ('eof',)}, c.mon[2])
                b.mon = (b.mon[0], frozenset(z for z in b.mon[1] if z != s) | {s[:4] + ('err',)}, b.mon[2])
                self.fail(b, x, n, 'readerr')
                self.site(x, n)
                return [a, b, c]
            # zero items requested: nothing can fail
            if eng.decide(b, c_eq(cnt)) is True:
                return [a]
            self.fail(b, x, n)
            return out
        if n == 'fscanf':
            k = len([c for c in scan_convs((eng.models.conststr(eng, args[1]) or b'').decode('latin1')) if not c[3] and c[4] != 'n'])
            if eng.models.conststr(eng, args[1]) is None:
                k = len(args) - 2
            fv = atom(T.as_atom(r)) if r is not None and as_atom(r) else None
            return self.fork(eng, st, x, n, const(k), r, failfact=[sub(const(k - 1), r)] if r is not None else ())
        if n in ('fprintf', 'fputs', 'fputc', 'putc', 'vfprintf'):
            s = self.stream(st, args[STREAM.get(n, 0)])
            if s is None:
                return [st]
            b = st.copy()
            if not s[3]:
                self.upd(st, s, s[:4] + (True,))
            if r is not None:
                eng.addfact(st, add(r, const(-1)))
                self.setret(eng, b, x, const(-1))
            self.fail(b, x, n)
            return [st, b]
        if n in ('fclose', 'fflush'):
            s = self.stream(st, args[0])
            if s is None:
                return [st]
            b = st.copy()
            self.setret(eng, st, x, const(0))
            if n == 'fclose':
                self.upd(st, s, None)
            else:
                self.upd(st, s, s[:4] + (False,))
            if s[4] is True:
                # buffered data reaches the file only now
                self.setret(eng, b, x, const(-1))
                self.fail(b, x, n)
                return [st, b]
            return [st]
        if n in ('fseek', 'fseeko'):
            if self.stream(st, args[0]) is None:
                return [st]
            return self.fork(eng, st, x, n, const(0), const(-1))
        if n in ('ftell', 'ftello'):
            if self.stream(st, args[0]) is None:
                return [st]
            return self.fork(eng, st, x, n, r, const(-1), okfact=[r] if r is not None else ())
        if n == 'ferror':
            self.setret(eng, st, x, const(0))
            return [st]
        if n == 'mkdir':
            return self.fork(eng, st, x, n, const(0), const(-1), kind='mkdir')
        if n in ('stat', 'lstat', 'access'):
            return self.fork(eng, st, x, n, const(0), const(-1))
        if n in ('ftruncate', 'truncate', 'rename', 'fsync'):
            return self.fork(eng, st, x, n, const(0), const(-1))
        return [st]

    def m_fopen(self, eng, st, x, args, r):
        mode = eng.models.conststr(eng, args[1])
        if mode is None:
            mode = b'?'
        pb, po = base_off(args[0])
        tail = None
        for t, tl in st.mon[2]:
            if t == pb:
                tail = tl
        tail = tail.rsplit(b'/', 1)[-1] if tail else None
        a = st
        b = st.copy()
        c = st.copy()
        if r is not None:
            eng.assume(a, c_not(c_eq(r)))
            a.mon = (a.mon[0], a.mon[1] | {(as_atom(r), mode, tail, False, False)}, a.mon[2])
            for s in (b, c):
                self.setret(eng, s, x, const(0))
        self.site(x, 'fopen')
        # absent file
        eng.store(b, atom(ERRNO), 4, const(ENOENT), ('st', 'errno', x.uid))
        if not (tail in OPTIONAL and mode.startswith(b'r')):
            self.fail(b, x, 'fopen')
        # present, but it cannot be opened
        e = eng.load(c, atom(ERRNO), 4, 'i32')
        c.ne = c.ne | {add(e, const(-ENOENT))}
        self.fail(c, x, 'fopen')
        return [a, b, c]

    def after_fail(self, eng, st, x, name, args):
        k, site = st.mon[0]
        if k == 'mkdir' and name in ('stat', 'lstat', 'access'):
            b = st.copy()
            self.setret(eng, st, x, const(0))
            st.mon = (None, st.mon[1], st.mon[2])       # the directory exists after all
            self.setret(eng, b, x, const(-1))
            return [st, b]
        if k == 'readerr' and name == 'ferror':
            self.setret(eng, st, x, const(1))
        if k == 'readerr' and name == 'feof':
            self.setret(eng, st, x, const(0))
        return [st]

    def on_cond(self, eng, st, x, c, val):
        # errno == EEXIST after a failing mkdir: the directory is already there
        f = st.mon[0]
        if f is not None and f[0] == 'mkdir' and isinstance(c, tuple):
            if c[0] == 'not':
                c, val = c[1], not val
            if c[0] == 'eq' and val:
                for m, k in c[1][1]:
                    if len(m) == 1 and k == 1 and m[0][0] == 'ld' and m[0][1] == ERRNO and c[1][0] == -EEXIST:
                        st.mon = (None, st.mon[1], st.mon[2])
        return True

    def on_ret(self, eng, st, x, v):
        if st.mon[0] is None:
            return
        kind, site = st.mon[0]
        if self.ret == 'int':
            ok = v is not None and (eng.decide(st, c_eq(v)) is False)
        elif self.ret == 'ptr':
            ok = v is not None and (eng.decide(st, c_eq(v)) is True)
        else:
            ok = True
        if not ok:
            self.bad.setdefault(site, []).append((st, x, v))


def s_tuple(s):
    return tuple(s)


FALLIBLE_INT = {
    'big_file_open', 'big_file_create', 'big_file_open_block', 'big_file_create_block', '_big_block_open', 'big_block_grow',
    '_big_block_create_internal', '_big_block_create', 'big_block_flush', 'big_block_close', 'big_block_remove_attr', 'big_block_set_attr',
    'big_block_get_attr', 'big_block_seek', 'big_block_seek_rel', 'big_block_read_simple', 'big_block_read', 'big_block_write', '_dtype_convert',
    '_big_file_mksubdir_r', 'big_file_create_records', 'big_file_write_records', 'big_file_read_records'}


def fallible(m):
    """int-returning functions that raise an error, or call one that does, plus the documented ones"""
    out = set(FALLIBLE_INT) & set(m.funcs)
    ch = True
    while ch:
        ch = False
        for f in m.funcs.values():
            if f.name in out or f.ret[0] != 'int' or f.name.startswith(('big_file_dtype', 'big_record')):
                continue
            for x in f.insns():
                if x.op == 'call' and x.extra['callee'][0] == 'glob' and (x.extra['callee'][1] == '_big_file_raise' or x.extra['callee'][1] in out):
                    out.add(f.name)
                    ch = True
                    break
    return out


def describe(mod, x, name):
    return '%s at %s' % (name, short(mod.loc(x)))


def chain(mod, x):
    """the functions from the analysed one down to the one that contains the call"""
    loc = mod.loc(x) or []
    c = [f for _, _, f in reversed(loc)]
    return '/'.join(c) if c else x.fn.name


def ordinal(mod, x, name):
    """position of the call among the calls of the same function in the same source function"""
    loc = mod.loc(x)
    inner = loc[0][2] if loc else x.fn.name
    ls = []
    for y in x.fn.insns():
        if y.op == 'call' and y.extra['callee'] == x.extra['callee']:
            l = mod.loc(y)
            if l and l[0][2] == inner:
                ls.append((l[0][1], y.uid))
    ls = sorted(set(l for l, u in ls))
    return inner, (ls.index(loc[0][1]) if loc and loc[0][1] in ls else 0)


def report(ctx, m, mon, fname, what='its failure does not reach the return value'):
    for site, (name, x) in sorted(mon.sites.items()):
        ctx.obligation(site not in mon.bad)
    for site, hits in sorted(mon.bad.items()):
        name, x = mon.sites[site]
        inner, o = ordinal(m, x, name)
        st, rx, v = hits[0]
        ctx.violation('%s/%s#%d' % (chain(m, x), name, o),
                      'in %s: when %s fails, %s (it can return %s)' % (fname, name, what, T.show(v) if v is not None else 'void'),
                      short(m.loc(x)), trace_of(m, st))


def trace_of(m, st):
    out = []
    t = st.trace
    while t is not None and len(out) < 60:
        out.append(t[1])
        t = t[0]
    return ' -> '.join(reversed(out))
