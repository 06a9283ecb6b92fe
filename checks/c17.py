"""C17: what Python hands to the C library fits what the library does with it, and is released once."""
from sa import pyx
from sa.engine import AnalysisError
from sa.pyx import norm
from .c16 import modules, where, agreed

NP = ('glob', 'numpy')
FRESH = {'empty', 'zeros', 'ones', 'arange', 'ascontiguousarray', 'full'}
BYTES = {'uint8', 'u1', 'S1', 'b', 'B', 'int8', 'i1', '|u1', '|S1'}
WORDS = {'intp', 'uintp', 'int64', 'uint64', 'i8', 'u8', '<i8', '<u8'}
OPENS = {'big_file_open': 'bf', 'big_file_create': 'bf', 'big_file_open_block': 'bb', 'big_file_create_block': 'bb', '_big_block_unpack': 'bb'}
CLOSES = {'big_file_close': 'bf', 'big_block_close': 'bb', '_big_block_close_internal': 'bb'}


def args_of(t, *names):
    """positional or keyword arguments of a call to a numpy function (without the module) """
    pos, kw = list(t[2]), dict(t[3])
    if pos and pos[0] == NP:
        pos = pos[1:]
    return [pos[i] if i < len(pos) else kw.get(n) for i, n in enumerate(names)]


def isnp(t, names):
    return t[0] == 'call' and t[1] in names and t[2] and t[2][0] == NP


def method(t, names):
    return t[0] == 'call' and t[1] in names and t[2] and t[2][0] != NP


def first(shape):
    """the length along the first axis and whether there is only one axis"""
    if shape is None:
        return None, False
    if shape[0] in ('tuple', 'list'):
        return (shape[1][0] if shape[1] else None), len(shape[1]) == 1
    return shape, True


def lin(t):
    """integer expression as a sum: (constant, {term: factor})"""
    if t[0] == 'c' and isinstance(t[1], int):
        return t[1], {}
    if t[0] == 'bin' and t[1] in ('+', '-'):
        a, b = lin(t[2]), lin(t[3])
        s = 1 if t[1] == '+' else -1
        d = dict(a[1])
        for k, v in b[1].items():
            d[k] = d.get(k, 0) + s * v
        return a[0] + s * b[0], {k: v for k, v in d.items() if v}
    return 0, {t: 1}


def same(a, b):
    return a is not None and b is not None and lin(a) == lin(b)


class Arr:
    """what is known about an array in a state"""

    def __init__(self, I, st):
        self.I, self.st = I, st

    def eqs(self, t):
        """terms known to be equal to t here"""
        r = []
        for k, v in self.st.facts.items():
            if v and k[0] == 'cmp' and k[1] in ('==', 'is'):
                if k[2] == t:
                    r.append(k[3])
                elif k[3] == t:
                    r.append(k[2])
        return r

    def dtypes(self, x):
        """terms that the dtype of x is known to be"""
        r = [('attr', x, 'dtype')]
        r += self.eqs(r[0])
        if isnp(x, ('empty', 'zeros', 'ones')):
            d = args_of(x, 'shape', 'dtype')[1]
            r += [d] if d else []
        elif isnp(x, ('ascontiguousarray', 'array', 'asarray')):
            y, d = args_of(x, 'a', 'dtype')
            if d:
                r += [d]
            elif y is not None:
                r += self.dtypes(y)
        elif method(x, ('astype', 'view')):
            d = x[2][1] if len(x[2]) > 1 else dict(x[3]).get('dtype')
            if d:
                r += [d]
        elif method(x, ('ravel', 'copy', 'reshape', 'flatten')):
            r += self.dtypes(x[2][0])
        elif x[0] == 'slice':
            r += self.dtypes(x[1])
        return r

    def length(self, x):
        """terms that the length along the first axis is known to be"""
        n = ('idx', ('attr', x, 'shape'), ('c', 0))
        r = [n] + self.eqs(n)
        if isnp(x, ('empty', 'zeros', 'ones', 'full')):
            l = first(args_of(x, 'shape')[0])[0]
            r += [l] if l else []
        elif isnp(x, ('ascontiguousarray', 'array', 'asarray')):
            y = args_of(x, 'a')[0]
            r += self.length(y) if y is not None else []
        elif isnp(x, ('arange',)) and len(x[2]) == 2:
            r.append(x[2][1])
        elif isnp(x, ('diff',)):
            r += [('bin', '-', l, ('c', 1)) for l in self.length(x[2][1])]
        elif method(x, ('astype', 'copy')):
            r += self.length(x[2][0])
        elif x[0] == 'bin':
            for s in (x[2], x[3]):
                if s[0] in ('call', 'bin', 'slice', 'idx') and len(self.length(s)) > 1:
                    r += self.length(s)
                    break
        elif x[0] in ('idx', 'slice'):
            s = x[2]
            if x[0] == 'idx' and s[0] == 'SliceNode':
                parts = s[1]
                r += []
            if x[0] == 'slice' and len(s) == 1 and s[0] in (('c', 1), ('c', -1)):
                r += [('bin', '-', l, ('c', 1)) for l in self.length(x[1])]
        return r

    def has_length(self, x, n):
        if any(same(l, n) for l in self.length(x)):
            return True
        for l in self.length(x):
            # at least as long
            v, pos = norm(('cmp', '<', l, n))
            f = self.st.facts.get(v)
            if f is not None and f != pos:
                return True
        return False

    def truth(self, t):
        v, pos = norm(t)
        f = self.st.facts.get(v)
        return None if f is None else f == pos

    def contiguous(self, x):
        if isnp(x, FRESH) or isnp(x, ('diff',)):
            return True
        if isnp(x, ('array',)):
            # of something that is no array already
            y = args_of(x, 'object')[0]
            return y is not None and y[0] in ('comp', 'list', 'tuple', 'c') or self.order(x)
        if method(x, ('ravel', 'copy', 'flatten', 'astype')) and x[1] in ('ravel', 'flatten'):
            return True
        if method(x, ('view',)):
            return self.contiguous(x[2][0])
        fl = ('attr', x, 'flags')
        for t in (('attr', fl, 'c_contiguous'), ('attr', fl, 'contiguous'), ('attr', fl, 'carray'), ('idx', fl, ('c', 'C_CONTIGUOUS')), ('idx', fl, ('c', 'C')), ('idx', fl, ('c', 'CONTIGUOUS'))):
            if self.truth(t) is True:
                return True
        return False

    def order(self, x):
        return dict(x[3]).get('order') == ('c', 'C')

    def onedim(self, x):
        if ('c', 1) in self.eqs(('attr', x, 'ndim')):
            return True
        if isnp(x, ('empty', 'zeros', 'ones')):
            return first(args_of(x, 'shape')[0])[1]
        if isnp(x, ('ascontiguousarray', 'asarray')) or isnp(x, ('array',)) and args_of(x, 'a')[0] is not None and args_of(x, 'a')[0][0] not in ('comp', 'list'):
            return self.onedim(args_of(x, 'a')[0])
        if isnp(x, ('array',)):
            return True
        if method(x, ('ravel', 'flatten')):
            return True
        if method(x, ('view', 'copy', 'astype')):
            return self.onedim(x[2][0])
        return False

    def noobjects(self, x):
        for d in self.dtypes(x):
            if self.truth(('attr', d, 'hasobject')) is False or d[0] == 'c':
                return True
        return False


def mentions(t, part):
    if t == part:
        return True
    return isinstance(t, tuple) and any(mentions(x, part) for x in t)


def const_dtype(ds):
    r = {d[1] for d in ds if d[0] == 'c'}
    r |= {d[2] for d in ds if d[0] == 'attr' and d[1] == NP}
    return r


class Fits:
    """mon: (frozenset of (thing, state))"""

    def __init__(self, externs, fun, fresh):
        self.externs, self.fun, self.fresh = externs, fun, fresh
        self.bad = {}
        self.done = set()
        self.listed = set()
        self.freed_elems = set()

    def initial(self):
        return frozenset()

    def note(self, I, e, what, ok, *key):
        f = I.stack[-1]
        self.done.add((f.qual, e['line'], what))
        if not ok:
            self.bad.setdefault((f.qual, what) + key, (f, e['line']))

    def live(self, I, st, x):
        """something holds the array"""
        return any(v == x for v in st.env.values()) or any(v == x for v in st.heap.values()) or len(I.stack) > 1 or x[0] in ('attr', 'par')

    def on_call(self, I, st, o, name, args, kw, e):
        if name == 'fill' and o is not None:
            st.heap[('filled', o)] = True
            return None
        if o is not None or name not in self.externs and name not in ('memcpy', 'free'):
            return None
        A = Arr(I, st)
        data = lambda t: t[1] if t[0] == 'attr' and t[2] == 'data' else None
        if name == 'big_array_init':
            x = data(args[1])
            ok = x is not None and args[3] == ('attr', x, 'ndim') and args[4] == ('attr', x, 'shape') and (args[5] == ('attr', x, 'strides') or args[5] == ('c', 0) and A.contiguous(x))
            self.note(I, e, 'describes an array with the shape, dimensions or strides of something else', ok)
            if x is not None:
                dt = args[2]
                if dt[0] == 'attr' and dt[2] == 'dtype' and dt[1][0] == 'attr' and dt[1][2] == 'bb':
                    own = ('attr', dt[1][1], 'dtype')
                    ok = any(mentions(d, own) or mentions(d, dt) for d in A.dtypes(x))
                    for k, v in st.facts.items():
                        if v and k[0] == 'cmp' and k[1] == '==' and mentions(k, ('attr', x, 'dtype')) and mentions(k, own) and (k[2][0] == 'attr' and k[2][2] == k[3][2] and k[2][2] in ('itemsize', 'dtype', 'base', 'str')):
                            ok = True
                else:
                    ok = any(mentions(dt, d) for d in A.dtypes(x) if d[0] != 'c')
                self.note(I, e, 'describes an array with a type that need not be its own', ok)
                if args[0][0] == 'ref':
                    st.env[args[0][1]] = ('array', x)
        elif name in ('big_block_read', 'big_block_write'):
            p, a = args[1], args[2]
            pv = st.env.get(p[1]) if p[0] == 'ref' and isinstance(p[1], str) else ('out',)
            av = st.env.get(a[1]) if a[0] == 'ref' and isinstance(a[1], str) else None
            self.note(I, e, 'uses a position that was not set', pv is not None and pv[0] != 'var')
            self.note(I, e, 'uses an array that was not described', av is None or av[0] != 'var')
            if av is not None and av[0] == 'array':
                self.note(I, e, 'uses the memory of an array that nothing keeps', self.live(I, st, av[1]))
        elif name in ('big_file_read_records', 'big_file_write_records'):
            x = data(args[4])
            n = args[3]
            self.note(I, e, 'uses memory that is not the data of an array', x is not None)
            if x is not None:
                self.note(I, e, 'uses an array that may not be contiguous', A.contiguous(x))
                own = ('attr', ('self',), 'dtype')
                self.note(I, e, 'uses an array with a type that may not be that of the records', any(d == own or mentions(d, own) for d in A.dtypes(x)))
                self.note(I, e, 'uses an array that may be shorter than the records', A.has_length(x, n))
                self.note(I, e, 'uses the memory of an array that nothing keeps', self.live(I, st, x))
        elif name in ('big_block_set_attr', 'big_block_get_attr'):
            x = data(args[2])
            dt, n = args[3], args[4]
            self.note(I, e, 'uses memory that is not the data of an array', x is not None)
            if x is not None:
                self.note(I, e, 'uses an array that may not be contiguous', A.contiguous(x))
                self.note(I, e, 'uses an array with another length', A.onedim(x) and A.has_length(x, n))
                ds = A.dtypes(x)
                ok = any(d == dt or mentions(dt, d) for d in ds if d[0] != 'c') or dt == ('c', 'a1') and bool(const_dtype(ds) & BYTES) or dt[0] == 'c' and dt[1] in const_dtype(ds)
                self.note(I, e, 'uses an array with another type', ok)
                if name == 'big_block_set_attr':
                    self.note(I, e, 'stores an array that may hold Python objects', A.noobjects(x))
        elif name in ('big_file_create_block', 'big_block_grow', 'big_file_create_records'):
            fs, n = args[-1], args[-2] if name != 'big_block_grow' else args[1]
            x = data(fs)
            if fs == ('c', 0):
                self.note(I, e, 'gives no sizes for its files', n == ('c', 0))
            else:
                self.note(I, e, 'uses memory that is not the data of an array', x is not None)
                if x is not None:
                    self.note(I, e, 'gives sizes for another number of files', A.has_length(x, n))
                    self.note(I, e, 'gives sizes that are no 8 byte integers', bool(const_dtype(A.dtypes(x)) & WORDS))
                    self.note(I, e, 'gives sizes that may not be contiguous', A.contiguous(x) or method(x, ('astype', 'copy')))
                    self.note(I, e, 'gives sizes that were not filled in', not isnp(x, ('empty',)) or ('filled', x) in st.heap)
                    self.note(I, e, 'uses the memory of an array that nothing keeps', self.live(I, st, x))
        elif name == 'memcpy':
            x, src, n = data(args[0]), args[1], args[2]
            ok = x is not None and A.has_length(x, n) and bool(const_dtype(A.dtypes(x)) & BYTES)
            self.note(I, e, 'copies more than the array may hold', ok)
            self.note(I, e, 'copies another number of bytes than were packed', src[0] != 'own' or n == ('out', '_big_block_pack', src[2], 1))
            self.note(I, e, 'copies what was released', src[0] != 'own' or (src, 'live') in st.mon)
        elif name == '_big_block_pack':
            v = ('own', 'pack', e['line'])
            self.outs(st, name, args, e)
            st.mon = st.mon | {(v, 'live')}
            self.note(I, e, 'packs', True)
            return [(st, v)]
        elif name == 'big_file_list':
            v = ('own', 'list', e['line'])
            self.outs(st, name, args, e)
            if args[1][0] == 'ref':
                st.env[args[1][1]] = v
            self.listed.add(v)
            st.mon = st.mon | {(v, 'live')}
            return [(st, ('c', 0))]
        elif name == 'free':
            v = args[0]
            if v[0] == 'idx' and v[1][0] == 'own':
                self.freed_elems.add(v[1])
                self.note(I, e, 'uses what was released', (v[1], 'live') in st.mon)
            elif v[0] == 'own':
                self.note(I, e, 'releases memory twice', (v, 'live') in st.mon)
                st.mon = st.mon - {(v, 'live')}
            elif v[0] == 'var':
                self.note(I, e, 'releases memory it never got', False)
        elif name == 'big_block_lookup_attr':
            return [(st, ('ptr', name, e['line'])), (st.copy(), ('c', 0))]
        if name in OPENS and name != '_big_block_unpack' or name == '_big_block_unpack':
            return self.open(I, st, name, args, e)
        if name in CLOSES:
            return self.close(I, st, name, args, e)
        if name not in ('memcpy', 'free', 'big_array_init'):
            self.outs(st, name, args, e)
        fails = {'big_block_read', 'big_block_write', 'big_block_seek', 'big_block_flush', 'big_block_grow', 'big_block_set_attr', 'big_block_get_attr', 'big_block_remove_attr', 'big_file_create_records', 'big_file_read_records', 'big_file_write_records'}
        if name in fails:
            return [(st, ('c', 0)), (st.copy(), ('c', -1))]
        return None

    def outs(self, st, name, args, e):
        for i, a in enumerate(args):
            if a[0] == 'ref' and isinstance(a[1], str) and st.env.get(a[1], ('var',))[0] == 'var':
                st.env[a[1]] = ('out', name, e['line'], i)
            elif a[0] == 'ref' and isinstance(a[1], str) and name in ('_big_block_pack', 'big_file_list'):
                st.env[a[1]] = ('out', name, e['line'], i)

    def struct(self, args, field):
        for a in args:
            if a[0] == 'ref' and isinstance(a[1], tuple) and a[1][0] == 'attr' and a[1][2] == field:
                yield a[1][1]

    def flag(self, I, st, obj):
        """truth of obj._deallocated"""
        v = st.heap.get((obj, '_deallocated'), ('attr', obj, '_deallocated'))
        return I.truth(v, st)

    def state(self, st, obj):
        for k, s in st.mon:
            if k == ('struct', obj):
                return s
        return None

    def put(self, st, obj, s):
        st.mon = frozenset(x for x in st.mon if x[0] != ('struct', obj)) | {(('struct', obj), s)}

    def open(self, I, st, name, args, e):
        objs = list(self.struct(args, OPENS[name]))
        if name == '_big_block_unpack':
            x = args[1]
            self.note(I, e, 'unpacks what is not the data of an array', x[0] == 'attr' and x[2] == 'data' and x[1] != ('c', None))
        r = [(st, ('c', 0))]
        if name != '_big_block_unpack':
            r.append((st.copy(), ('c', -1)))
        for obj in objs:
            s = self.state(st, obj)
            closed = s == 'closed' or s is None and (self.flag(I, st, obj) is True or self.fresh and obj == ('self',) or obj[0] == 'obj')
            self.note(I, e, 'opens over what is open', closed)
            self.put(st, obj, 'open')
            if len(r) == 2:
                self.put(r[1][0], obj, 'closed')
        return r

    def close(self, I, st, name, args, e):
        for obj in self.struct(args, CLOSES[name]):
            s = self.state(st, obj)
            ok = s == 'open' or s is None and (I.truth(('attr', obj, '_deallocated'), st) is False or self.flag(I, st, obj) is False or name == '_big_block_close_internal')
            self.note(I, e, 'closes what may not be open', ok)
            self.put(st, obj, 'closed')
        if name in ('big_block_close',):
            return [(st, ('c', 0)), (st.copy(), ('c', -1))]
        return [(st, ('c', 0))]

    def truth(self, I, v, st):
        if v[0] in ('ptr', 'own'):
            return True
        return None

    def on_setitem(self, I, st, o, i, v, s):
        if i is None or i[0] in ('slice', 'SliceNode') or i == ('c', '...'):
            st.heap[('filled', o)] = True

    def on_index(self, I, st, base, e):
        if base[0] == 'own':
            self.note(I, e, 'uses what was released', (base, 'live') in st.mon)

    def on_return(self, I, fun, kind, st):
        e = {'line': fun.line}
        I.stack.append(fun)
        try:
            for k, s in st.mon:
                if s == 'live' and kind == 'return':
                    self.note(I, {'line': k[2]}, 'does not release what was %s' % {'pack': 'packed', 'list': 'listed'}[k[1]], False)
                if k[0] == 'struct' and (k[1] == ('self',) or k[1][0] == 'obj'):
                    fl = self.flag(I, st, k[1])
                    if s == 'open' and k[1] == ('self',):
                        self.note(I, e, 'leaves something open that is never closed', fl is False or fl is None and (k[1], '_deallocated') not in st.heap and not self.fresh)
                    if s == 'closed':
                        self.note(I, e, 'leaves something marked as open that is not', fl is True or fl is None and self.fresh and (k[1], '_deallocated') not in st.heap)
        finally:
            I.stack.pop()


def check(ctx):
    ms = modules()
    px = ms[0]
    externs = set(px.externs)
    total = 0
    handed = 0
    for f in px.functions():
        if f.cls is None:
            continue
        fresh = f.name in ('__init__', '__cinit__', '__setstate__')
        mon = Fits(externs, f, fresh)
        I = pyx.Interp(ms, mon)
        try:
            outs = I.run(f)
        except pyx.PyxError as x:
            raise AnalysisError('%s: %s' % (f.qual, x))
        for kind, st, v in outs:
            mon.on_return(I, f, kind, st)
        if mon.listed - mon.freed_elems and f.name != '__cinit__':
            mon.bad.setdefault((f.qual, 'does not release the names listed'), (f, f.line))
        if f.qual == 'Dataset.__init__':
            ok = True
            a, b = ('attr', ('attr', ('self',), 'dtype'), 'itemsize'), ('attr', ('attr', ('self',), 'rtype'), 'itemsize')
            for kind, st, v in outs:
                if kind == 'return':
                    d = st.heap.get((('self',), 'dtype'))
                    ok = ok and d is not None and st.facts.get(norm(('cmp', '==', ('attr', d, 'itemsize'), b))[0]) is True
            mon.done.add((f.qual, f.line, 'record size'))
            if not ok:
                mon.bad[(f.qual, 'has a record type whose size may not be that of the records')] = (f, f.line)
        ctx.functions.append('%s:%s' % (f.mod.path, f.qual))
        ctx.obligation(not mon.bad, len(mon.done))
        handed += len(mon.done)
        ctx.sample({'function': f.qual, 'paths': len(outs), 'obligations': len(mon.done)})
        for k, (g, line) in sorted(mon.bad.items()):
            ctx.violation('%s/%s' % (k[0], k[1].replace(' ', '_')), '%s %s' % (k[0], k[1]), where(g, line))
    if not handed:
        raise AnalysisError('nothing is handed to the C library')
    ctx.explanation = ('Path enumeration over the syntax trees of the Cython classes with facts about arrays (shape, type, contiguity, from how they were made and from the checks on the path). At each call of the C library that gets memory of an array: '
                       'the description is that of the array, the element type and number are those the call will use, the memory is contiguous where the library assumes it, sizes are filled in, and something keeps the array. '
                       'Memory the library hands out is released once, and the mark that an object holds an open file or block agrees with whether it does, on every way out.')
    ctx.assumptions = ['numpy functions do what they document', 'pickled descriptions and broadcast ones come from _big_block_pack', 'assertions are enabled (python without -O)', 'loops are unrolled twice']
