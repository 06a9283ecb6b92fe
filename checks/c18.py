"""C18: the rows that Python names are the rows that are read and written."""
from sa import pyx
from sa.engine import AnalysisError
from sa.pyx import norm, Fun
from .c16 import modules, where
from .c17 import Arr, lin, same, mentions


def bounds(t):
    """x when t is a part of x.indices(..): (x, which)"""
    if t[0] == 'idx' and t[1][0] == 'call' and t[1][1] == 'indices' and t[2][0] == 'c':
        return t[1], t[2][1]
    return None


def part(call, i):
    return ('idx', call, ('c', i))


def indices_in(t, out):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == 'call' and t[1] == 'indices':
            out.add(t)
        for x in t:
            indices_in(x, out)
    return out


class Rows:
    def __init__(self, externs, fun):
        self.externs, self.fun = externs, fun
        self.bad = {}
        self.done = set()

    def initial(self):
        return ('c', None)

    def note(self, I, e, what, ok):
        f = I.stack[-1]
        self.done.add((f.qual, e['line'], what))
        if not ok:
            self.bad.setdefault((f.qual, what), (f, e['line']))

    def fact(self, st, t):
        v, pos = norm(t)
        x = st.facts.get(v)
        return None if x is None else x == pos

    def count(self, st, n, a, b):
        """n is the number of rows from a to b, none if b comes before a"""
        short = self.fact(st, ('cmp', '<', b, a))
        if short is None and self.fact(st, ('cmp', '<', a, b)) is True:
            short = False
        if n[0] == 'call' and n[1] in ('max', 'maximum'):
            xs = [x for x in n[2] if x != ('glob', 'numpy')]
            return len(xs) == 2 and ('c', 0) in xs and any(same(x, ('bin', '-', b, a)) for x in xs)
        if n[0] == 'call' and n[1] in ('len', 'int'):
            n = n[2][0]
        if n[0] == 'idx' and n[1][0] == 'attr' and n[1][2] == 'shape' and n[1][1][0] == 'call' and n[1][1][1] == 'range':
            return n[1][1][2][:2] == (a, b)
        if short is True:
            return lin(n) == (0, {})
        return short is False and same(n, ('bin', '-', b, a))

    def step(self, st, call):
        return self.fact(st, ('cmp', '==', part(call, 2), ('c', 1))) is True

    def on_call(self, I, st, o, name, args, kw, e):
        me = ('self',)
        if o == me and name == 'read' and len(args) >= 2 and bounds(args[0]) and bounds(args[0])[1] == 0:
            c = bounds(args[0])[0]
            self.note(I, e, 'reads a slice with steps as if it had none', self.step(st, c))
            self.note(I, e, 'reads another number of rows than the slice has', self.count(st, args[1], args[0], part(c, 1)))
            return [(st, ('call', 'read', (o,) + tuple(args), (), e['line']))]
        if o == me and name == 'read' and args and indices_in(args[0], set()):
            self.note(I, e, 'reads from elsewhere than the start of the slice', False)
            return [(st, ('call', 'read', (o,) + tuple(args), (), e['line']))]
        if o == me and name == 'write' and len(args) == 2 and indices_in(args[0], set()):
            b = bounds(args[0])
            self.note(I, e, 'writes elsewhere than to the start of the slice', b is not None and b[1] == 0)
            if b:
                c = b[0]
                self.note(I, e, 'writes a slice with steps as if it had none', self.step(st, c))
                v = args[1]
                ok = False
                for k, t in st.facts.items():
                    if t and k[0] == 'cmp' and k[1] == '==' and mentions(k, v):
                        x, y = (k[2], k[3]) if mentions(k[2], v) else (k[3], k[2])
                        ok = ok or mentions(y, part(c, 1)) and mentions(y, args[0]) or self.fact(st, ('cmp', '<', part(c, 1), args[0])) is True and y[0] != 'attr'
                self.note(I, e, 'writes a value without knowing that it has as many rows as the slice', ok)
            return [(st, ('call', 'write', (o,) + tuple(args), (), e['line']))]
        if name == 'write' and o is not None and o != me and len(args) == 2:
            self.chunk(I, st, args, e)
            return [(st, ('c', None))]
        if name == 'write' and o == me and self.fun.name == 'append':
            return self.appended(I, st, args, e)
        if name == 'slice' and o is None and len(args) == 2:
            a, b = args
            i = ('par', 'index') if False else a
            if same(b, ('bin', '+', a, ('c', 1))):
                ok = self.fact(st, ('cmp', '<', a, ('c', 0))) is False or self.fact(st, b) is True or self.fact(st, ('cmp', '==', a, ('c', -1))) is False
                self.note(I, e, 'takes the last row (-1) for an empty slice', ok)
            return [(st, ('call', 'slice', tuple(args), (), e['line']))]
        if o is None and name in self.externs:
            A = Arr(I, st)
            data = lambda t: t[1] if t[0] == 'attr' and t[2] == 'data' else None
            if name == 'big_array_init' and args[0][0] == 'ref':
                st.env[args[0][1]] = ('array', data(args[1]))
                return [(st, ('c', 0))]
            if name == 'big_block_seek':
                if args[1][0] == 'ref':
                    st.env[args[1][1]] = ('at', args[2])
                return [(st, ('c', 0)), (st.copy(), ('c', -1))]
            if name in ('big_block_read', 'big_block_write'):
                p = st.env.get(args[1][1]) if args[1][0] == 'ref' else None
                a = st.env.get(args[2][1]) if args[2][0] == 'ref' else None
                names = self.fun.params
                if 'start' in names:
                    self.note(I, e, 'transfers rows from elsewhere than asked', p is not None and p[0] == 'at' and p[1] == ('par', 'start'))
                if name == 'big_block_read' and 'length' in names and a is not None and a[0] == 'array' and a[1] is not None:
                    size = [('attr', me, 'size'), ('attr', ('attr', me, 'bb'), 'size')]
                    rest = [('bin', '-', s, ('par', 'start')) for s in size]
                    want = ('par', 'length')
                    ls = A.length(a[1])
                    full = any(same(l, want) for l in ls)
                    clamped = any(same(l, r) for l in ls for r in rest)
                    if clamped:
                        over = any(self.fact(st, ('cmp', '<', s, ('bin', '+', want, ('par', 'start')))) is True or self.fact(st, ('cmp', '<', s, ('bin', '+', ('par', 'start'), want))) is True
                                   or self.fact(st, ('cmp', '<', ('bin', '-', s, ('par', 'start')), want)) is True for s in size) or self.fact(st, ('cmp', '==', want, ('c', -1))) is True
                        self.note(I, e, 'reads all rows to the end when fewer were asked', over)
                    self.note(I, e, 'reads into an array of another number of rows than asked', full or clamped)
                    if full and not clamped:
                        self.note(I, e, 'takes a length of -1 for a number of rows', self.fact(st, ('cmp', '==', want, ('c', -1))) is False)
                if name == 'big_block_write' and 'buf' in names and a is not None and a[0] == 'array':
                    self.note(I, e, 'writes something else than the array given', a[1] == ('par', 'buf') or a[1] is not None and mentions(a[1], ('par', 'buf')))
                return [(st, ('c', 0)), (st.copy(), ('c', -1))]
            if name in ('big_file_read_records', 'big_file_write_records'):
                if 'start' in self.fun.params:
                    self.note(I, e, 'transfers rows from elsewhere than asked', args[2] == ('par', 'start'))
                if 'length' in self.fun.params:
                    self.note(I, e, 'reads another number of rows than asked', args[3] == ('par', 'length'))
                elif 'buf' in self.fun.params:
                    x = data(args[4])
                    self.note(I, e, 'writes something else than the array given', x is not None and mentions(x, ('par', 'buf')) and any(same(l, args[3]) for l in A.length(x)))
                return [(st, ('c', 0)), (st.copy(), ('c', -1))]
            if name in ('big_block_grow', 'big_file_create_records'):
                # the size is another one from here on
                st.heap[(('attr', me, 'bb'), 'size')] = ('grown', 'bb')
                st.mon = ('grown',)
                return [(st, ('c', 0)), (st.copy(), ('c', -1))]
        return None

    def appended(self, I, st, args, e):
        old = [('attr', ('attr', ('self',), 'bb'), 'size'), ('attr', ('self',), 'size')]
        self.note(I, e, 'appends elsewhere than after the rows there were', st.mon == ('grown',) and args[0] in old)
        self.note(I, e, 'appends something else than the array given', args[1] == ('par', 'buf') or mentions(args[1], ('par', 'buf')))
        return [(st, ('c', None))]

    def chunk(self, I, st, args, e):
        """b.write(offset + i, array[i:i+step]) for i in range(0, len(array), step)"""
        at, v = args
        if v[0] == 'call' and v[2]:
            xs = [x for x in v[2] if x != ('glob', 'numpy')]
            v = xs[0] if xs else v
        els = set()

        def find(t):
            if isinstance(t, tuple):
                if t and t[0] == 'elem':
                    els.add(t)
                    return
                for x in t:
                    find(x)
        find(at)
        if len(els) != 1:
            self.note(I, e, 'writes a part of an array elsewhere than it belongs', False)
            return
        i = els.pop()
        r = i[1]
        ok = r is not None and r[0] == 'call' and r[1] == 'range' and len(r[2]) == 3
        arr, lo, hi = None, None, None
        if v[0] == 'slice' and len(v[2]) == 2:
            arr, lo, hi = v[1], v[2][0], v[2][1]
        elif v[0] == 'idx' and v[2][0] in ('SliceNode', 'call') and len(v[2][1] if v[2][0] == 'SliceNode' else v[2][2]) >= 2:
            parts = v[2][1] if v[2][0] == 'SliceNode' else v[2][2]
            arr, lo, hi = v[1], parts[0], parts[1]
        if not ok or arr is None:
            self.note(I, e, 'writes a part of an array elsewhere than it belongs', False)
            return
        first, last, step = r[2]
        n = ('idx', ('attr', arr, 'shape'), ('c', 0))
        a = lin(at)
        self.note(I, e, 'writes a part of an array elsewhere than it belongs', lo == i and a[1].get(i) == 1 and not any(mentions(k, i) for k in a[1] if k != i))
        self.note(I, e, 'leaves out or repeats rows between the parts of an array', lo == i and (same(hi, ('bin', '+', i, step)) or hi[0] == 'call' and hi[1] == 'min' and any(same(x, ('bin', '+', i, step)) for x in hi[2]) and any(same(x, last) for x in hi[2])))
        self.note(I, e, 'does not write the whole array', first == ('c', 0) and (last == n or any(k == n for k, t in [(l, 0) for l in Arr(I, st).length(arr)]) and same(last, n)))
        pos = step[0] == 'c' and isinstance(step[1], int) and step[1] >= 1 or step[0] == 'call' and step[1] == 'max' and any(x[0] == 'c' and isinstance(x[1], int) and x[1] >= 1 for x in step[2]) or \
            self.fact(st, ('cmp', '<', step, ('c', 1))) is False or self.fact(st, ('cmp', '<', ('c', 0), step)) is True or (self.fact(st, step) is True and nonneg(step))
        self.note(I, e, 'may write nothing at a time', pos)


def nonneg(t):
    return t[0] != 'bin' or t[1] in ('//', '*', '+')


def nested(node, mod, out):
    for x in pyx.walk(node['body']):
        if x['_'] == 'DefNode':
            out.append(Fun(x, None, mod, x['name']))


def check(ctx):
    ms = modules()
    externs = set(ms[0].externs)
    funs = []
    for m in ms:
        for f in m.functions():
            funs.append(f)
            if f.cls is None:
                nested(f.node, m, funs)
    total = {}
    for f in funs:
        mon = Rows(externs, f)
        I = pyx.Interp(ms, mon)
        I.inline = 3
        st = pyx.St(mon=())
        try:
            outs = I.run(f, st)
        except pyx.PyxError as x:
            raise AnalysisError('%s: %s' % (f.qual, x))
        if not mon.done:
            continue
        ctx.functions.append('%s:%s' % (f.mod.path, f.qual))
        ctx.obligation(not mon.bad, len(mon.done))
        ctx.sample({'function': f.qual, 'paths': len(outs), 'obligations': sorted({w for q, l, w in mon.done})})
        for q, l, w in mon.done:
            total[w] = total.get(w, 0) + 1
        for (q, what), (g, line) in sorted(mon.bad.items()):
            ctx.violation('%s/%s' % (q, what.replace(' ', '_')), '%s %s' % (q, what), where(g, line))
    for w in ('reads a slice with steps as if it had none', 'writes a slice with steps as if it had none', 'transfers rows from elsewhere than asked', 'appends elsewhere than after the rows there were', 'does not write the whole array'):
        if w not in total:
            raise AnalysisError('found nothing to decide about: ' + w)
    ctx.explanation = 'Path enumeration over the syntax trees of the Python layer: where a slice was turned into bounds (slice.indices), an index into a slice, a request into a position and an array, and an array into chunks, symbolic terms of the position and the number of rows have to agree on every path.'
    ctx.assumptions = ['slice.indices and numpy do what they document', 'loops are unrolled twice']
