"""C14: every failure leaves an error message; texts are never used as formats."""
import re
from sa import build
from sa.terms import const, is_const
from sa.engine import c_eq
from sa.ctx import short
from . import errprop
from .lib import SetMon, callees, reaching, trace_of
from .common import NONNEG
from .c10 import agreeing, operations, Agree

RAISE, SET = '_big_file_raise', 'big_file_set_error_message'
# format argument, number of the first value printed
PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, RAISE: 0}
VPRINTF = {'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2}
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([diouxXeEfFgGaAcspn%])')


class Msg(SetMon):
    """('E',) there is a message about a failure of this call"""

    def __init__(self, m, name, fall, agree):
        self.m, self.name, self.fall, self.agree = m, name, fall, agree
        self.bad = {}
        self.fails = 0
        self.sites = set()

    def on_call(self, eng, st, x, name, args):
        if name == RAISE:
            self.sites.add(x.uid)
            if eng.decide(st, c_eq(args[0])) is True and ('E',) not in st.mon:
                self.bad.setdefault('passes on the message of an earlier failure', (st, x))
            st.mon = st.mon | {('E',)}
        elif name == SET:
            if eng.decide(st, c_eq(args[0])) is True:
                st.mon = st.mon - {('E',)}
            else:
                st.mon = st.mon | {('E',)}
        return None

    def after_call(self, eng, st, x, name, args):
        if x.res is not None and (name in self.fall or name in self.agree or (name is None or name.startswith('*')) and x.ty[0] == 'int'):
            self.sites.add(x.uid)
            b = st.copy()
            st.env[x.res] = const(0)
            b.env[x.res] = const(-1)
            b.mon = b.mon | {('E',)}
            return [st, b]
        return [st]

    def on_ret(self, eng, st, x, v):
        if v is None or x.fn.ret[0] != 'int' or eng.decide(st, c_eq(v)) is True:
            return
        self.fails += 1
        if ('E',) not in st.mon:
            self.bad.setdefault('can fail without an error message', (st, x))


class Told(Agree):
    """a rank that agrees on the failure of another rank has the message of that rank"""

    def on_call(self, eng, st, x, name, args):
        if name in (RAISE, SET) and eng.decide(st, c_eq(args[0])) is not True:
            st.mon = st.mon + (('told', None, None),)
        return Agree.on_call(self, eng, st, x, name, args)

    def on_ret(self, eng, st, x, v):
        self.rets += 1
        if self.case == 'other' and ('told', None, None) not in st.mon and eng.decide(st, c_eq(v)) is not True:
            self.bad.setdefault('reports the failure of another rank without a message', (st, x))


def const_text(m, v):
    if v[0] == 'glob':
        g = m.globals.get(v[1])
        if g and g['const'] and g['init'] and g['init'][0] == 'cstr':
            return g['init'][1].split(b'\0')[0].decode('latin1')
    return None


def format_of(m, f, v, seen=None):
    """what a format can be: ('const', text), ('null',), ('arg', i), ('other',)"""
    seen = seen if seen is not None else set()
    if v[0] in ('null', 'zero'):
        return {('null',)}
    if v[0] == 'glob':
        c = const_text(m, v)
        return {('const', c) if c is not None else ('other',)}
    if v[0] != 'reg':
        return {('other',)}
    if v[1] in seen:
        return set()
    seen.add(v[1])
    for i, a in enumerate(f.args):
        if a[1] == v[1]:
            return {('arg', i)}
    for x in f.insns():
        if x.res == v[1]:
            vs = [w for w, b in x.a] if x.op == 'phi' else list(x.a[1:]) if x.op == 'select' else None
            if vs is None:
                break
            out = set()
            for w in vs:
                out |= format_of(m, f, w, seen)
            return out
    return {('other',)}


def mismatch(text, types):
    """why the values do not fit the conversions of a format (None: they do)"""
    want = []
    for fl, w, p, ln, c in CONV.findall(text):
        if c == '%':
            continue
        want += ['int'] * ((w == '*') + (p == '*'))
        if c in 'diouxXc':
            want.append('long' if ln in ('l', 'll', 'j', 'z', 't') else 'int')
        elif c in 'eEfFgGaA':
            want.append('double')
        else:
            want.append('ptr')
    if '%' in CONV.sub('', text):
        return 'has a conversion that is not known'
    have = ['ptr' if t[0] == 'ptr' else 'double' if t[0] in ('double', 'float', 'fp') else 'long' if t == ('int', 64) else 'int' if t[0] == 'int' else str(t) for t in types]
    if len(want) != len(have):
        return 'prints %d values and is given %d' % (len(want), len(have))
    for k, (a, b) in enumerate(zip(want, have)):
        if a != b:
            return 'prints value %d as %s and is given %s' % (k + 1, a, b)
    return None


def formats(ctx, m):
    """every text that is used as a format is constant, and fits the values"""
    fwd = {}                    # functions that use an argument as a format: argument
    n = 0
    ch = True
    bad = {}
    while ch:
        ch = False
        for fn in sorted(m.funcs):
            f = m.funcs[fn]
            for x in f.insns():
                if x.op != 'call' or x.extra['callee'][0] != 'glob':
                    continue
                c = x.extra['callee'][1]
                i = PRINTF.get(c, VPRINTF.get(c, fwd.get(c)))
                if i is None or i >= len(x.a):
                    continue
                for k in format_of(m, f, x.a[i][1]):
                    if k[0] == 'arg' and fwd.get(fn) != k[1] and fn not in PRINTF:
                        fwd[fn] = k[1]
                        ch = True
    for fn in sorted(m.funcs):
        f = m.funcs[fn]
        for x in f.insns():
            if x.op != 'call' or x.extra['callee'][0] != 'glob':
                continue
            c = x.extra['callee'][1]
            i = PRINTF.get(c, VPRINTF.get(c, fwd.get(c)))
            if i is None or i >= len(x.a):
                continue
            n += 1
            first = i + 1 + (2 if c == RAISE else 0)
            for k in sorted(format_of(m, f, x.a[i][1]), key=str):
                why = None
                if k[0] == 'const' and c in PRINTF:
                    why = mismatch(k[1], [t for t, v in x.a[first:]])
                elif k[0] == 'other':
                    why = 'is not a constant'
                if why:
                    bad[(fn, c, why)] = x
    for (fn, c, why), x in sorted(bad.items(), key=lambda e: e[0]):
        ctx.violation('%s/%s/%s' % (fn, c, why.replace(' ', '_')), '%s: the format given to %s %s' % (fn, c, why), short(m.loc(x)))
    ctx.obligation(not bad, n)
    ctx.cov['formatted_calls'] = n
    return n


def check(ctx):
    ctx.explanation = ('Every function of the library that can fail, analysed on all paths with the failure of each callee as a case: a return that may report a failure has a message about a failure of this call '
                       '(raised with a text of its own, or left by the callee that failed), and a message is passed on only after a callee left one; a rank that agrees on the failure of another rank takes its message. '
                       'Every format given to the printf family or to the function that records messages is a constant, or the format parameter of a function that formats for its caller, and its conversions match the number and types of the values.')
    ctx.assumptions = ['failing callees leave a message: each of them is analysed the same way', 'a format handed to big_file_dtype_format by the caller fits the type of the data',
                       'listing functions, which cannot report failures, are excluded']
    raw = ctx.raw()
    agree = agreeing(raw)
    hk = build.header_functions()
    fall = errprop.fallible(raw) | (set(operations(raw)) & hk)
    fall -= {'big_file_list'}
    keep = {n for n in raw.funcs if n in hk and n in fall | agree} | agree | (fall & hk) | ({'attrset_read_attr_set_v1', 'attrset_read_attr_set_v2', 'attrset_write_attr_set_v2', '_big_block_close_internal'} & fall)
    P = ctx.program(mpi=True, keep=keep | {RAISE, SET}, drop={'_big_file_open_a_file'})
    m = P[0]
    names = [n for n in sorted(fall | agree) if n in m.funcs and n != 'big_file_list']

    def report(ctx, n, mon, count):
        ctx.obligation(not mon.bad, count)
        for what, (st, x) in sorted(mon.bad.items()):
            ctx.violation('%s/%s' % (n, what.replace(' ', '_')), '%s: %s' % (n, what), short(m.loc(x)), trace_of(st))

    def one(ctx, n):
        if n in agree:
            failed = None
            for case in ('failed', 'other'):
                mon = Told(n, case, failed)
                ctx.engine(P, n, mon, setup=mon.setup, nonneg_tags=NONNEG)
                failed = failed or mon
            ctx.functions.append(n)
            report(ctx, n, mon, mon.rets)
            return
        if n == '*formats':
            formats(ctx, ctx.program(mpi=True, keep=set(raw.funcs), passes='function(sroa,early-cse)')[0])
            return
        mon = Msg(m, n, (fall - {n}), agree - {n})
        ctx.engine(P, n, mon, nonneg_tags=NONNEG, split_returns=True)
        ctx.functions.append(n)
        ctx.sample({'function': n, 'failing_returns': mon.fails, 'failures': len(mon.sites)})
        report(ctx, n, mon, mon.fails + len(mon.sites))
    ctx.pmap(one, names + ['*formats'])
