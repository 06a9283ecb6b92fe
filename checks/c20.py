"""C20: the header that is saved is the header that is read, and only what can be read is saved."""
from sa import build
from sa.terms import const, atom, add, sub, scale, is_const, as_atom, base_off, is_poly
from sa.engine import c_eq, Monitor
from sa.ctx import short
from .lib import callees, reaching, success, trace_of, FILE_PRIMS
from .common import NONNEG
from .c02 import field_off
from .c04 import find_openers
from .c14 import CONV

OUT = {'fprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'vfprintf'}
SCAN = {'fscanf', '__isoc99_fscanf'}
NUM = {'d': {'d', 'i'}, 'i': {'d', 'i'}, 'u': {'u', 'd'}, 'x': {'x', 'X'}, 'X': {'x', 'X'}, 'o': {'o'}, 's': {'s'}}
WIDE = {'': 4, 'h': 2, 'hh': 1, 'l': 8, 'll': 8, 'z': 8, 't': 8, 'j': 8}
FIELDS = ('dtype', 'nmemb', 'Nfile', 'size')


def items(fmt):
    """a format as literal characters, blanks and conversions"""
    out = []
    i = 0
    while i < len(fmt):
        k = CONV.match(fmt, i) if fmt[i] == '%' else None
        if k:
            out.append(('lit', '%') if k.group(5) == '%' else ('conv', k.group(5), k.group(2), k.group(4) or ''))
            i = k.end()
        else:
            out.append(('ws',) if fmt[i] in ' \t\n' else ('lit', fmt[i]))
            i += 1
    return out


class Write(Monitor):
    """mon: (is the header open, different lines completed, line being written, mode); ghost n: number of records written"""

    def __init__(self, m, opener, hdr):
        self.m, self.opener, self.hdr = m, opener, hdr
        self.off = {f: field_off(m, 'BigBlock', f) for f in FIELDS + ('fsize', 'foffset', 'fchecksum')}
        self.bad, self.lines, self.rets, self.opens = {}, {}, 0, 0

    def initial(self):
        return (None, (), (), const(0), ())

    def key(self, eng, st):
        return st.mon[:3] + st.mon[4:]

    def join(self, eng, A, B):
        return A.mon

    def ghosts(self, st):
        return {'n': st.mon[3]}

    def setghosts(self, st, values):
        st.mon = st.mon[:3] + (values.get('n'),) + st.mon[4:]

    def note(self, st, x, what):
        self.bad.setdefault(what, (st, x))

    def eq(self, eng, st, a, b):
        return a is not None and b is not None and is_poly(a) and is_poly(b) and (a == b or eng.decide(st, c_eq(sub(a, b))) is True)

    def field(self, eng, st, f):
        return eng.loadloc(st, ('arg', 0, 'p'), const(self.off[f]), 4 if f in ('nmemb', 'Nfile') else 8, 'i32' if f in ('nmemb', 'Nfile') else 'p' if f.startswith('f') else 'i')

    def entry(self, eng, st, f, i):
        b, o = base_off(self.field(eng, st, f))
        if b is None:
            return None
        es, t = (4, 'i32') if f == 'fchecksum' else (8, 'i')
        return eng.loadloc(st, b, add(o, scale(i, es)), es, t)

    def cls(self, eng, st, v):
        """what of the block a printed value is"""
        if not is_poly(v):
            return None
        b, o = base_off(v)
        if b == ('arg', 0, 'p') and is_const(o) and o[0] == self.off['dtype']:
            return 'dtype'
        n = st.mon[3]
        if n is not None and self.inrec(st):
            if self.eq(eng, st, v, n):
                return 'number'
            for f in ('fsize', 'fchecksum'):
                if self.eq(eng, st, v, self.entry(eng, st, f, n)):
                    return f
        for f in FIELDS[1:]:
            if self.eq(eng, st, v, self.field(eng, st, f)):
                return f
        return None

    def inrec(self, st):
        return any(c == 'Nfile' for l in st.mon[1] for i in l if i[0] == 'conv' for c in i[4:])

    def after_call(self, eng, st, x, name, args):
        if name == self.opener[0]:
            ids = args[self.opener[2]]
            if any(ids == const(c) for c in self.hdr):
                self.opens += 1
                st.mon = ('open', (), (), const(0), ())
        elif name in ('fclose',) and st.mon[0] == 'open':
            st.mon = ('closed',) + st.mon[1:]
        elif name in OUT and st.mon[0] == 'open' and args:
            stream = args[0] if name in ('fprintf', 'vfprintf') else args[-1]
            if any(a[0] == 'ld' for a in [as_atom(stream) or ('?',)]) and 'std' in str(stream):
                return [st]
            fmt = eng.models.conststr(eng, args[1] if name == 'fprintf' else args[0]) if name in ('fprintf', 'fputs') else None
            if fmt is None:
                raise build.AnalysisError('header is written with %s of something that is no constant' % name)
            text = fmt.decode('latin1')
            vals = list(args[2:]) if name == 'fprintf' else []
            if name == 'fputs':
                text = text.replace('%', '%%')
            self.text(eng, st, x, text, vals)
        return [st]

    def text(self, eng, st, x, text, vals):
        ph, lines, cur, n, rest = st.mon
        nl = 0
        for it, ch in self.walk(text):
            if it[0] == 'conv':
                v = vals.pop(0) if vals else None
                cur = cur + (it + (self.cls(eng, st, v) if v is not None else None,),)
            else:
                cur = cur + (it,)
            if ch == '\n':
                rec = any(i[0] == 'conv' and i[4] in ('number', 'fsize', 'fchecksum') for i in cur)
                if cur not in lines:
                    lines = lines + (cur,)
                self.lines.setdefault(cur, x)
                if rec:
                    n = add(n, const(1)) if n is not None else None
                cur = ()
                nl += 1
                st.mon = (ph, lines, cur, n, rest)
        st.mon = (ph, lines, cur, n, rest)

    @staticmethod
    def walk(text):
        i = 0
        while i < len(text):
            k = CONV.match(text, i) if text[i] == '%' else None
            j = k.end() if k else i + 1
            yield items(text[i:j])[0], text[i:j]
            i = j

    def on_ret(self, eng, st, x, v):
        if st.mon[0] is None or not success(eng, st, x.fn, v):
            return
        self.rets += 1
        ph, lines, cur, n, rest = st.mon
        rec = [l for l in lines if self.isrec(l)]
        if cur:
            self.note(st, x, 'ends the header within a line')
        if lines and any(self.isrec(l) for l in lines[:-1]):
            self.note(st, x, 'writes records of files in different ways or something after them')
        N = self.field(eng, st, 'Nfile')
        if n is None or not eng.implies_ge(st, sub(n, N)):
            self.note(st, x, 'does not write a record for every file')
        elif not eng.implies_ge(st, sub(N, n)):
            self.note(st, x, 'writes more records than there are files')
        self.finals.setdefault(lines, (st, x))

    finals = None

    @staticmethod
    def isrec(l):
        return any(i[0] == 'conv' and i[4] in ('number', 'fsize', 'fchecksum') for i in l)


class Read(Monitor):
    """mon: (number of the file opened last, formats read, predicates passed)"""

    def __init__(self, m, opener, preds):
        self.m, self.opener, self.preds = m, opener, preds
        self.off = {field_off(m, 'BigBlock', f): f for f in FIELDS}
        self.dtype = field_off(m, 'BigBlock', 'dtype')
        self.finals, self.hdr, self.passed, self.sites = {}, set(), [], {}

    def initial(self):
        return (None, (), frozenset())

    def after_call(self, eng, st, x, name, args):
        if name == self.opener[0]:
            v = args[self.opener[2]]
            st.mon = (v[0] if is_const(v) else None,) + st.mon[1:]
        elif name in SCAN:
            fmt = eng.models.conststr(eng, args[1])
            if fmt is None:
                raise build.AnalysisError('header is read with a format that is no constant')
            if st.mon[0] is not None:
                self.hdr.add(st.mon[0])
            ev = []
            k = 2
            for it in items(fmt.decode('latin1')):
                if it[0] == 'conv':
                    b, o = base_off(args[k])
                    f = self.off.get(o[0]) if b == ('arg', 0, 'p') and is_const(o) else None
                    ev.append(it + (f or ('rec', k - 2),))
                    k += 1
                else:
                    ev.append(it)
            ev = tuple(ev)
            if ev not in st.mon[1]:
                st.mon = (st.mon[0], st.mon[1] + (ev,), st.mon[2])
            self.sites[ev] = x
        elif name in self.preds and x.res is not None:
            b, o = base_off(args[0])
            mine = b == ('arg', 0, 'p') and is_const(o) and o[0] == self.dtype
            s2 = st.copy()
            st.env[x.res], s2.env[x.res] = const(0), const(1)
            st.mon = st.mon[:2] + (st.mon[2] | {(name, 0, mine)},)
            s2.mon = s2.mon[:2] + (s2.mon[2] | {(name, 1, mine)},)
            return [st, s2]
        return [st]

    def on_ret(self, eng, st, x, v):
        if st.mon[1] and success(eng, st, x.fn, v):
            self.finals.setdefault(st.mon[1], (st, x))
            self.passed.append({(n, r) for n, r, mine in st.mon[2] if mine})


class Good(Monitor):
    """opening when every step succeeds and the header holds what is saved for a block: mon is whether a header was read"""

    def __init__(self, m, opener, preds, calls):
        self.m, self.opener, self.preds, self.calls = m, opener, preds, calls
        self.off = {field_off(m, 'BigBlock', f): f for f in FIELDS}
        self.nfile = field_off(m, 'BigBlock', 'Nfile')
        self.bad, self.rets, self.scans = {}, 0, set()

    def initial(self):
        return False

    def after_call(self, eng, st, x, name, args):
        if x.res is None:
            return [st]
        if name in SCAN:
            fmt = eng.models.conststr(eng, args[1])
            convs = [i for i in items(fmt.decode('latin1')) if i[0] == 'conv']
            st.env[x.res] = const(len(convs))
            st.mon = True
            self.scans.add(x.uid)
            for k, (it, a) in enumerate(zip(convs, args[2:])):
                b, o = base_off(a)
                if b is None or it[1] == 's':
                    continue
                big = it[3] in ('t', 'z', 'l', 'll', 'j')
                v = eng.loadloc(st, b, o, 8 if big else 4, 'i' if big else 'i32')
                if it[1] == 'd':
                    eng.addfact(st, v)
                if not (b == ('arg', 0, 'p')) and it[1] in 'xX' and k == 0:
                    eng.addfact(st, v)
                    eng.addfact(st, add(sub(eng.loadloc(st, ('arg', 0, 'p'), const(self.nfile), 4, 'i32'), v), const(-1)))
                if b == ('arg', 0, 'p') and is_const(o) and self.off.get(o[0]) == 'Nfile':
                    eng.addfact(st, sub(const((1 << 31) - 3), v))
        elif name in self.preds:
            st.env[x.res] = const(1 if (name, 1) in self.preds[name] else 0)
        elif name in self.calls:
            st.env[x.res] = const(0)
        elif is_poly(st.env[x.res]) and (name == self.opener[0] or name in ('malloc', 'calloc', 'realloc')):
            eng.assume(st, c_eq(st.env[x.res]), False)
        return [st]

    def on_ret(self, eng, st, x, v):
        if st.mon and v is not None:
            self.rets += 1
            if eng.decide(st, c_eq(v)) is not True:
                self.bad.setdefault('rejects a header that is saved for some block', (st, x))


class Accept(Monitor):
    """mon: (a header was written, predicates passed)"""

    def __init__(self, m, need, flush):
        self.m, self.need, self.flush = m, need, flush
        self.dirty = field_off(m, 'BigBlock', 'dirty')
        self.bad, self.flushes = {}, 0

    def initial(self):
        return frozenset()

    def on_call(self, eng, st, x, name, args):
        if name == self.flush:
            b, o = base_off(args[0])
            d = eng.loadloc(st, b, add(o, const(self.dirty)), 4, 'i32') if b is not None else None
            if d is not None and is_poly(d) and eng.decide(st, c_eq(d)) is False:
                self.flushes += 1
                for p in sorted(self.need):
                    if p not in st.mon:
                        self.bad.setdefault('saves a header whose data type was not accepted by %s, which it has to be to be opened' % p[0], (st, x))
        return None

    def after_call(self, eng, st, x, name, args):
        if x.res is not None and name in {n for n, r in self.need}:
            s2 = st.copy()
            st.env[x.res], s2.env[x.res] = const(0), const(1)
            st.mon, s2.mon = st.mon | {(name, 0)}, s2.mon | {(name, 1)}
            return [st, s2]
        return [st]


def match(r, w):
    """does scanning with the items r take what the items w print? None, or why not; pairs of conversions"""
    i = j = 0
    pairs = []
    while i < len(r):
        it = r[i]
        if it[0] == 'ws':
            i += 1
            while j < len(w) and w[j][0] == 'ws':
                j += 1
            continue
        if it[0] == 'conv' and it[1] != 'c':
            while j < len(w) and w[j][0] == 'ws':
                j += 1
        if j >= len(w):
            return 'more is read than is written', pairs
        o = w[j]
        if it[0] == 'lit':
            if o[0] != 'lit' or o[1] != it[1]:
                return "`%s' is expected where %s is written" % (it[1], 'a blank' if o[0] == 'ws' else o[1] if o[0] == 'lit' else '%' + o[1]), pairs
        else:
            if o[0] != 'conv' or it[1] not in NUM.get(o[1], {o[1]}):
                return '%%%s is read where %s is written' % (it[1], 'a blank' if o[0] == 'ws' else "`%s'" % o[1] if o[0] == 'lit' else '%' + o[1]), pairs
            if it[1] != 's' and it[2] and int(it[2]) < (int(o[2] or 0) if o[1] in 'xX' and o[2] else 20 if WIDE.get(o[3], 4) == 8 else 11):
                return 'fewer digits are read than are written', pairs
            if it[1] != 's' and WIDE.get(it[3], 4) < WIDE.get(o[3], 4):
                return 'a number is read into a narrower one than is written', pairs
            if it[1] == 's' and j + 1 < len(w) and w[j + 1][0] != 'ws':
                return 'no blank ends a text that is read', pairs
            if it[1] != 's' and j + 1 < len(w) and w[j + 1][0] == 'conv':
                return 'nothing separates two numbers', pairs
            if it[1] == 's' and it[2] and int(it[2]) < 7:
                return 'a text that is written is longer than what is read', pairs
            pairs.append((it, o))
        i += 1
        j += 1
    if any(o[0] != 'ws' for o in w[j:]):
        return 'more is written than is read', pairs
    return None, pairs


def check(ctx):
    ctx.explanation = ('The formats with which the header of a block is printed and scanned are followed on all abstract paths, each printed value is classified (field of the block, number of the record, entry of a table at that number) and the two sequences of literals and conversions '
                       'are matched as scanf takes them: same literals, fitting conversions and widths, and each value goes where it came from. A ghost counts the records: one for each file, in order. '
                       'Predicates on the data type that an open has to pass must have been passed before a creation saves the header.')
    raw = ctx.raw()
    openers = find_openers(ctx, raw)
    if len(openers) != 1:
        raise build.AnalysisError('expected one function that opens files, found %s' % sorted(openers))
    (op, (modearg, idarg, special)), = openers.items()
    opener = (op, modearg, idarg)
    pure = {n for n, f in raw.funcs.items() if n not in reaching(raw, FILE_PRIMS) and len(f.order)}
    RD, WR, CR = '_big_block_open', 'big_block_flush', '_big_block_create_internal'
    for n in (RD, WR, CR):
        if n not in raw.funcs:
            raise build.AnalysisError('function not found: ' + n)
    def ints(n):
        f = raw.funcs[n]
        return f.ret[0] == 'int' and len(f.args) == 1 and f.args[0][0][0] == 'ptr'
    preds = {n for n in callees(raw.funcs[RD]) & pure if ints(n)}
    attr = {n for n in raw.funcs if n.startswith('attrset_')}
    P = ctx.program(mpi=False, extra=preds | attr | {op, WR})
    m = P[0]
    rd = Read(m, opener, preds)
    ctx.engine(P, RD, rd, nonneg_tags=NONNEG)
    if not rd.finals or not rd.hdr:
        raise build.AnalysisError('cannot find how the header is read')
    wr = Write(m, opener, rd.hdr)
    wr.finals = {}
    ctx.engine(P, WR, wr, nonneg_tags=NONNEG, split_returns=True)
    if not wr.finals:
        raise build.AnalysisError('cannot find how the header is written')
    ctx.functions += [RD, WR, CR]
    for what, (st, x) in sorted(wr.bad.items()):
        ctx.violation(WR + '/' + what.replace(' ', '_'), WR + ': ' + what, short(m.loc(x)), trace_of(st))
    ctx.obligation(not wr.bad, 4 * wr.rets)
    # each way of reading against each way of writing
    role = ('number', 'fsize', 'fchecksum')
    for revs, (st, x) in rd.finals.items():
        pre = [e for e in revs if not any(i[0] == 'conv' and isinstance(i[4], tuple) and i[4][1] > 0 for i in e)]
        rec = [e for e in revs if e not in pre]
        for lines, (st2, x2) in wr.finals.items():
            wpre = [i for l in lines if not wr.isrec(l) for i in l]
            wrec = [i for l in lines if wr.isrec(l) for i in l]
            if not rec or not wrec:
                why, pairs = match([i for e in pre for i in e], wpre)
                if bool(rec) and not wrec:
                    pass
            else:
                why, pairs = match([i for e in pre for i in e] + 2 * [i for e in rec for i in e], wpre + 2 * wrec)
            ctx.obligation(why is None, 1 + len(pairs))
            if why:
                ctx.violation('header/' + why.replace(' ', '_'), 'the header that %s writes is not what %s reads: %s' % (WR, RD, why), short(m.loc(x2)), trace_of(st2))
            for r, w in pairs:
                want = r[4]
                if isinstance(want, tuple):
                    want = role[want[1]] if r in [i for e in rec for i in e] and want[1] < 3 else None
                if want is not None and w[4] != want:
                    ctx.violation('header/%s' % want, '%s writes %s into the header where %s reads the %s' % (WR, 'something else' if w[4] is None else 'the ' + w[4], RD, want), short(m.loc(x2)), trace_of(st2))
            ctx.sample({'fields': [[str(r[4]), w[4]] for r, w in pairs]})
    # what is saved is accepted
    need = set.intersection(*rd.passed) if rd.passed else set()
    ok = Good(m, opener, {n: {p for p in need if p[0] == n} for n, r in need}, {n for n in attr if raw.funcs[n].ret[0] == 'int'})
    ctx.engine(P, RD, ok, nonneg_tags=NONNEG, split_returns=True)
    ctx.obligation(not ok.bad, ok.rets + len(ok.scans))
    for what, (st, x) in sorted(ok.bad.items()):
        ctx.violation(RD + '/' + what.replace(' ', '_'), RD + ': ' + what, short(m.loc(x)), trace_of(st))
    ctx.sample({'an open requires': sorted(map(str, need))})
    if need:
        ac = Accept(m, need, WR)
        ctx.engine(P, CR, ac, nonneg_tags=NONNEG)
        ctx.obligation(not ac.bad and ac.flushes > 0, ac.flushes * len(need))
        if not ac.flushes:
            raise build.AnalysisError('cannot find where a new block saves its header')
        for what, (st, x) in sorted(ac.bad.items()):
            ctx.violation(CR + '/accept', CR + ': ' + what, short(m.loc(x)), trace_of(st))
    ctx.assumptions = ['memory allocation succeeds', 'a block has fewer than 16^6 files', 'names of data types are not longer than their field']
