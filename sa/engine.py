"""A path-sensitive dataflow analysis over LLVM IR (property simulation).

For one function the engine computes, to a fixpoint over its flow graph, the set of abstract
states that can reach every block.  A state holds a symbolic value for each live register, a
memory map keyed by access path, linear facts established by the branches taken, and the state of
a monitor (a typestate automaton supplied by a check).  States that reach the same block with the
same monitor key are joined: values that differ become phi symbols and only facts that hold on both
sides are kept, so loops converge.  No path is enumerated or solved, nothing is executed."""
import heapq
from math import gcd
from . import terms as T
from .terms import const, atom, add, sub, mul, neg, scale, is_const, as_atom, base_off, mentions, subst, is_poly
from .build import AnalysisError

MAXFACTS = 160


def tsize(ty):
    return ty


def wrap(v, w):
    v &= (1 << w) - 1
    if v >> (w - 1):
        v -= 1 << w
    return v


# ------------------------------------------------------------------ conditions
def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'ge':
        return ('ge', add(neg(c[1]), const(-1)))
    return ('not', c)


def c_eq(p):
    if is_const(p):
        return p[0] == 0
    a = as_atom(p)
    if a is not None and a[0] == 'b':
        return c_not(a[1])
    # bool atom compared with 1
    if len(p[1]) == 1 and len(p[1][0][0]) == 1 and p[1][0][0][0][0] == 'b':
        k = p[1][0][1]
        if k in (1, -1) and p[0] == -k:
            return p[1][0][0][0][1]
        if k in (1, -1) and p[0] == 0:
            return c_not(p[1][0][0][0][1])
    if p[1][0][1] < 0:
        p = neg(p)
    return ('eq', p)


def c_ge(p):
    if is_const(p):
        return p[0] >= 0
    return ('ge', p)


class State:
    __slots__ = ('env', 'mem', 'reg', 'facts', 'ne', 'bools', 'mon', 'trace', 'seen', 'sz', 'steps')

    def __init__(self):
        self.env = {}
        self.mem = {}     # base -> {(offpoly, size): value}
        self.reg = {}     # base -> tuple of regions (lo, hi, kind, data), newest first; lo None: whole object
        self.facts = frozenset()   # polys known >= 0
        self.ne = frozenset()      # polys known != 0 (canonical sign)
        self.bools = {}            # opaque condition -> bool
        self.mon = None
        self.trace = None
        self.seen = frozenset()
        self.sz = {}      # base -> size poly of the object
        self.steps = 0

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = {b: dict(m) for b, m in self.mem.items()}
        s.reg = dict(self.reg)
        s.facts = self.facts
        s.ne = self.ne
        s.bools = dict(self.bools)
        s.mon = self.mon
        s.trace = self.trace
        s.seen = self.seen
        s.sz = dict(self.sz)
        s.steps = self.steps
        return s


class Engine:
    def __init__(self, mod, fn, models, monitor, **opt):
        self.mod = mod
        self.fn = fn
        self.models = models
        self.mon = monitor
        self.opt = opt
        self.tags = opt.get('tags') or {}
        self.otype = {}
        self.altypes = {}
        self.phibases = {}
        for i, t in enumerate(mod.arg_types(fn)):
            if t and t[0] == 'ptr' and i < len(fn.args):
                self.otype[('arg', i, 'p')] = t[1].get()
        self.nonneg_tags = opt.get('nonneg_tags', set())
        self.instates = {}
        self.rets = []
        self.nstates = 0
        self.nvisits = 0
        self.reports = []
        self.unknown_calls = set()
        self._live()
        self._rpo()
        self.cap = opt.get('cap', 60000)
        self.keyregs = self.return_regs() if opt.get('split_returns') else ()

    # ------------------------------------------------------------ CFG helpers
    def return_regs(self):
        """registers that reach a return or a switch through phi nodes only"""
        phis = {}
        want = set()
        for x in self.fn.insns():
            if x.op == 'phi':
                phis[x.res] = x
            elif x.op == 'ret' and x.a and x.a[0][0] == 'reg':
                want.add(x.a[0][1])
            elif x.op == 'switch' and x.a[0][0] == 'reg':
                want.add(x.a[0][1])
        todo = list(want)
        while todo:
            x = phis.get(todo.pop())
            if x is not None:
                for v, b in x.a:
                    if v[0] == 'reg' and v[1] not in want:
                        want.add(v[1])
                        todo.append(v[1])
        return tuple(sorted(r for r in want if r in phis and phis[r].ty[0] == 'int' and phis[r].ty[1] > 1))

    def _rpo(self):
        order = []
        seen = set()
        stack = [(self.fn.order[0], iter(self.fn.blocks[self.fn.order[0]].succ))]
        seen.add(self.fn.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.fn.blocks[s].succ)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}

    def _live(self):
        fn = self.fn
        use = {}
        defs = {}
        phiuse = {}
        for bn in fn.order:
            b = fn.blocks[bn]
            u = set()
            d = set()
            for x in b.ins:
                if x.op == 'phi':
                    for v, pb in x.a:
                        if v[0] == 'reg':
                            phiuse.setdefault(pb, {}).setdefault(bn, set()).add(v[1])
                    d.add(x.res)
                    continue
                for r in operand_regs(x):
                    if r not in d:
                        u.add(r)
                if x.res:
                    d.add(x.res)
            use[bn] = u
            defs[bn] = d
        livein = {b: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for bn in reversed(fn.order):
                out = set()
                for s in fn.blocks[bn].succ:
                    out |= livein[s]
                    out |= phiuse.get(bn, {}).get(s, set())
                n = use[bn] | (out - defs[bn])
                if n != livein[bn]:
                    livein[bn] = n
                    ch = True
        self.livein = livein
        self.phidef = {bn: {x.res for x in fn.blocks[bn].ins if x.op == 'phi'} for bn in fn.order}

    # ------------------------------------------------------------ nonnegativity / implication
    def nonneg_atom(self, a, st):
        k = a[0]
        if k in ('strlen', 'b', 'zx', 'al', 'heap', 'glob', 'fnp', 'sumb'):
            return True
        if k in ('ld', 'phi', 'mod', 'unk', 'stale'):
            t = self.tag_of(a)
            if t is not None and t in self.nonneg_tags:
                return True
        if k == 'pure' and a[1] in NONNEG_PURE:
            return True
        if k == 'op' and a[1] in ('udiv', 'lshr', 'urem'):
            return True
        if k == 'op' and a[1] == 'and':
            return any(self.nonneg(x, st) for x in a[2:] if is_poly(x))
        if k == 'op' and a[1] in ('sdiv', 'ashr', 'srem'):
            return self.nonneg(a[2], st)
        if T.is_ptr(a):
            return True
        if k == 'ret' and len(a) > 2 and 'nn' in a[2:]:
            return True
        if k == 'tr':
            return self.nonneg(a[2], st)
        return atom(a) in st.facts

    def nonneg(self, p, st):
        if p[0] < 0:
            return p in st.facts
        for m, k in p[1]:
            if k > 0:
                if len(set(m)) == 1 and len(m) % 2 == 0:
                    continue
                if not all(self.nonneg_atom(a, st) for a in m):
                    return p in st.facts
            else:
                return p in st.facts
        return True

    def implies_ge(self, st, p, depth=3):
        """do the facts of st imply p >= 0?"""
        if is_const(p):
            return p[0] >= 0
        if p in st.facts or self.nonneg(p, st):
            return True
        if depth <= 1:
            return False
        negs = frozenset([m for m, k in p[1] if k < 0])
        allm = frozenset([m for m, k in p[1]])
        monos = negs or allm
        loose = p[0] < 0 and not negs
        for f in st.facts:
            if f[1] == p[1] and f[0] <= p[0]:
                return True
            # a useful fact shares a monomial that is negative in p
            fn, fa = fact_index(f)
            if monos.isdisjoint(fn) and not (loose and not allm.isdisjoint(fa)):
                continue
            q = sub(p, f)
            if len(q[1]) > len(p[1]) + 2:
                continue
            if is_const(q):
                if q[0] >= 0:
                    return True
                continue
            if self.nonneg(q, st):
                return True
            if depth > 1 and self.implies_ge(st, q, depth - 1):
                return True
            # the fact multiplied by a nonnegative atom product
        for m, k in p[1]:
            if k < 0 and len(m) > 1:
                for i, a in enumerate(m):
                    if not self.nonneg_atom(a, st):
                        continue
                    rest = m[:i] + m[i + 1:]
                    for f in st.facts:
                        fm = dict(f[1])
                        if fm.get(rest, 0) < 0:
                            g = mul(f, atom(a))
                            q = sub(p, g)
                            if len(q[1]) <= len(p[1]) + 1 and (self.nonneg(q, st) or self.implies_ge(st, q, depth - 1)):
                                return True
        return False

    def decide(self, st, c):
        """True / False / None"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'not':
            r = self.decide(st, c[1])
            return None if r is None else (not r)
        if c in st.bools:
            return st.bools[c]
        if k == 'eq':
            p = c[1]
            if is_const(p):
                return p[0] == 0
            if p in st.ne:
                return False
            # distinct objects are never equal, nor null
            r = ptr_distinct(p)
            if r:
                return False
            lo = self.implies_ge(st, p)
            hi = self.implies_ge(st, neg(p))
            if lo and hi:
                return True
            if lo and self.implies_ge(st, add(p, const(-1))):
                return False
            if hi and self.implies_ge(st, add(neg(p), const(-1))):
                return False
            if not lo and self.implies_ge(st, add(p, const(-1)), 2):
                return False
            if not hi and self.implies_ge(st, add(neg(p), const(-1)), 2):
                return False
            return None
        if k == 'ge':
            p = c[1]
            if self.implies_ge(st, p):
                return True
            if self.implies_ge(st, add(neg(p), const(-1))):
                return False
            return None
        if k == 'ult':
            a, b = c[1], c[2]
            an = self.implies_ge(st, a)
            bn = self.implies_ge(st, b)
            if an and bn:
                return self.decide(st, c_ge(add(sub(b, a), const(-1))))
            if is_const(b) and b[0] == 0:
                return False
            # a negative, b nonneg: false
            if bn and self.implies_ge(st, add(neg(a), const(-1))):
                return False
            if an and self.implies_ge(st, add(neg(b), const(-1))):
                return True
            return None
        if k == 'and':
            a = self.decide(st, c[1])
            b = self.decide(st, c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a = self.decide(st, c[1])
            b = self.decide(st, c[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        return None

    def assume(self, st, c, val=True):
        """refine st with c == val in place; False if contradictory"""
        r = self.decide(st, c)
        if r is not None:
            return r == val
        while c[0] == 'not':
            c = c[1]
            val = not val
        if c[0] == 'and' and val:
            return self.assume(st, c[1]) and self.assume(st, c[2])
        if c[0] == 'or' and not val:
            return self.assume(st, c[1], False) and self.assume(st, c[2], False)
        if c[0] == 'eq':
            p = c[1]
            if val:
                self.addfact(st, p)
                self.addfact(st, neg(p))
                self.learn_eq(st, p)
            else:
                st.ne = st.ne | {p}
                if self.implies_ge(st, p, 2):
                    self.addfact(st, add(p, const(-1)))
                elif self.implies_ge(st, neg(p), 2):
                    self.addfact(st, add(neg(p), const(-1)))
            return True
        if c[0] == 'ge':
            p = c[1] if val else add(neg(c[1]), const(-1))
            self.addfact(st, p)
            for s in (p, neg(p)):
                if s in st.ne or (len(s[1]) and s[1][0][1] > 0 and s in st.ne):
                    self.addfact(st, add(p, const(-1)))
            return True
        if c[0] == 'ult':
            a, b = c[1], c[2]
            if val:
                if self.implies_ge(st, b):
                    self.addfact(st, a)
                    self.addfact(st, add(sub(b, a), const(-1)))
            else:
                # a >=u b
                if self.implies_ge(st, a):
                    self.addfact(st, b)
                    self.addfact(st, sub(a, b))
            st.bools[c] = val
            return True
        st.bools[c] = val
        return True

    def learn_eq(self, st, p):
        """p == 0 learned: if it pins an atom to a constant, replace it in memory and registers"""
        if len(p[1]) == 1 and len(p[1][0][0]) == 1 and abs(p[1][0][1]) == 1:
            a = p[1][0][0][0]
            v = const(-p[0] * p[1][0][1])
            if a[0] in ('al', 'heap', 'glob'):
                return
            f = lambda x: v if x == a else None
            for r, x in list(st.env.items()):
                if is_poly(x) and x[1] and any(a in m for m, k in x[1]):
                    st.env[r] = subst(x, f)
            for b, m in st.mem.items():
                for l, x in list(m.items()):
                    if is_poly(x) and x[1] and any(a in mm for mm, k in x[1]):
                        m[l] = subst(x, f)

    def addfact(self, st, p):
        if is_const(p):
            return
        if p in st.facts:
            return
        if len(st.facts) < MAXFACTS:
            st.facts = st.facts | {p}

    # ------------------------------------------------------------ tags (field names)
    def tag_of(self, a):
        """('BigBlock','size') for the value loaded from that field"""
        l = self.loc_of_atom(a)
        return self.loctag(*l) if l else None

    def loc_of_atom(self, a):
        if a[0] == 'ld':
            return a[1], a[2]
        if a[0] == 'phi' and isinstance(a[2], tuple) and a[2] and a[2][0] == 'm':
            return a[2][1], a[2][2]
        if a[0] == 'mod':
            return a[2], a[3]
        if a[0] == 'unk' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'm':
            return a[1][1], a[1][2]
        if a[0] == 'stale' and isinstance(a[1], tuple):
            return self.loc_of_atom(a[1])
        return None

    def typeof(self, base):
        """debug-info type of the object a base pointer designates"""
        if base in self.otype:
            return self.otype[base]
        t = None
        self.otype[base] = None
        l = self.loc_of_atom(base)
        if l:
            ft = self.fieldtype(*l)
            if ft and ft[0] == 'ptr':
                t = ft[1].get()
        elif base[0] == 'al':
            t = self.altypes.get(base)
        elif base[0] == 'stale' and isinstance(base[1], tuple):
            t = self.typeof(base[1])
        elif base[0] == 'phi':
            for x in self.phibases.get(base, ()):
                t = t or self.typeof(x)
        if t is None:
            # not known yet: do not remember the failure (a later cast or field access may tell)
            del self.otype[base]
        else:
            self.otype[base] = t
        return t

    def fieldtype(self, base, off):
        T_ = self.typeof(base)
        while T_ is not None and T_[0] == 'arr':
            T_ = T_[1]
        if T_ is None:
            return None
        if T_[0] in ('ptr', 'base'):
            return T_
        o = self.fieldoff(T_, off)
        if o is None:
            return None
        for f, fo, fs, ft in self.mod.field_types(T_[1]) or ():
            if fo <= o < fo + max(fs, 1):
                while ft is not None and ft[0] == 'arr':
                    ft = ft[1]
                return ft
        return None

    def fieldoff(self, T_, off):
        """constant offset inside a (possibly repeated) struct, or None"""
        fs = self.mod.field_types(T_[1]) if T_[0] == 'struct' and T_[1] else None
        if not fs:
            return None
        size = max(fo + s for f, fo, s, t in fs)
        size = (size + 7) // 8 * 8 if size > 4 else size
        for m, k in off[1]:
            if k % size:
                return None
        if not off[1] and 0 <= off[0] < size:
            return off[0]
        return off[0] % size

    def loctag(self, base, off):
        t = self.tags.get((base, off))
        if t is not None:
            return t
        T_ = self.typeof(base)
        while T_ is not None and T_[0] == 'arr':
            T_ = T_[1]
        if T_ is not None and T_[0] == 'struct':
            o = self.fieldoff(T_, off)
            if o is not None:
                for f, fo, fs, ft in self.mod.field_types(T_[1]):
                    if fo <= o < fo + max(fs, 1):
                        return (T_[1], f) if o == fo else (T_[1], f, '*')
            return None
        l = self.loc_of_atom(base)
        if l:
            t = self.loctag(*l)
            if t:
                return t + ('*',)
        return None

    # ------------------------------------------------------------ memory
    def version(self, st, base, off=None, size=8):
        """a hashable version of the content of an object (or of a constant range of it)"""
        m = st.mem.get(base, {})
        out = []
        for (o, s), v in m.items():
            if off is not None:
                d = sub(o, off)
                if is_const(d) and (d[0] >= size or d[0] + s <= 0):
                    continue
            out.append((o, s, v))
        out.sort(key=repr) if len(out) > 1 else None
        regs = []
        for r in st.reg.get(base, ()):
            if off is not None and r[0] is not None and is_const(off):
                if off[0] >= r[1] or off[0] + size <= r[0]:
                    continue
            regs.append(r)
        return (tuple(out), tuple(regs))

    def load(self, st, p, size, ty, ins=None):
        base, off = base_off(p)
        if base is None:
            return atom(('unk', ('nb', p), ty))
        return self.loadloc(st, base, off, size, ty)

    def loadloc(self, st, base, off, size, ty):
        m = st.mem.get(base)
        if m:
            v = m.get((off, size))
            if v is not None:
                return v
            for (o, s), v in m.items():
                d = sub(off, o)
                if is_const(d):
                    if d[0] < s and d[0] + size > 0:
                        if is_const(v) and d[0] >= 0 and d[0] + size <= s:
                            return const(wrap(((v[0] & ((1 << (8 * s)) - 1)) >> (8 * d[0])), 8 * size))
                        return atom(('unk', ('part', base, off, v), ty))
        # constant global
        if base[0] == 'glob':
            g = self.mod.globals.get(base[1])
            if g and g['const'] and g['init'] is not None and is_const(off):
                c = const_init(self.mod, g['type'], g['init'], off[0], size)
                if c is not None:
                    return self.operand(st, ('int', size * 8) if ty != 'p' else T_PTR, c)
        for r in st.reg.get(base, ()):
            lo, hi, kind, data = r
            inside = lo is None or (is_const(off) and lo <= off[0] and off[0] + size <= hi)
            overlap = lo is None or not is_const(off) or not (off[0] >= hi or off[0] + size <= lo)
            if inside:
                if kind == 'zero':
                    return const(0)
                if kind == 'copy':
                    sb, so, sv = data
                    return atom(('ld', sb, add(so, add(off, const(-(lo or 0)))), sv, ty))
                if kind == 'havoc':
                    return atom(('ld', base, off, data, ty))
            elif overlap:
                return atom(('ld', base, off, ('ov', r), ty))
        return atom(('ld', base, off, 0, ty))

    def kill_overlap(self, st, base, off, size, token):
        m = st.mem.get(base)
        needreg = False
        if m:
            for (o, s) in list(m.keys()):
                d = sub(off, o)
                if (o, s) == (off, size):
                    continue
                if is_const(d):
                    if size is None:
                        # open-ended from off
                        if d[0] < s:
                            del m[(o, s)]
                        continue
                    if d[0] < s and d[0] + size > 0:
                        del m[(o, s)]
                        if d[0] > 0 or d[0] + size < s:
                            # partially overwritten: remember that the old whole value is gone
                            m[(o, s)] = atom(('unk', ('m', base, o, token), 'i'))
                    continue
                if size is not None and noalias(d, s, size):
                    continue
                if self.opt.get('elemwise') and size is not None:
                    pass
                del m[(o, s)]

    def store(self, st, p, size, val, token):
        base, off = base_off(p)
        if base is None:
            return
        self.kill_overlap(st, base, off, size, token)
        if not is_const(off) and base[0] not in ():
            # implicit (never loaded) contents of the object may have changed
            regs = st.reg.get(base, ())
            r = (None, None, 'havoc', token)
            if not regs or regs[0] != r:
                self.retire_check(st, token)
                st.reg[base] = (r,)
        st.mem.setdefault(base, {})[(off, size)] = val
        self.alias_kill(st, base, off, size, token)

    def alias_kill(self, st, base, off, size, token):
        """a store to base may also change the objects that share a possible target with it"""
        if base[0] == 'phi':
            mine = self.leaves(base)
        elif self.nphi and base[0] in ('al', 'heap', 'arg', 'ret', 'ld', 'glob', 'stale', 'unk', 'pure'):
            mine = frozenset((base,))
        else:
            return
        for c in list(st.mem):
            if c == base:
                continue
            if c[0] == 'phi':
                if not mine.isdisjoint(self.leaves(c)):
                    self.havoc(st, c, token)
            elif base[0] == 'phi' and c in mine:
                self.kill_overlap(st, c, off, size, token)
                st.mem[c].pop((off, size), None)
                self.havoc(st, c, token)
        if base[0] == 'phi':
            for c in mine:
                if c not in st.mem and c in st.reg and st.reg[c] != ((None, None, 'havoc', token),):
                    st.reg[c] = ((None, None, 'havoc', token),)

    def leaves(self, a):
        """the non-joined objects a joined pointer may designate"""
        r = self.leafc.get(a)
        if r is None:
            out = set()
            seen = {a}
            todo = [a]
            while todo:
                x = todo.pop()
                for y in self.phibases.get(x, ()):
                    if y in seen:
                        continue
                    seen.add(y)
                    if y[0] == 'phi':
                        todo.append(y)
                    else:
                        out.add(y)
            r = frozenset(out)
            self.leafc[a] = r
        return r

    def havoc(self, st, base, token):
        st.mem.pop(base, None)
        st.reg[base] = ((None, None, 'havoc', token),)

    def havoc_range(self, st, p, n, token, kind='havoc', data=None):
        """forget n bytes at p (n None: to the end of the object)"""
        base, off = base_off(p)
        if base is None:
            return
        if kind == 'zero':
            token = None
        if n is not None and is_const(n) and is_const(off):
            lo, hi = off[0], off[0] + n[0]
            m = st.mem.get(base)
            if m:
                for (o, s) in list(m.keys()):
                    if is_const(o):
                        if o[0] < hi and o[0] + s > lo:
                            del m[(o, s)]
                    else:
                        del m[(o, s)]
            sz = st.sz.get(base)
            if sz is not None and is_const(sz) and lo == 0 and hi >= sz[0]:
                st.reg[base] = ((lo, hi, kind, data if data is not None else token),)
            else:
                old = tuple(r for r in st.reg.get(base, ()) if not (r[0] is not None and r[0] >= lo and r[1] <= hi))
                st.reg[base] = ((lo, hi, kind, data if data is not None else token),) + old
        else:
            m = st.mem.get(base)
            if m:
                for (o, s) in list(m.keys()):
                    d = sub(o, off)
                    if is_const(d) and d[0] + s <= 0:
                        continue
                    if n is not None:
                        # entry lies at or after off + n
                        q = sub(d, n)
                        if self.implies_ge(st, q):
                            continue
                    del m[(o, s)]
            if kind == 'zero' and is_const(off) and off[0] == 0 and n is not None and st.sz.get(base) == n:
                st.reg[base] = ((None, None, 'zero', None),)
            else:
                st.reg[base] = ((None, None, 'havoc', token if token is not None else ('zr', base)),)

    # ------------------------------------------------------------ re-execution of a site
    def retire_check(self, st, token):
        """token is about to be (re)defined; if the state already knows it (loop), rename the old one"""
        if token in st.seen:
            self.retire(st, token)
        else:
            st.seen = st.seen | {token}

    def retire(self, st, token):
        stale = ('stale', token)

        def has(v, t):
            return mentions(v, t)

        unkn = [0]

        def fix(v, where):
            if isinstance(v, bool) or not isinstance(v, tuple):
                return v
            if mentions(v, stale):
                return atom(('unk', ('st', token, where), 'p' if is_poly(v) and base_off(v)[0] is not None else 'i'))
            if mentions(v, token):
                return rename(v, token, stale)
            return v

        for r, v in list(st.env.items()):
            if isinstance(v, tuple):
                if is_poly(v):
                    st.env[r] = fix(v, ('r', r))
                elif mentions(v, token):
                    st.env[r] = ('opaque', ('unk', ('st', token, ('r', r)), 'i'))
        newmem = {}
        for b, m in st.mem.items():
            nb = b
            if mentions(b, stale):
                continue
            if mentions(b, token):
                nb = rename(b, token, stale)
            nm = newmem.setdefault(nb, {})
            for (o, s), v in m.items():
                if mentions(o, stale):
                    continue
                if mentions(o, token):
                    o = rename(o, token, stale)
                nm[(o, s)] = fix(v, ('m', nb, o))
        st.mem = newmem
        newreg = {}
        for b, rs in st.reg.items():
            if mentions(b, stale):
                continue
            nb = rename(b, token, stale) if mentions(b, token) else b
            out = []
            for r in rs:
                if mentions(r, stale):
                    r = (None, None, 'havoc', ('lost', token))
                elif mentions(r, token):
                    r = rename(r, token, stale)
                out.append(r)
            newreg[nb] = tuple(out)
        st.reg = newreg
        newsz = {}
        for b, s in st.sz.items():
            if mentions(b, stale) or mentions(s, stale):
                continue
            nb = rename(b, token, stale) if mentions(b, token) else b
            newsz[nb] = rename(s, token, stale) if mentions(s, token) else s
        st.sz = newsz
        st.facts = frozenset(rename(f, token, stale) if mentions(f, token) else f for f in st.facts if not mentions(f, stale))
        st.ne = frozenset(rename(f, token, stale) if mentions(f, token) else f for f in st.ne if not mentions(f, stale))
        st.bools = {(rename(c, token, stale) if mentions(c, token) else c): v for c, v in st.bools.items()
                    if not mentions(c, stale)}
        if self.mon is not None:
            self.mon.retire(self, st, token, stale)

    # ------------------------------------------------------------ operands
    def operand(self, st, ty, v):
        k = v[0]
        if k == 'reg':
            x = st.env.get(v[1])
            if x is None:
                x = atom(('unk', ('undef', v[1]), 'p' if ty[0] == 'ptr' else 'i'))
            return x
        if k == 'c':
            if ty == ('int', 1):
                return bool(v[1])
            return const(v[1])
        if k in ('null', 'zero'):
            if ty == ('int', 1):
                return False
            return const(0)
        if k == 'glob':
            if v[1] in self.mod.funcs or v[1] in self.mod.decls:
                return atom(('fnp', v[1]))
            return atom(('glob', v[1]))
        if k == 'undef':
            return atom(('unk', ('undef',), 'p' if ty[0] == 'ptr' else 'i'))
        if k == 'cf':
            return atom(('fl', v[1]))
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(st, v[2], v[3], tagging=True)
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'zext', 'sext', 'addrspacecast'):
                return self.operand(st, v[2], v[3])
            if v[1] == 'bin' and v[2] in ('add', 'sub'):
                a = self.operand(st, v[3], v[4])
                b = self.operand(st, v[3], v[5])
                return add(a, b) if v[2] == 'add' else sub(a, b)
            return atom(('unk', ('ce', repr(v)), 'i'))
        return atom(('unk', (k, repr(v)), 'i'))

    def gep(self, st, sty, ops, tagging=True):
        p = self.operand(st, *ops[0])
        t = sty
        first = True
        sname = None
        for ty, v in ops[1:]:
            idx = self.operand(st, ty, v)
            if idx is True or idx is False:
                idx = const(int(idx))
            if first:
                p = add(p, scale(idx, self.mod.size(t)))
                first = False
                continue
            rt = self.mod.resolve(t)
            if rt[0] == 'struct':
                i = idx[0]
                off = self.mod.field_offset(rt, i)
                sname = t[1] if t[0] == 'named' else None
                p = add(p, const(off))
                if sname and tagging:
                    b, o = base_off(p)
                    if b is not None:
                        n = sname.split('.')
                        sn = n[1] if len(n) > 1 else n[0]
                        self.tag_loc(b, o, sn, off)
                t = rt[1][i]
            elif rt[0] in ('arr', 'vec'):
                p = add(p, scale(idx, self.mod.size(rt[2])))
                t = rt[2]
            else:
                raise AnalysisError('gep into %r' % (rt,))
        return p

    def tag_loc(self, b, o, sname, off):
        if (b, o) in self.tags:
            return
        fs = self.mod.struct_fields(sname)
        if fs:
            for fname, fo, fsz in fs:
                if fo == off:
                    self.tags[(b, o)] = (sname, fname)
                    return

    # ------------------------------------------------------------ instruction semantics
    def ptrflag(self, ty):
        return 'p' if ty[0] == 'ptr' else 'i'

    def as_poly(self, v):
        if v is True:
            return const(1)
        if v is False:
            return const(0)
        if is_poly(v):
            return v
        return atom(('b', v))

    def icmp(self, st, pred, ty, a, b):
        if ty == ('int', 1):
            # comparison of booleans
            pa, pb = a, b
            if pb is True or pb is False:
                r = pa if pb else c_not(pa) if pa not in (True, False) else (not pa)
                if isinstance(pa, bool):
                    r = (pa == pb)
                return r if pred == 'eq' else (c_not(r) if not isinstance(r, bool) else not r)
            return ('opaque', ('unk', ('icmp1', pred, a, b), 'i'))
        a = self.as_poly(a)
        b = self.as_poly(b)
        if pred == 'eq':
            return c_eq(sub(a, b))
        if pred == 'ne':
            return c_not(c_eq(sub(a, b)))
        if pred == 'sge':
            return c_ge(sub(a, b))
        if pred == 'sle':
            return c_ge(sub(b, a))
        if pred == 'sgt':
            return c_ge(add(sub(a, b), const(-1)))
        if pred == 'slt':
            return c_ge(add(sub(b, a), const(-1)))
        if ty[0] == 'int' and ty[1] <= 64:
            if is_const(a) and a[0] < 0:
                a = const(a[0] & ((1 << ty[1]) - 1))
            if is_const(b) and b[0] < 0:
                b = const(b[0] & ((1 << ty[1]) - 1))
        if pred == 'ult':
            r = ('ult', a, b)
        elif pred == 'ugt':
            r = ('ult', b, a)
        elif pred == 'ule':
            r = ('not', ('ult', b, a))
        elif pred == 'uge':
            r = ('not', ('ult', a, b))
        else:
            raise AnalysisError(pred)
        x, y = (r[1], r[2]) if r[0] == 'ult' else (r[1][1], r[1][2])
        if is_const(x) and is_const(y):
            v = x[0] < y[0]
            return v if r[0] == 'ult' else not v
        if is_const(x) and x[0] == 0 and r[0] == 'ult':
            # 0 <u y  ==  y != 0
            return c_not(c_eq(y))
        if is_const(x) and x[0] == 0 and r[0] == 'not':
            return c_eq(y)
        if is_const(y) and y[0] == 1:
            return c_eq(x) if r[0] == 'ult' else c_not(c_eq(x))
        return r

    def binop(self, st, op, ty, a, b):
        if ty == ('int', 1):
            if op == 'and':
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                if b is True:
                    return a
                return ('and', a, b)
            if op == 'or':
                if a is True or b is True:
                    return True
                if a is False:
                    return b
                if b is False:
                    return a
                return ('or', a, b)
            if op == 'xor':
                if b is True:
                    return c_not(a)
                if a is True:
                    return c_not(b)
                if b is False:
                    return a
                if a is False:
                    return b
            return ('opaque', ('unk', ('bin1', op, a, b), 'i'))
        a = self.as_poly(a)
        b = self.as_poly(b)
        w = ty[1] if ty[0] == 'int' else 0
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if is_const(a) and is_const(b):
            x, y = a[0], b[0]
            ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
            try:
                if op == 'and':
                    return const(wrap(ux & uy, w))
                if op == 'or':
                    return const(wrap(ux | uy, w))
                if op == 'xor':
                    return const(wrap(ux ^ uy, w))
                if op == 'shl':
                    return const(wrap(ux << uy, w))
                if op == 'lshr':
                    return const(ux >> uy)
                if op == 'ashr':
                    return const(x >> uy)
                if op == 'udiv':
                    return const(ux // uy)
                if op == 'urem':
                    return const(ux % uy)
                if op == 'sdiv':
                    q = abs(x) // abs(y)
                    return const(q if (x < 0) == (y < 0) else -q)
                if op == 'srem':
                    r = abs(x) % abs(y)
                    return const(r if x >= 0 else -r)
            except (ZeroDivisionError, ValueError):
                pass
        if op == 'shl' and is_const(b) and 0 <= b[0] < 63:
            return scale(a, 1 << b[0])
        if op in ('udiv', 'sdiv', 'urem', 'srem') and is_const(a) and a[0] == 0:
            return const(0)
        if op in ('udiv', 'sdiv') and is_const(b) and b[0] == 1:
            return a
        if op in ('sdiv', 'udiv') and is_const(b) and b[0] > 1:
            # exact division of a polynomial whose coefficients are all multiples
            if a[0] % b[0] == 0 and all(k % b[0] == 0 for m, k in a[1]):
                return (a[0] // b[0], tuple((m, k // b[0]) for m, k in a[1]))
        if op in ('lshr', 'ashr') and is_const(b):
            if op == 'lshr' and b[0] > 0 and b[0] < 64:
                return atom(('op', 'lshr', a, b, 'i'))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return atom(('op', op, a, b, 'i'))
        if op in ('and', 'or', 'xor'):
            if T.aid_key(a) > T.aid_key(b):
                a, b = b, a
        return atom(('op', op, a, b, 'i'))

    def cast(self, st, op, fty, tty, v):
        if fty == ('int', 1):
            v = self.as_poly(v)
            if op == 'sext':
                v = neg(v)
            return v
        if tty == ('int', 1):
            if op == 'trunc':
                a = as_atom(v)
                if is_const(v):
                    return bool(v[0] & 1)
                if a is not None and a[0] == 'b':
                    return a[1]
                return c_not(c_eq(atom(('op', 'and', v, const(1), 'i'))))
            return ('opaque', ('unk', ('cast1', v), 'i'))
        v = self.as_poly(v)
        if op in ('sext', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return v
        if op == 'zext':
            if is_const(v):
                return const(v[0] & ((1 << fty[1]) - 1))
            if fty[1] <= 16 and not self.nonneg(v, st):
                return atom(('zx', fty[1], v))
            return v
        if op == 'trunc':
            if is_const(v):
                return const(wrap(v[0], tty[1]))
            if tty[1] >= 32 and self.opt.get('trunc_id', True) and self.narrow_ok(st, v):
                return v
            a = as_atom(v)
            if a is not None and a[0] in ('zx', 'tr') and a[1] == tty[1] and a[0] == 'zx':
                return a[2]
            return atom(('tr', tty[1], v))
        return atom(('op', op, tty, v, 'i'))

    def narrow_ok(self, st, v):
        """value known to have come from a 32-bit quantity"""
        a = as_atom(v)
        if a is None:
            return False
        if a[0] == 'ld' and a[-1] == 'i32':
            return True
        return False

    # ------------------------------------------------------------ main loop
    def run(self, init):
        entry = self.fn.order[0]
        self.phibases = {}
        self.leafc = {}
        self.nphi = 0
        self.kid = {}
        self.q = []
        self.inq = set()
        self.flow(init, None, entry)
        while self.q:
            _, _, bk = heapq.heappop(self.q)
            self.inq.discard(bk)
            self.nvisits += 1
            if self.nvisits > self.cap:
                raise AnalysisError('state budget exceeded in %s' % self.fn.name)
            st = self.instates[bk][0].copy()
            self.exec_block(bk[0], st)
        return self

    def gc(self, st):
        """forget objects and facts nothing can reach any more"""
        live = set()
        for v in st.env.values():
            live |= T.atomset(v)
        if st.mon is not None:
            live |= T.atomset(st.mon) if isinstance(st.mon, tuple) else T.atoms_of(st.mon)
            for x in (st.mon if isinstance(st.mon, tuple) else ()):
                if isinstance(x, frozenset):
                    for y in x:
                        live |= T.atomset(y)
        bases = set(st.mem) | set(st.reg)
        kept = set()
        done = set()
        todo = [b for b in bases if b[0] not in GCKINDS]
        rest = [b for b in bases if b[0] in GCKINDS]
        while True:
            for b in todo:
                kept.add(b)
                live |= T.atomset(b)
                for (o, s), v in st.mem.get(b, {}).items():
                    live |= T.atomset(v)
                    if o[1]:
                        live |= T.atomset(o)
                for r in st.reg.get(b, ()):
                    if r[2] == 'copy':
                        live |= T.atomset(r[3])
            todo = []
            nrest = []
            for a in [a for a in live if a[0] == 'phi' and a[-1] == 'p' and a not in done]:
                done.add(a)
                live |= self.leaves(a)
                st_ = self.phibases.get(a)
                if st_:
                    live |= {y for y in st_ if y[0] == 'phi'}
            for b in rest:
                if b in live:
                    todo.append(b)
                else:
                    nrest.append(b)
            rest = nrest
            if not todo:
                break
        for b in rest:
            st.mem.pop(b, None)
            st.reg.pop(b, None)
            st.sz.pop(b, None)
        for v in st.sz.values():
            live |= T.atomset(v)
        if len(st.facts) + len(st.ne) > 12:
            def ok(f):
                for m, k in f[1]:
                    for a in m:
                        if a[0] in VOLATILE and a not in live:
                            return False
                        if a[0] in ('pure', 'strlen') and a not in live and any(x[0] in GCKINDS and x not in live for x in T.atomset(a)):
                            return False
                return True
            keep = frozenset(f for f in st.facts if ok(f))
            if len(keep) < len(st.facts):
                # what the dropped facts say about the rest: eliminate the dead symbol
                dead = {}
                for f in st.facts - keep:
                    if len(f[1]) > 3:
                        continue
                    ds = [(m, k) for m, k in f[1] for a in m if a[0] in VOLATILE and a not in live]
                    if len(ds) == 1 and len(ds[0][0]) == 1:
                        dead.setdefault(ds[0][0], ([], []))[0 if ds[0][1] > 0 else 1].append((f, ds[0][1]))
                new = set()
                for m, (ps, ns) in dead.items():
                    if len(ps) * len(ns) > 60:
                        continue
                    for f, k in ps:
                        for g, j in ns:
                            if k == -j:
                                h = add(f, g)
                                if h[1] and len(h[1]) <= 3 and ok(h):
                                    new.add(h)
                if new and len(keep) + len(new) < MAXFACTS:
                    keep = keep | new
            st.facts = keep
            st.ne = frozenset(f for f in st.ne if ok(f))
        if len(st.bools) > 4:
            st.bools = {c: v for c, v in st.bools.items()
                        if all(a in live or a[0] not in VOLATILE for a in T.atomset(c))}

    def push(self, bk):
        if bk not in self.inq:
            self.inq.add(bk)
            heapq.heappush(self.q, (self.rpo[bk[0]], len(self.q), bk)) if False else \
                heapq.heappush(self.q, (self.rpo[bk[0]], self._tick(), bk))

    _t = 0

    def _tick(self):
        self._t += 1
        return self._t

    def flow(self, st, src, dst):
        """state st leaves block src for dst"""
        blk = self.fn.blocks[dst]
        # phi nodes, in parallel
        vals = []
        short = []
        for x in blk.ins:
            if x.op != 'phi':
                break
            for v, pb in x.a:
                if pb == src:
                    vals.append((x.res, self.operand(st, x.ty, v)))
                    if x.ty == ('int', 1):
                        v = vals[-1][1]
                        short.append((x.res, v if v in (True, False) or is_poly(v) and is_const(v) else None))
                    break
        live = self.livein[dst]
        st.env = {r: v for r, v in st.env.items() if r in live}
        for r, v in vals:
            st.env[r] = v
        if self.mon is not None:
            if self.mon.on_edge(self, st, src, dst) is False:
                return
        self.gc(st)
        st.trace = (st.trace, dst)
        key = (dst, self.mon.key(self, st) if self.mon is not None else None)
        if self.keyregs:
            # paths that are about to return different constants stay apart
            ks = tuple((r, st.env[r]) for r in self.keyregs if r in st.env and is_const(st.env[r])) \
                if self.keyregs else ()
            if ks:
                key = (dst, (key[1], ks))
        if short and src is not None and self.rpo[dst] > self.rpo[src] and \
                all(x.op in ('phi', 'br', 'cbr') for x in blk.ins):
            # a condition of several parts: each part is decided on its own path
            self.exec_block(dst, st)
            return
        if short:
            key = (dst, (key[1], tuple(short)))
        cur = self.instates.get(key)
        if cur is None:
            self.nstates += 1
            self.instates[key] = [st, 1]
            self.push(key)
            return
        j = self.join(key, cur[0], st, cur[1])
        if j is not None:
            cur[0] = j
            cur[1] += 1
            self.push(key)

    # ------------------------------------------------------------ join
    def join(self, key, A, B, n):
        """None if B adds nothing to A"""
        bid = ('j', key[0], self.kid.setdefault(key[1], len(self.kid)))
        phis = {}      # phi atom -> (A value, B value)

        def mkphi(name, va, vb):
            ptr = False
            for v in (va, vb):
                if is_poly(v):
                    b, o = base_off(v)
                    if b is not None:
                        ptr = True
            a = ('phi', bid, name, 'p' if ptr else 'i')
            if ptr:
                s = self.phibases.setdefault(a, set())
                for v in (va, vb):
                    if is_poly(v):
                        b, o = base_off(v)
                        if b is not None and b != a and b not in s:
                            s.add(b)
                            self.leafc.clear()
                self.nphi = len(self.phibases)
            return a

        # entries of A and B
        ea = {}
        eb = {}
        for r, v in A.env.items():
            ea[('r', r)] = v
        for r, v in B.env.items():
            eb[('r', r)] = v
        if self.mon is not None:
            for r, v in self.mon.ghosts(A).items():
                ea[('g', r)] = v
            for r, v in self.mon.ghosts(B).items():
                eb[('g', r)] = v
        changed = False
        allocs = set(A.sz) | set(B.sz)
        for base in list(A.mem) + [b for b in B.mem if b not in A.mem]:
            ma = A.mem.get(base, {})
            mb = B.mem.get(base, {})
            for l in list(ma) + [l for l in mb if l not in ma]:
                va = ma.get(l)
                vb = mb.get(l)
                if va is None or vb is None:
                    ty = 'i'
                    w = va if va is not None else vb
                    if is_poly(w) and base_off(w)[0] is not None:
                        ty = 'p'
                    if va is None:
                        va = self.loadloc(A, base, l[0], l[1], ty)
                    if vb is None:
                        vb = self.loadloc(B, base, l[0], l[1], ty)
                nm = ('m', base, l[0], l[1])
                ea[nm] = va
                eb[nm] = vb
        # regions
        reg = {}
        rtok = {}      # region token of this join -> (base, regions in A, regions in B)
        for base in set(A.reg) | set(B.reg):
            ra = A.reg.get(base, ())
            rb = B.reg.get(base, ())
            if ra == rb:
                reg[base] = ra
            else:
                tok = ('phiep', bid, base)
                r = ((None, None, 'havoc', tok),)
                if ra != r:
                    # an object that exists on one side only keeps its description
                    if base not in A.reg and base in B.sz and base not in A.sz:
                        reg[base] = rb
                        changed = True
                        continue
                    if base not in B.reg and base in A.sz and base not in B.sz:
                        reg[base] = ra
                        continue
                    changed = True
                reg[base] = r
                rtok[tok] = (base, ra, rb, r)
        rawA = {v[3]: v[1] for v in rtok.values() if v[1] != v[3]}
        rawB = {v[3]: v[2] for v in rtok.values() if v[2] != v[3]}
        keysA = {t for t, v in rtok.items() if v[1] != v[3]}
        keysB = {t for t, v in rtok.items() if v[2] != v[3]}

        def mapper(sub, side, toks):
            def f(x):
                r = sub.get(x)
                if r is not None:
                    return r
                if x[0] == 'ld' and isinstance(x[3], tuple) and x[3] in toks and rtok[x[3]][0] == x[1]:
                    return self.loadloc(side, x[1], x[2], 4 if x[4] == 'i32' else 8, x[4])
                return None
            return f
        # phi atoms of this join point already in A, with their value on the B side
        subB = {}
        pend = dict(ea)
        for nm, va in ea.items():
            if is_poly(va):
                a = as_atom(va)
                if a is not None and a[0] == 'phi' and a[1] == bid and a[2] == nm and nm in eb and is_poly(eb[nm]):
                    subB[a] = eb[nm]
                elif a is None and nm in eb and is_poly(eb[nm]):
                    b, o = base_off(va)
                    a = as_atom(o) if b is not None else None
                    if a is not None and a[0] == 'phi' and a[1] == bid and a[2] == nm and base_off(eb[nm])[0] == b:
                        subB[a] = base_off(eb[nm])[1]
        res = {}
        newphi = {}
        pairs = {}
        fB0 = mapper(subB, B, keysB)
        kB0 = set(subB) | keysB

        def sB(v):
            return subst(v, fB0, kB0, rawB) if kB0 else v

        def linear(va, vb):
            """as the sum or difference of a value joined already and something that both sides agree on"""
            for ph, (a, b) in newphi.items():
                if ph[-1] == 'p':
                    continue
                for s in (sub, add):
                    d = s(va, a)
                    if len(d[1]) <= max(len(va[1]), len(a[1])) and (va[1] or vb[1] or a[1] or b[1]) and sB(d) == s(vb, b):
                        return add(d, atom(ph)) if s is sub else sub(d, atom(ph))
            return None

        defer = []
        for nm, va in ea.items():
            if nm[0] == 'g':
                continue
            vb = eb.get(nm)
            if vb is None:
                res[nm] = None
                continue
            if is_poly(va) and is_poly(vb):
                a = as_atom(va)
                if a is not None and a[0] == 'phi' and a[1] == bid and a[2] == nm:
                    res[nm] = va
                    if a[-1] != 'p' and base_off(vb)[0] is not None:
                        pass
                    elif base_off(vb)[0] is not None:
                        mkphi(nm, va, vb)
                    continue
                if va == vb and not kB0:
                    res[nm] = va
                    continue
                if sB(va) == vb:
                    res[nm] = va
                    continue
                defer.append((nm, va, vb))
            else:
                # conditions / booleans
                if va == vb and (not kB0 or isinstance(va, bool) or sB(va) == vb):
                    res[nm] = va
                    continue
                if isinstance(va, tuple) and va and va[0] == 'opaque' and va[1][0] == 'phi' and va[1][1] == bid:
                    res[nm] = va
                    continue
                if (is_poly(va) != is_poly(vb)) and nm[0] == 'm':
                    va2, vb2 = self.as_poly(va), self.as_poly(vb)
                    ph = mkphi(nm, va2, vb2)
                    newphi[ph] = (va2, vb2)
                    res[nm] = atom(ph)
                    continue
                ph = ('phi', bid, nm, 'i')
                # a joined condition is a 0/1 integer compared with 0
                va2, vb2 = self.as_poly(va), self.as_poly(vb)
                newphi[ph] = (va2, vb2)
                res[nm] = c_not(c_eq(atom(ph)))
        def nested(va, vb):
            """the same term over values joined already"""
            for v, i in ((va, 0), (vb, 1)):
                gm = {vs[i]: atom(ph) for ph, vs in newphi.items() if vs[i][1]}
                ks = set()
                for w in gm:
                    for m, k in w[1]:
                        ks |= set(m)
                if T.atomset(v).isdisjoint(ks):
                    continue
                g = generalize(v, gm, {})
                if g == v:
                    continue
                s0 = {ph: vs[0] for ph, vs in newphi.items()}
                s1 = dict(subB)
                s1.update((ph, vs[1]) for ph, vs in newphi.items())
                if subst(g, mapper(s0, A, keysA), set(s0) | keysA, rawA) == va and subst(g, mapper(s1, B, keysB), set(s1) | keysB, rawB) == vb:
                    return g
            return None

        defer.sort(key=lambda e: len(T.atomset(e[1])) + len(T.atomset(e[2])))
        for nm, va, vb in defer:
            if newphi:
                r = nested(va, vb)
                if r is not None:
                    res[nm] = r
                    continue
            b, o = base_off(va)
            if b is not None:
                b2, o2 = base_off(vb)
                if b2 == b and sB(atom(b)) == atom(b):
                    # the same object at different offsets
                    ph = pairs.get((o, o2))
                    if ph is not None:
                        res[nm] = add(atom(b), atom(ph))
                        continue
                    r = linear(o, o2)
                    if r is None:
                        ph = ('phi', bid, nm, 'i')
                        newphi[ph] = (o, o2)
                        pairs[o, o2] = ph
                        r = atom(ph)
                    res[nm] = add(atom(b), r)
                    continue
            ph = pairs.get((va, vb))
            if ph is None or ph[-1] == 'p':
                r = linear(va, vb)
                if r is not None:
                    res[nm] = r
                    continue
                ph = mkphi(nm, va, vb)
                newphi[ph] = (va, vb)
                pairs[va, vb] = ph
            res[nm] = atom(ph)
        if newphi:
            changed = True
        fullB = dict(subB)
        for ph, (va, vb) in newphi.items():
            fullB[ph] = vb
        subA = {ph: va for ph, (va, vb) in newphi.items()}
        fA = mapper(subA, A, keysA)
        kA = set(subA) | keysA
        fB = mapper(fullB, B, keysB)
        kB = set(fullB) | keysB

        def toA(v):
            return subst(v, fA, kA, rawA) if kA else v

        def toB(v):
            return subst(v, fB, kB, rawB) if kB else v

        self.jphis = newphi
        self.jctx = (toA, toB, {va: atom(ph) for ph, (va, vb) in newphi.items() if va[1]})
        ghosts = {}
        self.jvals = {(ea[nm], eb[nm]): v for nm, v in res.items() if v is not None and nm[0] == 'r' and nm in ea and nm in eb}
        for nm, va in ea.items():
            if nm[0] != 'g' or nm not in eb:
                continue
            a = as_atom(va)
            if a is not None and a in subB and a[2] == nm:
                ghosts[nm[1]] = va
                continue
            r = self.corr(va, eb[nm])
            if r is None:
                ph = mkphi(nm, va, eb[nm])
                newphi[ph] = (va, eb[nm])
                subA[ph] = va
                fullB[ph] = eb[nm]
                kA.add(ph)
                kB.add(ph)
                changed = True
                r = atom(ph)
            ghosts[nm[1]] = r
        # candidate facts
        cand = set(A.facts)
        candne = set(A.ne)
        candb = {}
        if newphi and n < 16 or keysA and n < 6:
            for ph, (va, vb) in newphi.items():
                pa = atom(ph)
                for v in (va, vb):
                    cand.add(sub(pa, v))
                    cand.add(sub(v, pa))
                cand.add(pa)
                if ph[2][0] == 'g':
                    cand.add(neg(pa))
                    for v in (va, vb):
                        for m, k in v[1]:
                            if k == 1 and len(m) == 1:
                                cand.add(sub(pa, atom(m[0])))
                                cand.add(sub(atom(m[0]), pa))
                candne.add(pa)
                if is_const(va) and is_const(vb) and ph[-1] != 'p' and abs(va[0]) + abs(vb[0]) < 64:
                    for f in B.facts:
                        if len(f[1]) == 1 and f[1][0][1] < 0:
                            cand.add(add(f, sub(pa, vb)))
                        elif len(f[1]) == 1:
                            cand.add(add(f, sub(vb, pa)))
                if is_const(va) and is_const(vb) and ph[-1] != 'p':
                    # an entry of a table at a constant index
                    for f in B.facts:
                        for m, k in f[1]:
                            if len(m) == 1 and m[0][0] == 'ld' and is_const(m[0][2]) and m[0][2][0] in (8 * vb[0], 4 * vb[0]) and m[0][2][0]:
                                a = m[0][:2] + (scale(pa, m[0][2][0] // vb[0]),) + m[0][3:]
                                cand.add(add(sub(f, scale(atom(m[0]), k)), scale(atom(a), k)))
                aa = as_atom(va)
                ab = as_atom(vb)
                for src, a, facts, nes in ((0, aa, A.facts, A.ne), (1, ab, B.facts, B.ne)):
                    if a is None:
                        continue
                    for f in facts:
                        if any(a in m for m, k in f[1]):
                            g = subst(f, lambda x: pa if x == a else None)
                            cand.add(g)
                            cand.add(add(g, const(1)))
                    for f in nes:
                        if any(a in m for m, k in f[1]):
                            candne.add(subst(f, lambda x: pa if x == a else None))
            # facts about terms that contain the joined values
            gm = {}
            for ph, (va, vb) in newphi.items():
                if va[1] and va not in gm:
                    gm[va] = atom(ph)
            gkeys = set()
            for va in gm:
                for m, k in va[1]:
                    gkeys |= set(m)
            for side, i in ((A, 0), (B, 1)):
                for ph, vs in newphi.items():
                    va, pa = vs[i], atom(ph)
                    if not va[1] or len(va[1]) < 2 and va[1][0][1] == 1 and len(va[1][0][0]) == 1 and va[0] == 0:
                        continue
                    for f in side.facts:
                        fd = dict(f[1])
                        k = fd.get(va[1][0][0])
                        if k is None or k % va[1][0][1]:
                            continue
                        k //= va[1][0][1]
                        if all(fd.get(m) == k * c for m, c in va[1]):
                            cand.add(add(f, mul(const(k), sub(pa, va))))
            gmB, gB = {}, set()
            for ph, vb in fullB.items():
                if is_poly(vb) and vb[1] and vb not in gmB:
                    gmB[vb] = atom(ph)
                    for m, k in vb[1]:
                        gB |= set(m)
            if gmB:
                memo = {}
                for f in B.facts:
                    if not T.atomset(f).isdisjoint(gB):
                        g = generalize(f, gmB, memo)
                        if g != f:
                            cand.add(g)
                            cand.add(add(g, const(1)))
            graw = {v[1]: v[3] for v in rtok.values() if v[1] and v[1] != v[3]}
            for v in rtok.values():
                if v[1] and v[1] != v[3]:
                    gkeys.add(v[0])
            if gm or graw:
                memo = dict(graw)
                for f in A.facts:
                    if not T.atomset(f).isdisjoint(gkeys):
                        g = generalize(f, gm, memo)
                        if g != f:
                            cand.add(g)
                for f in A.ne:
                    if not T.atomset(f).isdisjoint(gkeys):
                        g = generalize(f, gm, memo)
                        if g != f:
                            candne.add(g)
                for c, v in A.bools.items():
                    if not T.atomset(c).isdisjoint(gkeys):
                        g = generalize(c, gm, memo)
                        if g != c:
                            candb[g] = v
            # differences between phis
            ps = list(newphi.items())
            if len(ps) <= 8:
                for i in range(len(ps)):
                    for j in range(i):
                        d = sub(ps[i][1][0], ps[j][1][0])
                        e = sub(ps[i][1][1], ps[j][1][1])
                        if d == e and not T.is_ptr(ps[i][0]) and not T.is_ptr(ps[j][0]):
                            x = sub(sub(atom(ps[i][0]), atom(ps[j][0])), d)
                            cand.add(x)
                            cand.add(neg(x))
            # order between a joined variable and the other variables
            ints = [ph for ph in newphi if ph[2][0] in 'rg' and not T.is_ptr(ph) and ph[-1] != 'p']
            if 0 < len(ints) <= 8:
                others = {v for nm, v in res.items() if nm[0] == 'r' and v is not None and is_poly(v) and base_off(v)[0] is None}
                more = {atom(m[0]) for f in A.facts if len(f[1]) <= 2 for m, k in f[1]
                        if len(m) == 1 and m[0][0] == 'ld' and not T.is_ptr(m[0]) and not m[0][2][1]}
                if len(more) <= 8:
                    others |= more
                if len(others) <= 24:
                    for ph in ints:
                        for v in others:
                            d = sub(atom(ph), v)
                            if not is_const(d):
                                cand.update((d, neg(d), add(d, const(-1)), sub(const(-1), d)))
                                if ph[2][0] == 'g':
                                    cand.update((add(d, const(1)), sub(const(1), d)))
                                    for qh in ints:
                                        if qh[2][0] == 'r' and as_atom(v) is not None and as_atom(v)[0] == 'ld':
                                            e = sub(d, atom(qh))
                                            cand.update((e, neg(e)))
            if len(newphi) <= 4:
                cand |= {f for f in B.facts}
        facts = set()
        for f in cand:
            if f in A.facts and T.atomset(f).isdisjoint(kB) and f in B.facts:
                facts.add(f)
                continue
            fa = toA(f)
            if is_const(fa):
                if fa[0] < 0:
                    continue
            elif fa not in A.facts and not self.implies_ge(A, fa, 3 if len(fa[1]) < 4 else 2):
                continue
            fb = toB(f)
            if is_const(fb):
                if fb[0] < 0:
                    continue
            elif fb not in B.facts and not self.implies_ge(B, fb, 3 if len(fb[1]) < 4 else 2):
                continue
            if not is_const(f):
                facts.add(f)
        best = {}
        for f in facts:
            g = best.get(f[1])
            if g is None or f[0] < g:
                best[f[1]] = f[0]
        facts = {f for f in facts if f[0] <= best[f[1]] + 1 or f in A.facts and f[0] == 0}
        if len(facts) > MAXFACTS:
            # facts of the variables joined here are of more use than facts about results of old calls
            keep = sorted(facts, key=lambda f: (n > 1 and f not in A.facts, not any(m[0][0] == 'phi' for m, k in f[1]) or len(f[1]) > 2, f not in A.facts, len(f[1]), repr(f)))
            facts = set(keep[:MAXFACTS])
        if not (A.facts <= facts):
            changed = True
        nes = set()
        for f in candne:
            fa = toA(f)
            fb = toB(f)
            if self.decide_ne(A, fa) and self.decide_ne(B, fb):
                nes.add(f)
        if not (A.ne <= nes):
            changed = True
        bools = {}
        for c, v in A.bools.items():
            cb = toB(c)
            if isinstance(cb, tuple) and B.bools.get(cb) == v:
                bools[c] = v
            elif isinstance(cb, tuple) and is_cond(cb) and self.decide(B, cb) == v:
                bools[c] = v
            else:
                changed = True
        for c, v in candb.items():
            if c in bools or not is_cond(c):
                continue
            ca = toA(c)
            cb = toB(c)
            if (ca in A.bools and A.bools[ca] == v or self.decide(A, ca) == v) and \
               (cb in B.bools and B.bools[cb] == v or self.decide(B, cb) == v):
                bools[c] = v
        sz = {}
        for b in set(A.sz) | set(B.sz):
            x = A.sz.get(b)
            y = B.sz.get(b)
            if x is None:
                sz[b] = y
                changed = True
            elif y is None or x == y or toB(x) == y:
                sz[b] = x
            else:
                u = atom(('unk', ('sz', bid, b), 'i'))
                if x != u:
                    changed = True
                sz[b] = u
        seen = A.seen | B.seen
        if seen != A.seen:
            changed = True
        S = State()
        for nm, v in res.items():
            if v is None:
                if nm in ea and nm[0] == 'r':
                    changed = True
                continue
            if nm[0] == 'r':
                S.env[nm[1]] = v
            if nm[0] == 'm':
                S.mem.setdefault(nm[1], {})[(nm[2], nm[3])] = v
                if nm[2:] not in A.mem.get(nm[1], {}):
                    changed = True
        S.facts = frozenset(facts)
        S.ne = frozenset(nes)
        S.bools = bools
        S.reg = reg
        S.sz = sz
        S.seen = seen
        S.trace = A.trace
        self.jctx = (toA, toB, {va: atom(ph) for ph, (va, vb) in newphi.items() if va[1]})
        S.mon = A.mon if self.mon is None else self.mon.join(self, A, B)
        if ghosts:
            self.mon.setghosts(S, ghosts)
        if not changed and S.mon == A.mon:
            return None
        return S

    def corr(self, va, vb):
        """for Monitor.join: the value that is va on the one side and vb on the other, or None"""
        toA, toB, gm = self.jctx
        if not isinstance(va, tuple) or not isinstance(vb, tuple):
            return va if va == vb else None
        if is_poly(va) or is_cond(va):
            if not (is_poly(vb) or is_cond(vb)):
                return None
            if toB(va) == vb:
                return va
            g = self.jvals.get((va, vb))
            if g is not None:
                return g
            g = generalize(va, gm, {})
            if g != va and toA(g) == va and toB(g) == vb:
                return g
            if is_poly(va) and is_poly(vb):
                ls = [(s(const(0), atom(ph)), s(const(0), a), s(const(0), b)) for ph, (a, b) in self.jphis.items() if ph[-1] != 'p' for s in (add, sub)]
                for p, a, b in ls:
                    d = sub(va, a)
                    if toB(d) == sub(vb, b):
                        return add(p, d)
                if len(ls) <= 24:
                    for i, (p, a, b) in enumerate(ls):
                        for p2, a2, b2 in ls[:i]:
                            d = sub(sub(va, a), a2)
                            if toB(d) == sub(sub(vb, b), b2):
                                return add(add(p, p2), d)
            return None
        if len(va) != len(vb):
            return None
        out = []
        for x, y in zip(va, vb):
            r = self.corr(x, y)
            if r is None and x is not None:
                return None
            out.append(r)
        return tuple(out)

    def decide_ne(self, st, p):
        if is_const(p):
            return p[0] != 0
        return self.decide(st, c_eq(p)) is False

    # ------------------------------------------------------------ executing a block
    def exec_block(self, bn, st):
        blk = self.fn.blocks[bn]
        states = [st]
        for x in blk.ins:
            if x.op == 'phi':
                continue
            nxt = []
            for s in states:
                nxt.extend(self.step(x, s))
            states = nxt
            if not states:
                return

    def setreg(self, st, ins, v):
        if ins.res is not None:
            st.env[ins.res] = v

    def step(self, x, st):
        op = x.op
        if op == 'alloca':
            tok = ('al', x.fn.name, x.uid)
            self.retire_check(st, tok)
            n = self.operand(st, ('int', 64), x.a[0])
            if x.ty[0] == 'named':
                nm = x.ty[1].split('.')
                self.altypes[tok] = ('struct', nm[1] if len(nm) > 1 else nm[0])
            st.sz[tok] = scale(n, self.mod.size(x.ty))
            # the address of a fixed alloca is the same object on every execution; its content is undefined
            st.mem.pop(tok, None)
            st.reg[tok] = ((None, None, 'havoc', ('uninit', tok)),)
            self.setreg(st, x, atom(tok))
            return [st]
        if op == 'load':
            p = self.operand(st, T_PTR, x.a[0])
            size = self.mod.size(x.ty)
            if x.ty == ('int', 1):
                v = c_not(c_eq(self.load(st, p, 1, 'i', x)))
            else:
                ty = 'p' if x.ty[0] == 'ptr' else ('i32' if x.ty == ('int', 32) else 'i')
                v = self.load(st, p, size, ty, x)
            if self.mon is not None:
                r = self.mon.on_load(self, st, x, p, size, v)
                if r is not None:
                    v = r
            self.setreg(st, x, v)
            return [st]
        if op == 'store':
            v = self.operand(st, x.ty, x.a[0])
            if x.ty == ('int', 1) or not is_poly(v):
                v = self.as_poly(v)
            p = self.operand(st, T_PTR, x.a[1])
            size = self.mod.size(x.ty)
            tok = ('st', x.fn.name, x.uid)
            if self.mon is not None:
                self.mon.on_store(self, st, x, p, size, v)
            b, o = base_off(p)
            if b is not None and b[0] == 'arg' and atom(b) not in st.ne:
                # what has been written through is not null
                st.ne = st.ne | {atom(b)}
            self.store(st, p, size, v, tok)
            return [st]
        if op == 'gep':
            self.setreg(st, x, self.gep(st, x.ty, x.a))
            return [st]
        if op == 'icmp':
            a = self.operand(st, x.ty, x.a[0])
            b = self.operand(st, x.ty, x.a[1])
            self.setreg(st, x, self.icmp(st, x.extra['pred'], x.ty, a, b))
            return [st]
        if op == 'bin':
            a = self.operand(st, x.ty, x.a[0])
            b = self.operand(st, x.ty, x.a[1])
            if self.mon is not None:
                self.mon.on_bin(self, st, x, a, b)
            r = self.binop(st, x.extra['op'], x.ty, a, b)
            if x.extra['op'] in ('ashr', 'lshr', 'sdiv', 'udiv') and is_poly(b) and is_const(b) and is_poly(a) and is_poly(r) and not is_const(r) and 0 < b[0] < (1 << 32):
                k = b[0] if x.extra['op'] in ('sdiv', 'udiv') else 1 << b[0] if b[0] < 32 else 0
                if k and self.implies_ge(st, a):
                    self.addfact(st, add(r, const(-1)) if self.implies_ge(st, add(a, const(-k))) else r)
                    self.addfact(st, sub(a, scale(r, k)))
                    self.addfact(st, add(sub(scale(r, k), a), const(k - 1)))
                    if len(a[1]) == 2:
                        for v in [atom(m[0]) for m, c in a[1] if len(m) == 1 and 0 < c < k]:
                            d = sub(a, scale(v, k))
                            for f, w in ((sub(d, const(k)), sub(r, v)), (sub(const(-1), d), sub(v, r))):
                                if self.implies_ge(st, f):
                                    self.addfact(st, add(w, const(-1)))
            self.setreg(st, x, r)
            return [st]
        if op == 'cast':
            v = self.operand(st, x.extra['from'], x.a[0])
            r = self.cast(st, x.extra['op'], x.extra['from'], x.ty, v)
            if self.mon is not None:
                self.mon.on_cast(self, st, x, v, r)
            self.setreg(st, x, r)
            return [st]
        if op == 'select':
            c = self.operand(st, ('int', 1), x.a[0])
            if is_poly(c):
                c = c_not(c_eq(c))
            d = self.decide(st, c)
            out = []
            for val, opn in ((True, x.a[1]), (False, x.a[2])):
                if d is not None and d != val:
                    continue
                s = st if d is not None else st.copy()
                if d is None and not self.assume(s, c, val):
                    continue
                self.setreg(s, x, self.operand(s, x.ty, opn))
                out.append(s)
            return out
        if op == 'call':
            return self.call(x, st)
        if op == 'br':
            self.flow(st, x.blk.name, x.a[0])
            return []
        if op == 'cbr':
            c = self.operand(st, ('int', 1), x.a[0])
            if is_poly(c):
                c = c_not(c_eq(c))
            if isinstance(c, tuple) and self.mon is not None:
                c = self.mon.on_branch(self, st, x, c)
            d = self.decide(st, c)
            for val, dst in ((True, x.a[1]), (False, x.a[2])):
                if d is not None and d != val:
                    continue
                if d is not None:
                    s = st
                else:
                    s = st.copy()
                    if not self.assume(s, c, val):
                        continue
                if self.mon is not None and self.mon.on_cond(self, s, x, c, val) is False:
                    continue
                self.flow(s, x.blk.name, dst)
            return []
        if op == 'switch':
            v = self.as_poly(self.operand(st, x.ty, x.a[0]))
            if is_const(v):
                for c, dst in x.a[2]:
                    if c == v[0] or wrap(c, x.ty[1]) == wrap(v[0], x.ty[1]):
                        self.flow(st, x.blk.name, dst)
                        return []
                self.flow(st, x.blk.name, x.a[1])
                return []
            for c, dst in x.a[2]:
                s = st.copy()
                if self.assume(s, c_eq(add(v, const(-c)))):
                    self.flow(s, x.blk.name, dst)
            s = st
            for c, dst in x.a[2]:
                if not self.assume(s, c_eq(add(v, const(-c))), False):
                    return []
            self.flow(s, x.blk.name, x.a[1])
            return []
        if op == 'ret':
            v = self.operand(st, x.ty, x.a[0]) if x.a else None
            if v is not None and not is_poly(v):
                v = self.as_poly(v)
            if self.mon is not None:
                self.mon.on_ret(self, st, x, v)
            self.rets.append((st, x, v))
            return []
        if op == 'unreachable':
            return []
        if op == 'freeze':
            self.setreg(st, x, self.operand(st, x.ty, x.a[0]))
            return [st]
        if op == 'atomicrmw':
            p = self.operand(st, T_PTR, x.a[0])
            size = self.mod.size(x.ty)
            old = self.load(st, p, size, 'p' if x.ty[0] == 'ptr' else 'i', x)
            new = self.operand(st, x.ty, x.a[1])
            tok = ('st', x.fn.name, x.uid)
            if x.extra['op'] != 'xchg':
                new = atom(('op', 'rmw', x.extra['op'], old, self.as_poly(new), 'i'))
            if self.mon is not None:
                self.mon.on_store(self, st, x, p, size, new)
            self.store(st, p, size, self.as_poly(new), tok)
            self.setreg(st, x, old)
            return [st]
        # anything else: an opaque value determined by the site
        if x.res is not None:
            tok = ('unk', ('ins', x.fn.name, x.uid), 'p' if x.ty and x.ty[0] == 'ptr' else 'i')
            self.retire_check(st, tok)
            self.setreg(st, x, atom(tok))
        return [st]

    def callee_name(self, st, x):
        c = x.extra['callee']
        if c[0] == 'glob':
            n = c[1]
            return n[9:] if n.startswith(('__isoc99_', '__isoc23_')) else n
        if c[0] in ('reg', 'ce'):
            v = self.operand(st, T_PTR, c)
            a = as_atom(v) if is_poly(v) else None
            if a is not None and a[0] == 'fnp':
                return a[1]
        return None

    def call(self, x, st):
        name = self.callee_name(st, x)
        if name is not None and name.startswith('llvm.'):
            r = self.models.intrinsic(self, st, x, name)
            if r is not None:
                return r
        args = []
        for t, v in x.a:
            o = self.operand(st, t, v) if v[0] != 'md' else None
            if o is not None and not is_poly(o):
                o = self.as_poly(o)
            args.append(o)
        if self.mon is not None:
            r = self.mon.on_call(self, st, x, name, args)
            if r is not None:
                return r
        res = self.models.call(self, st, x, name, args)
        if self.mon is not None:
            out = []
            for s in res:
                out.extend(self.mon.after_call(self, s, x, name, args))
            return out
        return res

    # helpers for models ---------------------------------------------------
    def ret_atom(self, st, x, *flags):
        tok = ('ret', (x.fn.name, x.uid)) + tuple(flags) + (('p',) if x.ty and x.ty[0] == 'ptr' else ('i',))
        self.retire_check(st, tok)
        return tok

    def where(self, x):
        return self.mod.loc(x)


_fi = {}


def fact_index(f):
    r = _fi.get(f)
    if r is None:
        r = (frozenset([m for m, k in f[1] if k < 0]), frozenset([m for m, k in f[1]]))
        _fi[f] = r
    return r


VOLATILE = {'ret', 'phi', 'stale', 'unk'}
GCKINDS = {'al', 'heap', 'ret', 'phi', 'stale', 'unk'}


T_PTR = ('ptr',)
NONNEG_PURE = {'MPI_Comm_rank', 'big_file_dtype_itemsize'}


def generalize(x, gm, memo):
    """replace every value nested in x that equals a joined value by its phi"""
    if not isinstance(x, tuple):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if is_poly(x):
        g = 0
        if x[1] and (len(x[1]) > 1 or x[0]):
            g = abs(x[0])
            for m, k in x[1]:
                g = gcd(g, k)
        if x in gm:
            r = gm[x]
        elif g > 1 and (x[0] // g, tuple((m, k // g) for m, k in x[1])) in gm:
            r = scale(gm[x[0] // g, tuple((m, k // g) for m, k in x[1])], g)
        else:
            acc = const(x[0])
            for m, k in x[1]:
                t = const(k)
                for a in m:
                    v = gm.get(atom(a))
                    if v is None:
                        v = atom(tuple(generalize(y, gm, memo) for y in a))
                    t = mul(t, v)
                acc = add(acc, t)
            r = acc
    else:
        r = None
        if x and isinstance(x[0], str) and x[0] in T.ATOMK:
            v = gm.get(atom(x))
            if v is not None:
                r = as_atom(v)
        if r is None:
            r = tuple(generalize(y, gm, memo) for y in x)
    memo[x] = r
    return r


def any_in(f, d):
    for m, k in f[1]:
        for a in m:
            if a in d:
                return True
    if d:
        for a in T.atoms_of(f):
            if a in d:
                return True
    return False


def is_cond(c):
    return isinstance(c, tuple) and c and c[0] in ('eq', 'ge', 'not', 'ult', 'and', 'or', 'opaque')


def noalias(d, s1, s2):
    """offset difference d is symbolic: can ranges of s1 and s2 bytes overlap?  (congruence test)"""
    import math
    g = 0
    for m, k in d[1]:
        g = math.gcd(g, abs(k))
    if g <= 1:
        return False
    r = d[0] % g
    # off = o + d ; overlap if -s2 < d' < s1 for some d' = r mod g
    return not (r < s1 or r - g > -s2)


def ptr_distinct(p):
    """p == 0 impossible: difference of two distinct objects, or a non-null object compared with null"""
    pos = [(m, k) for m, k in p[1]]
    OBJ = ('al', 'heap', 'glob', 'fnp')
    if all(len(m) == 1 and m[0][0] in OBJ for m, k in pos):
        if len(pos) == 1 and abs(pos[0][1]) == 1:
            return True
        if len(pos) == 2 and {pos[0][1], pos[1][1]} == {1, -1} and pos[0][0] != pos[1][0]:
            return True
    # the address of a member behind the first is never null
    if len(pos) == 1 and len(pos[0][0]) == 1 and pos[0][1] in (1, -1) and p[0] * pos[0][1] > 0:
        a = pos[0][0][0]
        if a[0] in ('arg', 'ld', 'phi') and a[-1] == 'p':
            return True
    return False


def const_init(mod, ty, init, off, size):
    """the operand stored at a constant offset of a constant initializer"""
    t = mod.resolve(ty)
    if init[0] == 'zero':
        return ('c', 0)
    if init[0] == 'cstr':
        s = init[1]
        if 0 <= off and off + size <= len(s):
            return ('c', int.from_bytes(s[off:off + size], 'little', signed=True))
        return None
    if init[0] == 'agg':
        if t[0] == 'arr':
            es = mod.size(t[2])
            i = off // es
            if 0 <= i < len(init[1]):
                return const_init(mod, t[2], init[1][i][1], off - i * es, size)
            return None
        if t[0] == 'struct':
            for i in range(len(t[1])):
                fo = mod.field_offset(t, i)
                fs = mod.size(t[1][i])
                if fo <= off < fo + fs:
                    return const_init(mod, t[1][i], init[1][i][1], off - fo, size)
        return None
    if off == 0 and mod.size(ty) == size:
        return init
    return None


def rename(v, a, b):
    """replace the token a by b everywhere inside v"""
    memo = {}

    def go(x):
        if x == a:
            return b
        if not isinstance(x, tuple) or not mentions(x, a):
            return x
        r = memo.get(x)
        if r is None:
            if is_poly(x):
                acc = const(x[0])
                for m, k in x[1]:
                    t = const(k)
                    for at in m:
                        t = mul(t, atom(go(at)))
                    acc = add(acc, t)
                r = acc
            else:
                r = tuple(go(y) for y in x)
            memo[x] = r
        return r
    return go(v)


def operand_regs(x):
    out = []

    def val(v):
        if isinstance(v, tuple):
            if v and v[0] == 'reg':
                out.append(v[1])
            elif v and v[0] == 'ce':
                for y in v[1:]:
                    if isinstance(y, tuple):
                        val(y)
                    elif isinstance(y, list):
                        for t, w in y:
                            val(w)
    if x.op in ('call', 'gep'):
        for t, v in x.a:
            val(v)
        if x.op == 'call':
            val(x.extra['callee'])
    elif x.op == 'switch':
        val(x.a[0])
    elif x.op in ('br',):
        pass
    elif x.op == 'cbr':
        val(x.a[0])
    else:
        for v in x.a:
            val(v)
    return out


class Monitor:
    """base typestate monitor: observes, never changes behaviour"""

    def key(self, eng, st):
        return st.mon

    def join(self, eng, A, B):
        return A.mon

    def retire(self, eng, st, token, stale):
        pass

    def ghosts(self, st):
        """name -> value the engine joins like a register"""
        return {}

    def setghosts(self, st, values):
        pass

    def on_edge(self, eng, st, src, dst):
        return True

    def on_load(self, eng, st, ins, p, size, v):
        return None

    def on_store(self, eng, st, ins, p, size, v):
        pass

    def on_bin(self, eng, st, ins, a, b):
        pass

    def on_cast(self, eng, st, ins, v, r):
        pass

    def on_branch(self, eng, st, ins, c):
        return c

    def on_cond(self, eng, st, ins, c, val):
        return True

    def on_call(self, eng, st, ins, name, args):
        return None

    def after_call(self, eng, st, ins, name, args):
        return [st]

    def on_ret(self, eng, st, ins, v):
        pass
