"""A reader for LLVM textual IR (LLVM 18, opaque pointers), enough for C code.

Nothing here executes code: the module is turned into plain Python objects that
the analyses walk."""
import re

TOK = re.compile(r'''
    \s+
  | (?P<str>c?"[^"]*")
  | (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[KHLMR]?[0-9A-Fa-f]+|-?\d+)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
  | (?P<p>[][(){}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            # comment to the end of the line
            break
        m = TOK.match(s, i)
        if not m:
            raise ValueError('token? %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# ---------------------------------------------------------------- types
# ('int',w) ('ptr',) ('void',) ('fp',name) ('arr',n,t) ('struct',(t..),packed) ('named',name) ('fn',ret,(args),va)
# ('vec',n,t) ('meta',) ('label',)
VOID = ('void',)
PTR = ('ptr',)


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ValueError('expected %r at %r' % (v, self.t[self.i:self.i + 8]))

    def end(self):
        return self.i >= len(self.t)

    def type(self):
        t = self._type0()
        while True:
            if self.peek()[1] == '(':
                # function type
                self.next()
                args = []
                va = False
                while not self.accept(')'):
                    if self.accept('...'):
                        va = True
                    else:
                        args.append(self.type())
                    self.accept(',')
                t = ('fn', t, tuple(args), va)
            elif self.peek()[1] == '*':
                self.next()
                t = PTR
            else:
                return t

    def _type0(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
                return PTR
            if v == 'void':
                return VOID
            if re.fullmatch(r'i\d+', v):
                return ('int', int(v[1:]))
            if v in ('float', 'double', 'half', 'x86_fp80', 'fp128', 'bfloat'):
                return ('fp', v)
            if v == 'metadata':
                return ('meta',)
            if v == 'label':
                return ('label',)
            if v in ('opaque', 'token'):
                return (v,)
            raise ValueError('type? %r' % v)
        if k == 'lid':
            return ('named', v[1:].strip('"'))
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if v == '<':
            if self.peek()[1] == '{':
                self.next()
                ts = self._list('}')
                self.expect('>')
                return ('struct', tuple(ts), True)
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if v == '{':
            return ('struct', tuple(self._list('}')), False)
        raise ValueError('type? %r %r' % (v, self.t[self.i:self.i + 5]))

    def _list(self, close):
        ts = []
        while not self.accept(close):
            ts.append(self.type())
            self.accept(',')
        return ts

    # ------------------------------------------------------------ values
    # ('reg',name) ('glob',name) ('c',int) ('cf',text) ('null',) ('undef',) ('zero',)
    # ('cstr',bytes) ('agg',[...]) ('ce',op,...)
    def value(self, ty):
        k, v = self.next()
        if k == 'lid':
            return ('reg', v[1:].strip('"'))
        if k == 'gid':
            return ('glob', v[1:].strip('"'))
        if k == 'num':
            if ty[0] == 'fp':
                return ('cf', v)
            return ('c', int(v))
        if k == 'str' and v.startswith('c'):
            return ('cstr', unescape(v[2:-1]))
        if k == 'meta':
            # metadata operand; skip the rest up to , or )
            depth = 0
            if self.peek()[1] in ('(', '{') or self.peek()[0] == 'str':
                while not self.end():
                    w = self.peek()[1]
                    if w in ('(', '{'):
                        depth += 1
                    elif w in (')', '}'):
                        if depth == 0:
                            break
                        depth -= 1
                    elif w == ',' and depth == 0:
                        break
                    self.next()
            return ('md', v)
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v == 'getelementptr':
                self.accept('inbounds')
                if self.peek()[1] == 'inrange':
                    self.next()
                    while not self.accept(')'):
                        self.next()
                self.expect('(')
                st = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('ce', 'gep', st, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ce', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                t = self.type(); a = self.value(t); self.expect(',')
                t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('ce', 'bin', v, t, a, b)
            if v in ('icmp',):
                pred = self.next()[1]
                self.expect('(')
                t = self.type(); a = self.value(t); self.expect(',')
                t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('ce', 'icmp', pred, t, a, b)
            if v == 'asm':
                while self.peek()[0] == 'word':
                    self.next()
                s = self.next()
                self.expect(',')
                s2 = self.next()
                return ('asm', s[1], s2[1])
            raise ValueError('value? %r' % v)
        if v == '[':
            xs = []
            while not self.accept(']'):
                t = self.type()
                xs.append((t, self.value(t)))
                self.accept(',')
            return ('agg', xs)
        if v == '{':
            xs = []
            while not self.accept('}'):
                t = self.type()
                xs.append((t, self.value(t)))
                self.accept(',')
            return ('agg', xs)
        if v == '<':
            if self.peek()[1] == '{':
                self.next()
                xs = []
                while not self.accept('}'):
                    t = self.type()
                    xs.append((t, self.value(t)))
                    self.accept(',')
                self.expect('>')
                return ('agg', xs)
            xs = []
            while not self.accept('>'):
                t = self.type()
                xs.append((t, self.value(t)))
                self.accept(',')
            return ('agg', xs)
        raise ValueError('value? %r %r' % (v, self.t[self.i:self.i + 5]))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
               'inreg', 'noalias', 'returned', 'immarg', 'nofree', 'allocptr', 'allocalign', 'swiftself', 'nest',
               'writable', 'dead_on_unwind', 'noext'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype',
                   'preallocated', 'inalloca', 'allockind', 'allocsize', 'memory', 'range', 'initializes', 'nofpclass'}


def skip_attrs(p):
    while True:
        k, v = p.peek()
        if k == 'word' and v in PARAM_ATTRS:
            p.next()
        elif k == 'word' and v in PARAM_ATTRS_ARG:
            p.next()
            if p.accept('('):
                d = 1
                while d:
                    w = p.next()[1]
                    if w == '(':
                        d += 1
                    elif w == ')':
                        d -= 1
            elif p.peek()[0] == 'num':
                p.next()
        elif k == 'attr':
            p.next()
        else:
            return


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'blk', 'idx', 'extra', 'uid', 'fn')

    def __init__(self, op, res=None, ty=None, a=(), extra=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.extra = extra
        self.dbg = None
        self.blk = None
        self.idx = 0
        self.uid = 0
        self.fn = None

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.a, self.extra)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'fn', 'order')

    def __init__(self, name, fn):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []
        self.fn = fn


class Func:
    def __init__(self, name):
        self.name = name
        self.args = []      # (type, name)
        self.ret = None
        self.va = False
        self.blocks = {}
        self.order = []
        self.dbg = None
        self.linkage = ''
        self.mod = None
        self.decl = True

    @property
    def entry(self):
        return self.blocks[self.order[0]]

    def insns(self):
        for b in self.order:
            for x in self.blocks[b].ins:
                yield x


CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'disjoint', 'nneg'}


class Module:
    def __init__(self):
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.types = {}
        self.meta = {}
        self._layout = {}

    # ------------------------------------------------------------- layout
    def resolve(self, t):
        while t[0] == 'named':
            n = t[1]
            if n not in self.types:
                raise KeyError('opaque type ' + n)
            t = self.types[n]
        return t

    def size_align(self, t):
        if t in self._layout:
            return self._layout[t]
        k = t[0]
        if k == 'int':
            w = t[1]
            b = 1
            while b * 8 < w:
                b *= 2
            r = (b, min(b, 16))
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'fp':
            r = {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}.get(t[1], (8, 8))
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'named':
            if t[1] not in self.types or self.types[t[1]][0] == 'opaque':
                r = (0, 1)
            else:
                r = self.size_align(self.types[t[1]])
        elif k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k == 'fn':
            r = (1, 1)
        else:
            r = (0, 1)
        self._layout[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, i):
        t = self.resolve(t)
        assert t[0] == 'struct', t
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise IndexError

    # ------------------------------------------------------------- debug info
    def md(self, ref):
        return self.meta.get(ref.lstrip('!'))

    def loc(self, ins):
        """(file, line) of an instruction, with the inlining chain: [(file,line,func)...] innermost first"""
        return self.loc_of(ins.dbg)

    def loc_of(self, ref):
        out = []
        while ref:
            m = self.meta.get(ref.lstrip('!'))
            if not m:
                break
            line = md_field(m, 'line')
            scope = md_field(m, 'scope')
            f, fn = self.scope_file(scope)
            out.append((f, int(line or 0), fn))
            ref = md_field(m, 'inlinedAt')
        return out

    def scope_file(self, ref):
        f = None
        fn = None
        while ref:
            m = self.meta.get(ref.lstrip('!'))
            if not m:
                break
            if f is None:
                fr = md_field(m, 'file')
                if fr:
                    fm = self.meta.get(fr.lstrip('!'))
                    if fm:
                        f = md_str(fm, 'filename')
            if 'DISubprogram' in m:
                fn = md_str(m, 'name')
                break
            ref = md_field(m, 'scope')
        return f, fn

    # struct field names through debug info: name -> [(fieldname, offset_bytes, size_bytes)]
    def struct_fields(self, name):
        if not hasattr(self, '_sf'):
            self._sf = {}
            typedef = {}
            for k, m in self.meta.items():
                if 'DICompositeType(' in m and 'DW_TAG_structure_type' in m:
                    n = md_str(m, 'name')
                    if n and md_field(m, 'elements'):
                        self._sf.setdefault(n, m)
                elif 'DW_TAG_typedef' in m:
                    n = md_str(m, 'name')
                    b = md_field(m, 'baseType')
                    if n and b:
                        typedef[n] = b
            for n, b in typedef.items():
                m = self.meta.get(b.lstrip('!'))
                if m and 'DW_TAG_structure_type' in m and md_field(m, 'elements'):
                    self._sf.setdefault(n, m)
        m = self._sf.get(name)
        if not m:
            return None
        els = self.meta.get(md_field(m, 'elements').lstrip('!'))
        out = []
        for r in re.findall(r'!\d+', els):
            e = self.meta.get(r[1:])
            fn = md_str(e, 'name')
            off = int(md_field(e, 'offset') or 0) // 8
            sz = int(md_field(e, 'size') or 0) // 8
            out.append((fn, off, sz))
        return out


    def di_type(self, ref):
        """a debug-info type: ('ptr', T) ('struct', name) ('arr', T) ('base', size) or None"""
        if not hasattr(self, '_dt'):
            self._dt = {}
        if not ref or ref == 'null':
            return None
        if ref in self._dt:
            return self._dt[ref]
        self._dt[ref] = None
        m = self.meta.get(ref.lstrip('!'))
        r = None
        if m:
            if 'DIBasicType' in m:
                r = ('base', int(md_field(m, 'size') or 0) // 8)
            elif 'DW_TAG_pointer_type' in m:
                r = ('ptr', PtrTo(self, md_field(m, 'baseType')))
            elif 'DW_TAG_structure_type' in m or 'DW_TAG_union_type' in m:
                n = md_str(m, 'name')
                r = ('struct', n or self._anon(ref))
            elif 'DW_TAG_array_type' in m:
                r = ('arr', self.di_type(md_field(m, 'baseType')))
            elif 'DW_TAG_enumeration_type' in m:
                r = ('base', 4)
            elif 'DIDerivedType' in m:
                r = self.di_type(md_field(m, 'baseType'))
        self._dt[ref] = r
        return r

    def _anon(self, ref):
        for k, m in self.meta.items():
            if 'DW_TAG_typedef' in m and md_field(m, 'baseType') == ref:
                return md_str(m, 'name')
        return None

    def arg_types(self, fn):
        """debug-info types of the arguments of a function"""
        if not fn.dbg:
            return []
        m = self.meta.get(fn.dbg.lstrip('!'))
        t = self.meta.get((md_field(m, 'type') or '!').lstrip('!'))
        if not t:
            return []
        els = self.meta.get(md_field(t, 'types').lstrip('!'), '')
        refs = re.findall(r'!\d+|null', els[els.index('{'):]) if '{' in els else re.findall(r'!\d+|null', els)
        return [self.di_type(r) for r in refs[1:]]

    def ret_type(self, fn):
        """debug-info type of the result (None: void or not known)"""
        m = self.meta.get(fn.dbg.lstrip('!')) if fn.dbg else None
        t = m and self.meta.get((md_field(m, 'type') or '!').lstrip('!'))
        if not t:
            return None
        els = self.meta.get(md_field(t, 'types').lstrip('!'), '')
        refs = re.findall(r'!\d+|null', els[els.index('{'):]) if '{' in els else re.findall(r'!\d+|null', els)
        return self.di_type(refs[0]) if refs and refs[0] != 'null' else None

    def field_types(self, name):
        """[(field, offset, size, type)]"""
        if not hasattr(self, '_ft'):
            self._ft = {}
        if name in self._ft:
            return self._ft[name]
        self.struct_fields(name)
        m = self._sf.get(name)
        out = []
        if m:
            els = self.meta.get(md_field(m, 'elements').lstrip('!'))
            for r in re.findall(r'!\d+', els):
                e = self.meta.get(r[1:])
                out.append((md_str(e, 'name'), int(md_field(e, 'offset') or 0) // 8, int(md_field(e, 'size') or 0) // 8,
                            self.di_type(md_field(e, 'baseType'))))
        self._ft[name] = out
        return out


class PtrTo:
    """a lazily resolved pointee (struct types may be recursive)"""

    def __init__(self, mod, ref):
        self.mod = mod
        self.ref = ref

    def get(self):
        return self.mod.di_type(self.ref)


def md_field(m, k):
    r = re.search(r'[(,]\s*%s:\s*("[^"]*"|[^,()]+)' % k, m)
    return r.group(1).strip() if r else None


def md_str(m, k):
    v = md_field(m, k)
    return v.strip('"') if v else None


LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external'}
PREFIX = LINKAGE | {'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'unnamed_addr',
                    'local_unnamed_addr', 'thread_local', 'constant', 'global', 'externally_initialized'}


def join_lines(text):
    """join continuation lines of switch / landingpad"""
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('  switch ') and ln.rstrip().endswith('['):
            buf = [ln.rstrip()]
            i += 1
            while not lines[i].strip().startswith(']'):
                buf.append(lines[i].strip())
                i += 1
            buf.append(lines[i].strip())
            yield ' '.join(buf)
        else:
            yield ln
        i += 1


def parse(text, only=None):
    """parse a module; only: optional predicate(name) selecting function bodies to parse"""
    mod = Module()
    fn = None
    blk = None
    skip = False
    for ln in join_lines(text):
        if fn is not None or skip:
            if ln.startswith('}'):
                fn = None
                skip = False
                continue
            if skip:
                continue
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if ln[0] not in ' \t':
                # label
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                blk = Block(m.group(1).strip('"'), fn)
                fn.blocks[blk.name] = blk
                fn.order.append(blk.name)
                continue
            if blk is None:
                # unnamed entry block: its number is the count of unnamed args
                blk = Block('%entry', fn)
                fn.blocks[blk.name] = blk
                fn.order.append(blk.name)
            if s.startswith('call void @llvm.dbg.') or s.startswith('tail call void @llvm.dbg.') \
                    or '@llvm.lifetime.' in s or s.startswith('#dbg'):
                continue
            ins = parse_ins(s, mod)
            if ins is None:
                continue
            ins.blk = blk
            ins.fn = fn
            ins.idx = len(blk.ins)
            blk.ins.append(ins)
            continue
        if not ln:
            continue
        c = ln[0]
        if c == '!':
            m = re.match(r'!(\S+) = (?:distinct )?(.*)$', ln)
            if m:
                mod.meta[m.group(1)] = m.group(2)
            continue
        if c == '%':
            m = re.match(r'%("[^"]*"|\S+) = type (.*)$', ln)
            if m:
                n = m.group(1).strip('"')
                if m.group(2).startswith('opaque'):
                    mod.types[n] = ('opaque',)
                else:
                    mod.types[n] = P(tokenize(m.group(2)), mod).type()
            continue
        if c == '@':
            parse_global(ln, mod)
            continue
        if ln.startswith('define') or ln.startswith('declare'):
            f = parse_header(ln, mod)
            if ln.startswith('define'):
                f.decl = False
                f.mod = mod
                if only is not None and not only(f.name):
                    skip = True
                    mod.decls[f.name] = f
                    continue
                mod.funcs[f.name] = f
                fn = f
                blk = None
            else:
                mod.decls[f.name] = f
            continue
    for f in mod.funcs.values():
        finish(f)
    return mod


def parse_global(ln, mod):
    m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
    if not m:
        return
    name = m.group(1).strip('"')
    try:
        p = P(tokenize(m.group(2)), mod)
        const = False
        ext = False
        internal = False
        while p.peek()[0] == 'word' and p.peek()[1] in PREFIX:
            w = p.next()[1]
            if w == 'constant':
                const = True
                break
            if w == 'global':
                break
            if w in ('external', 'extern_weak'):
                ext = True
            if w in ('private', 'internal'):
                internal = True
            if w == 'thread_local' and p.peek()[1] == '(':
                while not p.accept(')'):
                    p.next()
        t = p.type()
        init = None
        if not ext and not p.end() and p.peek()[1] != ',':
            init = p.value(t)
        mod.globals[name] = dict(type=t, init=init, const=const, ext=ext, internal=internal, text=ln)
    except (ValueError, IndexError):
        mod.globals[name] = dict(type=None, init=None, const=False, ext=True, internal=False, text=ln)


def parse_header(ln, mod):
    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
    name = m.group(1).strip('"')
    f = Func(name)
    pre = tokenize(ln[:m.start()])
    p = P(pre, mod)
    p.next()
    while p.peek()[0] == 'meta':
        p.next()
    while p.peek()[0] == 'word' and (p.peek()[1] in PREFIX or p.peek()[1] in ('fastcc', 'ccc', 'coldcc')):
        f.linkage += ' ' + p.next()[1]
    skip_attrs(p)
    f.ret = p.type()
    # find closing paren
    d = 0
    j = m.end() - 1
    while True:
        if ln[j] == '(':
            d += 1
        elif ln[j] == ')':
            d -= 1
            if d == 0:
                break
        j += 1
    p = P(tokenize(ln[m.end():j]), mod)
    k = 0
    while not p.end():
        if p.accept('...'):
            f.va = True
            break
        t = p.type()
        skip_attrs(p)
        nm = None
        if p.peek()[0] == 'lid':
            nm = p.next()[1][1:].strip('"')
        else:
            nm = str(k)
        f.args.append((t, nm))
        k += 1
        p.accept(',')
    r = re.search(r'!dbg (!\d+)', ln[j:])
    if r:
        f.dbg = r.group(1)
    return f


def parse_ins(s, mod):
    toks = tokenize(s)
    p = P(toks, mod)
    res = None
    if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
        res = p.next()[1][1:].strip('"')
        p.next()
    # debug location
    dbg = None
    for i in range(len(toks) - 1):
        if toks[i] == ('meta', '!dbg'):
            dbg = toks[i + 1][1]
            break
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    ins = None
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = ('c', 1)
        while p.accept(','):
            if p.peek()[1] in ('align', 'addrspace') or p.peek()[0] == 'meta':
                break
            nt = p.type()
            n = p.value(nt)
        ins = Ins('alloca', res, t, (n,))
    elif op == 'load':
        atomic = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        p.expect(',')
        pt = p.type()
        ins = Ins('load', res, t, (p.value(pt),), {'atomic': atomic, 'volatile': vol})
    elif op == 'store':
        atomic = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        ins = Ins('store', None, t, (v, p.value(pt)), {'atomic': atomic, 'volatile': vol})
    elif op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        st = p.type()
        p.expect(',')
        ops = []
        while True:
            t = p.type()
            ops.append((t, p.value(t)))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        ins = Ins('gep', res, st, tuple(ops))
    elif op in ('call', 'invoke'):
        while p.peek()[0] == 'word' and (p.peek()[1] in FMF or p.peek()[1] in ('fastcc', 'ccc', 'coldcc')):
            p.next()
        skip_attrs(p)
        t = p.type()
        fty = None
        if t[0] == 'fn':
            fty = t
            t = t[1]
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            skip_attrs(p)
            args.append((at, p.value(at)))
            p.accept(',')
        ins = Ins('call', res, t, tuple(args), {'callee': callee, 'fty': fty})
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            ins = Ins('br', None, None, (p.next()[1][1:].strip('"'),))
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.next()
            a = p.next()[1][1:].strip('"')
            p.expect(',')
            p.next()
            b = p.next()[1][1:].strip('"')
            ins = Ins('cbr', None, None, (c, a, b))
    elif op == 'switch':
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.next()
        d = p.next()[1][1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.next()
            cases.append((cv[1], p.next()[1][1:].strip('"')))
        ins = Ins('switch', None, t, (c, d, tuple(cases)))
    elif op == 'ret':
        t = p.type()
        ins = Ins('ret', None, t, () if t == VOID else (p.value(t),))
    elif op == 'unreachable':
        ins = Ins('unreachable')
    elif op == 'phi':
        while p.peek()[1] in FMF:
            p.next()
        t = p.type()
        inc = []
        while p.accept('['):
            v = p.value(t)
            p.expect(',')
            b = p.next()[1][1:].strip('"')
            p.expect(']')
            inc.append((v, b))
            p.accept(',')
        ins = Ins('phi', res, t, tuple(inc))
    elif op == 'select':
        while p.peek()[1] in FMF:
            p.next()
        t0 = p.type(); c = p.value(t0); p.expect(',')
        t = p.type(); a = p.value(t); p.expect(',')
        t2 = p.type(); b = p.value(t2)
        ins = Ins('select', res, t, (c, a, b))
    elif op in ('icmp', 'fcmp'):
        while p.peek()[1] in FMF:
            p.next()
        pred = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        ins = Ins(op, res, t, (a, b), {'pred': pred})
    elif op in BINOPS:
        fl = set()
        while p.peek()[1] in FMF:
            fl.add(p.next()[1])
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        ins = Ins('bin', res, t, (a, b), {'op': op, 'flags': fl})
    elif op in CASTS:
        while p.peek()[1] in FMF:
            p.next()
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        ins = Ins('cast', res, t2, (a,), {'op': op, 'from': t})
    elif op in ('fneg', 'freeze'):
        while p.peek()[1] in FMF:
            p.next()
        t = p.type(); a = p.value(t)
        ins = Ins(op, res, t, (a,))
    elif op == 'extractvalue':
        t = p.type(); a = p.value(t)
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        ins = Ins('extractvalue', res, t, (a,), {'idx': idx})
    elif op == 'insertvalue':
        t = p.type(); a = p.value(t); p.expect(',')
        t2 = p.type(); b = p.value(t2)
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        ins = Ins('insertvalue', res, t, (a, b), {'idx': idx})
    elif op == 'atomicrmw':
        p.accept('volatile')
        o = p.next()[1]
        pt = p.type(); a = p.value(pt); p.expect(',')
        t = p.type(); v = p.value(t)
        ins = Ins('atomicrmw', res, t, (a, v), {'op': o})
    elif op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        pt = p.type(); a = p.value(pt); p.expect(',')
        t = p.type(); c = p.value(t); p.expect(','); t2 = p.type(); n = p.value(t2)
        ins = Ins('cmpxchg', res, ('struct', (t, ('int', 1)), False), (a, c, n))
    elif op == 'fence':
        return None
    elif op == 'va_arg':
        ins = Ins('va_arg', res, None, ())
    elif op in ('extractelement', 'insertelement', 'shufflevector'):
        ins = Ins('vecop', res, None, ())
    else:
        raise ValueError('instruction? ' + s[:120])
    ins.dbg = dbg
    return ins


def finish(f):
    n = 0
    # name of an unnamed entry block as used by phi: number of unnamed args
    for b in f.order:
        blk = f.blocks[b]
        t = blk.ins[-1]
        if t.op == 'br':
            blk.succ = [t.a[0]]
        elif t.op == 'cbr':
            blk.succ = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            blk.succ = [t.a[1]] + [c[1] for c in t.a[2]]
        for x in blk.ins:
            x.uid = n
            n += 1
    # unnamed entry fix
    if f.order[0] == '%entry':
        used = set()
        for b in f.order:
            for x in f.blocks[b].ins:
                if x.op == 'phi':
                    for v, bb in x.a:
                        if bb not in f.blocks:
                            used.add(bb)
        alias = used.pop() if used else None
        if alias is not None:
            for b in f.order:
                for x in f.blocks[b].ins:
                    if x.op == 'phi':
                        x.a = tuple((v, '%entry' if bb == alias else bb) for v, bb in x.a)
    for b in f.order:
        seen = set()
        for s in f.blocks[b].succ:
            if s not in seen:
                seen.add(s)
                f.blocks[s].pred.append(b)
