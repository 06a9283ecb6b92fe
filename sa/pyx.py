"""Syntax trees of the Python/Cython sources (by Cython's own parser) and an abstract interpreter of their functions on all paths."""
import json
import os
import subprocess
from . import build

PYTHON = '/opt/bigfile-venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


class PyxError(Exception):
    pass


def parse(files):
    r = subprocess.run([PYTHON, os.path.join(HERE, 'cyast.py')] + list(files), capture_output=True, text=True)
    if r.returncode:
        raise PyxError('cannot parse: ' + r.stderr[-400:])
    return [json.loads(x) for x in r.stdout.splitlines()]


def stats(n):
    """a body as a flat list of statements"""
    if n is None:
        return []
    if isinstance(n, list):
        return [s for x in n for s in stats(x)]
    if n['_'] == 'StatListNode':
        return stats(n['stats'])
    return [n]


def declname(d):
    while d['_'] != 'CNameDeclaratorNode':
        d = d['base']
    return d['name']


def ispointer(d):
    return d['_'] in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode')


class Fun:
    def __init__(self, node, cls, mod, name):
        self.node, self.cls, self.mod, self.name = node, cls, mod, name
        self.body = stats(node['body'])
        self.params = []
        self.defaults = {}
        self.types = {}
        args = node['args'] if node['_'] == 'DefNode' else funcdecl(node['declarator'])['args']
        for a in args or []:
            d = a['declarator']
            n = declname(d)
            bt = a.get('base_type')
            if n == '' and bt and bt.get('name'):
                n = bt['name']
            elif bt and bt.get('name'):
                self.types[n] = bt['name']
            self.params.append(n)
            if a.get('default') is not None:
                self.defaults[n] = a['default']
        self.star = [x['name'] for x in (node.get('star_arg'), node.get('starstar_arg')) if x]
        self.line = node['line']
        self.decorators = [d['decorator'] for d in node.get('decorators') or []]

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name


def funcdecl(d):
    while d['_'] != 'CFuncDeclaratorNode':
        d = d['base']
    return d


class Cls:
    def __init__(self, name, bases, mod):
        self.name, self.bases, self.mod = name, bases, mod
        self.funs = {}
        self.props = {}
        self.attrs = set()
        self.dealloc = None


class Module:
    def __init__(self, tree, path):
        self.path = path
        self.name = os.path.basename(path).split('.')[0]
        self.funs = {}
        self.classes = {}
        self.externs = {}
        self.globals = set()
        self.tree = tree
        self.others = []
        self.collect(stats(tree['body']), None)

    def collect(self, body, cls):
        for s in body:
            k = s['_']
            if k == 'DefNode' or k == 'CFuncDefNode':
                name = s['name'] if k == 'DefNode' else declname(s['declarator'])
                f = Fun(s, cls, self, name)
                if cls:
                    if any(d['_'] == 'NameNode' and d['name'] == 'property' for d in f.decorators):
                        cls.props[name] = f
                    cls.funs[name] = f
                else:
                    self.funs[name] = f
                    self.globals.add(name)
            elif k == 'PropertyNode':
                sub = Cls(cls.name + '.' + s['name'], [], self)
                self.collect(stats(s['body']), sub)
                for n, f in sub.funs.items():
                    f.cls = cls
                    f.name = s['name'] + '.' + n
                    cls.funs[f.name] = f
                    if n == '__get__':
                        cls.props[s['name']] = f
            elif k == 'CClassDefNode':
                b = s.get('bases')
                bases = [x.get('name') or x.get('attribute') for x in (b or {}).get('args', [])] if isinstance(b, dict) else []
                c = Cls(s['class_name'], bases, self)
                self.classes[c.name] = c
                self.globals.add(c.name)
                self.collect(stats(s['body']), c)
            elif k == 'PyClassDefNode':
                bases = []
                if s['bases']:
                    bases = [x.get('name') or x.get('attribute') for x in s['bases']['args']]
                c = Cls(s['name'], bases, self)
                self.classes[c.name] = c
                self.globals.add(c.name)
                self.collect(stats(s['body']), c)
            elif k == 'CDefExternNode':
                for x in stats(s['body']):
                    if x['_'] == 'CVarDefNode':
                        for d in x['declarators']:
                            n = declname(d)
                            self.externs[n] = (x['base_type'].get('name'), ispointer(d))
                            self.globals.add(n)
                    elif x['_'] == 'CStructOrUnionDefNode':
                        self.globals.add(x['name'])
            elif k == 'CVarDefNode' and cls:
                for d in s['declarators']:
                    cls.attrs.add(declname(d))
            elif k in ('IfStatNode',):
                for c in s['if_clauses']:
                    self.collect(stats(c['body']), cls)
                self.collect(stats(s['else_clause']), cls)
            elif k == 'TryExceptStatNode':
                self.collect(stats(s['body']), cls)
                for c in s['except_clauses']:
                    self.collect(stats(c['body']), cls)
            else:
                for n in bound(s):
                    if cls is None:
                        self.globals.add(n)

    def functions(self):
        r = list(self.funs.values())
        for c in self.classes.values():
            r += list(c.funs.values())
        return r

    def find(self, cls, name):
        """the method of the class or of its bases"""
        return lookup(cls, name, 'funs')

    def prop(self, cls, name):
        return lookup(cls, name, 'props')


def supers(cls):
    """known base classes, in the module or in one of the others"""
    r = []
    for b in cls.bases:
        c = cls.mod.classes.get(b)
        if c is None or c is cls:
            c = next((m.classes[b] for m in cls.mod.others if b in m.classes), None)
        if c is not None:
            r.append(c)
    return r


def lookup(cls, name, what):
    seen, work = [], [cls]
    while work:
        c = work.pop(0)
        if c in seen:
            continue
        seen.append(c)
        t = getattr(c, what)
        if name in t:
            return t[name]
        work += supers(c)
    return None


def targets(n):
    k = n['_']
    if k == 'NameNode':
        return [n['name']]
    if k in ('TupleNode', 'ListNode'):
        return [x for a in n['args'] for x in targets(a)]
    if k == 'StarredUnpackingNode':
        return targets(n['target'])
    return []


def bound(s):
    """names a statement binds in its scope (not in nested functions)"""
    r = []
    k = s['_']
    if k in ('DefNode',):
        return [s['name']]
    if k == 'CFuncDefNode':
        return [declname(s['declarator'])]
    if k in ('PyClassDefNode',):
        return [s['name']]
    if k in ('LambdaNode', 'ComprehensionNode', 'GeneratorExpressionNode'):
        return []
    if k == 'SingleAssignmentNode':
        r += targets(s['lhs'])
    elif k == 'CascadedAssignmentNode':
        for l in s['lhs_list']:
            r += targets(l)
    elif k in ('InPlaceAssignmentNode', 'ForInStatNode'):
        r += targets(s.get('target') or s.get('lhs'))
    elif k == 'CVarDefNode':
        r += [declname(d) for d in s['declarators']]
    elif k == 'CImportStatNode':
        r.append(s.get('as_name') or s['module_name'].split('.')[0])
    elif k in ('FromCImportStatNode', 'FromImportStatNode'):
        r += [x for x in s.get('names', [])]
    elif k == 'WithStatNode' and s.get('target'):
        r += targets(s['target'])
    elif k == 'ExceptClauseNode' and s.get('target'):
        r += targets(s['target'])
    elif k == 'GlobalNode':
        return []
    for v in s.values():
        if isinstance(v, dict) and '_' in v:
            r += bound(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and '_' in x:
                    r += bound(x)
    return r


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


class St:
    __slots__ = ('env', 'facts', 'heap', 'mon', 'path')

    def __init__(self, env=None, facts=None, heap=None, mon=None, path=()):
        self.env = env or {}
        self.facts = facts or {}
        self.heap = heap or {}
        self.mon = mon
        self.path = path

    def copy(self):
        return St(dict(self.env), dict(self.facts), dict(self.heap), self.mon, self.path)


NONE = ('c', None)
TRUE, FALSE = ('c', True), ('c', False)
PURE = {'len', 'isinstance', 'str', 'repr', 'int', 'sorted', 'range', 'enumerate', 'any', 'all', 'type', 'sum', 'min', 'max', 'set', 'iter', 'bool', 'list', 'tuple', 'getattr', 'super'}


class Interp:
    """Executes a function on all paths.  The monitor may define on_call(interp, st, name, args, kwargs, node) -> None or list of
    (state, value); on_store(interp, st, obj, attr, value, node)."""
    LIMIT = 4000

    def __init__(self, mods, mon, inline=6):
        self.mods = mods
        self.mon = mon
        self.depth = 0
        self.inline = inline
        self.steps = 0
        self.frames = []
        self.stack = []
        self.calls = 0

    # ---- entry
    def run(self, fun, st=None, selfcls=None):
        st = st or St(mon=self.mon.initial() if hasattr(self.mon, 'initial') else None)
        self.steps = 0
        self.selfcls = selfcls or fun.cls
        env = {}
        for i, p in enumerate(fun.params):
            env[p] = ('self',) if i == 0 and fun.cls and not self.static(fun) else ('par', p)
        for p in fun.star:
            env[p] = ('par', p)
        st.env = env
        return self.body(fun, st)

    def static(self, fun):
        return any(d['_'] == 'NameNode' and d['name'] in ('staticmethod', 'classmethod') for d in fun.decorators)

    def body(self, fun, st):
        self.stack.append(fun)
        try:
            out = []
            for k, s, v in self.block(fun.body, [st]):
                if k in ('next', 'break', 'continue'):
                    out.append(('return', s, NONE))
                else:
                    out.append((k, s, v))
            return out
        finally:
            self.stack.pop()

    # ---- statements
    def block(self, body, sts):
        """list of (kind, state, value)"""
        done = []
        cur = list(sts)
        for s in body:
            nxt = []
            for st in cur:
                for k, t, v in self.stmt(s, st):
                    if k == 'next':
                        nxt.append(t)
                    else:
                        done.append((k, t, v))
            cur = self.merge(nxt)
            if not cur:
                break
        return done + [('next', t, None) for t in cur]

    def merge(self, sts):
        seen = {}
        for t in sts:
            k = (tuple(sorted(t.env.items(), key=str)), tuple(sorted(t.facts.items(), key=str)), tuple(sorted(t.heap.items(), key=str)), t.mon)
            k = repr(k)
            if k not in seen:
                seen[k] = t
        return list(seen.values())

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.LIMIT * 10:
            raise PyxError('too many paths in %s' % self.stack[0].qual)
        self.frames.append([])
        try:
            r = self.stmt_(s, st.copy())
            raised = self.frames[-1]
        finally:
            self.frames.pop()
        return r + [('raise', t, v) for t, v in raised]

    def raising(self, st, v=('exc',)):
        self.frames[-1].append((st, v))

    def stmt_(self, s, st):
        k = s['_']
        if k in ('PassStatNode', 'CImportStatNode', 'FromCImportStatNode', 'GlobalNode', 'CClassDefNode', 'PyClassDefNode', 'GILExitNode'):
            return [('next', st, None)]
        if k == 'StatListNode':
            return self.block(stats(s), [st])
        if k in ('DefNode', 'CFuncDefNode'):
            n = s['name'] if k == 'DefNode' else declname(s['declarator'])
            st.env[n] = ('def', n)
            return [('next', st, None)]
        if k in ('FromImportStatNode', 'ImportNode'):
            for n in bound(s):
                st.env[n] = ('glob', n)
            return [('next', st, None)]
        if k == 'CVarDefNode':
            cur = [st]
            for d in s['declarators']:
                n = declname(d)
                dflt = d
                while dflt['_'] != 'CNameDeclaratorNode':
                    dflt = dflt['base']
                nxt = []
                for t in cur:
                    if dflt.get('default') is not None:
                        for u, v in self.ev(dflt['default'], t):
                            u.env[n] = v
                            nxt.append(u)
                    else:
                        t.env.setdefault(n, ('var', n))
                        nxt.append(t)
                cur = nxt
            return [('next', t, None) for t in cur]
        if k in ('ComprehensionAppendNode', 'YieldExprNode'):
            return [('next', t, None) for t, v in self.ev(e_(s), st)]
        if k == 'ExprStatNode':
            return [('next', t, None) for t, v in self.ev(s['expr'], st)]
        if k == 'SingleAssignmentNode':
            r = []
            for t, v in self.ev(s['rhs'], st):
                r += [('next', u, None) for u in self.assign(s['lhs'], v, t, s)]
            return r
        if k == 'CascadedAssignmentNode':
            r = []
            for t, v in self.ev(s['rhs'], st):
                cur = [t]
                for l in s['lhs_list']:
                    cur = [u for c in cur for u in self.assign(l, v, c, s)]
                r += [('next', u, None) for u in cur]
            return r
        if k == 'InPlaceAssignmentNode':
            r = []
            for t, a in self.ev(s['lhs'], st):
                for u, b in self.ev(s['rhs'], t):
                    r += [('next', w, None) for w in self.assign(s['lhs'], ('bin', s['operator'], a, b), u, s)]
            return r
        if k == 'ReturnStatNode':
            if s['value'] is None:
                return [('return', st, NONE)]
            return [('return', t, v) for t, v in self.ev(s['value'], st)]
        if k == 'RaiseStatNode':
            if s['exc_type'] is None:
                return [('raise', st, ('exc',))]
            return [('raise', t, v) for t, v in self.ev(s['exc_type'], st)]
        if k == 'ReraiseStatNode':
            return [('raise', st, ('exc',))]
        if k == 'AssertStatNode':
            r = []
            for t, b in self.cond(s['cond'], st):
                r.append(('next', t, None) if b else ('raise', t, ('exc',)))
            return r
        if k == 'IfStatNode':
            cur, r = [st], []
            for c in s['if_clauses']:
                nxt = []
                for t in cur:
                    for u, b in self.cond(c['condition'], t):
                        if b:
                            r += self.block(stats(c['body']), [u])
                        else:
                            nxt.append(u)
                cur = nxt
            r += self.block(stats(s['else_clause']), cur)
            return r
        if k in ('ForInStatNode', 'WhileStatNode'):
            return self.loop(s, st)
        if k == 'BreakStatNode':
            return [('break', st, None)]
        if k == 'ContinueStatNode':
            return [('continue', st, None)]
        if k == 'GILStatNode':
            return self.block(stats(s['body']), [st])
        if k == 'WithStatNode':
            return self.with_(s, st)
        if k == 'TryFinallyStatNode':
            r = []
            for kind, t, v in self.tried(s['body'], st):
                for k2, u, v2 in self.block(stats(s['finally_clause']), [t]):
                    r.append((kind, u, v) if k2 == 'next' else (k2, u, v2))
            return r
        if k == 'TryExceptStatNode':
            r, exc = [], []
            for kind, t, v in self.tried(s['body'], st):
                if kind == 'raise':
                    exc.append((t, v))
                elif kind == 'next':
                    r += self.block(stats(s['else_clause']), [t])
                else:
                    r.append((kind, t, v))
            for t, v in exc:
                caught = False
                for c in s['except_clauses']:
                    if c.get('target'):
                        t = t.copy()
                        for n in targets(c['target']):
                            t.env[n] = ('exc',)
                    if self.catches(c, v):
                        caught = self.catches(c, v) == 'surely'
                        t2 = t
                        if hasattr(self.mon, 'on_catch'):
                            t2 = self.mon.on_catch(self, t.copy(), c)
                        r += self.block(stats(c['body']), [t2])
                        if caught:
                            break
                if not caught:
                    r.append(('raise', t, v))
            return r
        if k == 'DelStatNode':
            cur = [st]
            for a in s['args']:
                cur = [t for c in cur for t, v in self.ev(a, c)]
            return [('next', t, None) for t in cur]
        raise PyxError('statement %s at line %d' % (k, s['line']))

    def tried(self, body, st):
        return self.block(stats(body), [st])

    BROAD = {'Exception', 'BaseException', 'Error', 'BigFileError', 'RuntimeError'}

    def catches(self, c, v):
        p = c.get('pattern')
        if not p:
            return 'surely'
        names = [x.get('name') or x.get('attribute') for x in p]
        if any(n in ('Exception', 'BaseException') for n in names):
            return 'surely'
        if any(n in self.BROAD for n in names):
            return 'maybe'
        return None

    def loop(self, s, st):
        r = []
        if s['_'] == 'ForInStatNode':
            sts = self.ev(s['iterator']['sequence'], st)
            cur = []
            for t, v in sts:
                t.env[('it', s['line'])] = v
                cur.append(t)
        else:
            cur = [st]
        out = []
        for it in range(3):
            enter = []
            for t in cur:
                if s['_'] == 'ForInStatNode':
                    if getattr(self.mon, 'turns', False):
                        u = t.copy()
                        k2 = ('turn', t.env.get(('it', s['line'])), s['line'], it)
                        t.facts[k2] = False
                        u.facts[k2] = True
                    else:
                        u = t.copy()
                    out.append(t)
                    if it < 2:
                        v = ('elem', u.env.get(('it', s['line'])), s['line'], it)
                        enter += self.assign(s['target'], v, u, s)
                else:
                    for u, b in self.cond(s['condition'], t):
                        if b:
                            if it < 2:
                                enter.append(u)
                        else:
                            out.append(u)
            if not enter:
                break
            cur = []
            for kind, u, v in self.block(stats(s['body']), enter):
                if kind in ('next', 'continue'):
                    cur.append(u)
                elif kind == 'break':
                    r.append(('next', u, None))
                else:
                    r.append((kind, u, v))
            cur = self.merge(cur)
        # after two turns the loop is left
        if s['_'] == 'WhileStatNode':
            out += cur
        r += self.block(stats(s.get('else_clause')), self.merge(out))
        return r

    def with_(self, s, st):
        r = []
        for t, m in self.ev(s['manager'], st):
            cur = [t]
            if hasattr(self.mon, 'on_enter'):
                cur = [u for u in self.mon.on_enter(self, t, m, s)]
            for c in cur:
                en = self.resolve(m, '__enter__')
                ent = [(c, ('enter', m))] if en is None else self.into(en, c, [m], {}, s)
                for u in [w for d, y in ent for w in (self.assign(s['target'], y, d, s) if s.get('target') else [d])]:
                    for kind, w, v in self.tried(s['body'], u):
                        if hasattr(self.mon, 'on_exit'):
                            for k2, x in self.mon.on_exit(self, w, m, s, kind):
                                r.append((kind if k2 == 'next' else k2, x, v))
                            continue
                        ex = self.resolve(m, '__exit__')
                        if ex is None:
                            r.append((kind, w, v))
                            continue
                        self.frames.append([])
                        try:
                            outs = self.into(ex, w, [m, NONE, NONE, NONE], {}, s)
                            raised = self.frames[-1]
                        finally:
                            self.frames.pop()
                        for x, y in outs:
                            swallow = kind == 'raise' and self.truth(y, x)
                            r.append(('next' if swallow else kind, x, v))
                        r += [('raise', x, y) for x, y in raised]
        return r

    def assign(self, lhs, v, st, s):
        k = lhs['_']
        if k == 'NameNode':
            st.env[lhs['name']] = v
            if hasattr(self.mon, 'on_assign'):
                self.mon.on_assign(self, st, lhs['name'], v, s)
            return [st]
        if k in ('TupleNode', 'ListNode'):
            cur = [st]
            for i, a in enumerate(lhs['args']):
                x = v[1][i] if v[0] == 'tuple' and len(v[1]) == len(lhs['args']) else ('idx', v, ('c', i))
                cur = [u for c in cur for u in self.assign(a, x, c, s)]
            return cur
        if k == 'AttributeNode':
            r = []
            for t, o in self.ev(lhs['obj'], st):
                t.heap[(o, lhs['attribute'])] = v
                if hasattr(self.mon, 'on_store'):
                    self.mon.on_store(self, t, o, lhs['attribute'], v, s)
                r.append(t)
            return r
        if k in ('IndexNode', 'SliceIndexNode'):
            r = []
            for t, o in self.ev(lhs['base'], st):
                idx = [(t, None)] if k == 'SliceIndexNode' else self.ev(lhs['index'], t)
                for u, i in idx:
                    if hasattr(self.mon, 'on_setitem'):
                        self.mon.on_setitem(self, u, o, i, v, s)
                    r.append(u)
            return r
        raise PyxError('assignment to %s at line %d' % (k, lhs['line']))

    # ---- expressions
    def many(self, es, st):
        cur = [(st, ())]
        for e in es:
            cur = [(u, vs + (v,)) for t, vs in cur for u, v in self.ev(e, t)]
        return cur

    def ev(self, e, st):
        k = e['_']
        if k == 'NameNode':
            n = e['name']
            return [(st, st.env.get(n, ('glob', n)))]
        if k == 'IntNode':
            return [(st, ('c', int(e['value'], 0)))]
        if k == 'FloatNode':
            return [(st, ('c', float(e['value'])))]
        if k == 'BoolNode':
            return [(st, ('c', bool(e['value'])))]
        if k in ('StringNode', 'BytesNode', 'UnicodeNode', 'IdentifierStringNode', 'CharNode'):
            return [(st, ('c', e['value']))]
        if k in ('NoneNode', 'NullNode'):
            return [(st, ('c', None) if k == 'NoneNode' else ('c', 0))]
        if k == 'EllipsisNode':
            return [(st, ('c', '...'))]
        if k == 'AttributeNode':
            r = []
            for t, o in self.ev(e['obj'], st):
                r += self.attr(t, o, e['attribute'], e)
            return r
        if k == 'AmpersandNode':
            op = e['operand']
            if op['_'] == 'NameNode':
                return [(st, ('ref', op['name']))]
            return [(t, ('ref', v)) for t, v in self.ev(op, st)]
        if k == 'TypecastNode':
            return self.ev(e['operand'], st)
        if k in ('IndexNode',):
            r = [(u, ('idx', b, i)) for t, b in self.ev(e['base'], st) for u, i in self.ev(e['index'], t)]
            if hasattr(self.mon, 'on_index'):
                for u, v in r:
                    self.mon.on_index(self, u, v[1], e)
            return r
        if k == 'SliceIndexNode':
            r = []
            for t, b in self.ev(e['base'], st):
                for u, vs in self.many([x for x in (e.get('start'), e.get('stop')) if x], t):
                    r.append((u, ('slice', b, vs)))
            return r
        if k in ('SliceNode', 'MergedDictNode', 'DictNode', 'SetNode', 'JoinedStrNode', 'FormattedValueNode', 'LambdaNode', 'CythonArrayNode', 'YieldExprNode', 'ImportNode', 'SizeofTypeNode', 'SizeofVarNode'):
            subs = []
            if k != 'LambdaNode':
                for key in ('start', 'stop', 'step', 'values', 'value', 'operand', 'operands'):
                    x = e.get(key)
                    if isinstance(x, dict) and '_' in x:
                        subs.append(x)
                    elif isinstance(x, list):
                        subs += [y for y in x if isinstance(y, dict)]
                for x in e.get('key_value_pairs') or []:
                    subs += [x['key'], x['value']]
            return [(t, (k, vs, e['line'] if k in ('LambdaNode', 'YieldExprNode') else None)) for t, vs in self.many(subs, st)]
        if k in ('TupleNode', 'ListNode'):
            return [(t, ('tuple' if k == 'TupleNode' else 'list', vs)) for t, vs in self.many(e['args'], st)]
        if k == 'AsTupleNode':
            return self.ev(e['arg'], st)
        if k in ('PrimaryCmpNode', 'BoolBinopNode', 'NotNode'):
            return [(t, ('c', b)) for t, b in self.cond(e, st)] if self.forks(e) else self.plain(e, st)
        if k == 'CondExprNode':
            r = []
            for t, b in self.cond(e['condition'] if 'condition' in e else e['test'], st):
                r += self.ev(e['true_val' if b else 'false_val'], t)
            return r
        if k in ('SimpleCallNode', 'GeneralCallNode'):
            return self.call(e, st)
        if k in ('ComprehensionNode', 'GeneratorExpressionNode'):
            out = []
            inner = e.get('loop')
            if inner is None:
                return [(st, ('comp', e['line'], None))]
            save = dict(st.env)
            for kind, t, v in self.loop(inner, st):
                t.env = dict(save)
                if kind == 'raise':
                    self.raising(t, v)
                else:
                    out.append(t)
            return [(t, ('comp', e['line'], None)) for t in self.merge(out)]
        if k == 'UnaryMinusNode':
            return [(t, ('c', -v[1]) if v[0] == 'c' and isinstance(v[1], (int, float)) else ('bin', '-', ('c', 0), v)) for t, v in self.ev(e['operand'], st)]
        if 'operand1' in e and 'operand2' in e:
            return [(u, ('bin', e['operator'], a, b)) for t, a in self.ev(e['operand1'], st) for u, b in self.ev(e['operand2'], t)]
        if k in ('StarredUnpackingNode',):
            return self.ev(e['target'], st)
        raise PyxError('expression %s at line %d' % (k, e['line']))

    def forks(self, e):
        return False

    def plain(self, e, st):
        """the value of a condition that is not branched on here"""
        k = e['_']
        if k == 'NotNode':
            r = []
            for t, v in self.ev(e['operand'], st):
                b = self.truth(v, t)
                r.append((t, ('not', v) if b is None else ('c', not b)))
            return r
        if k == 'BoolBinopNode':
            r = []
            for t, v in self.ev(e['operand1'], st):
                for u, b in self.branch(v, t):
                    if b == (e['operator'] == 'or'):
                        r.append((u, v))
                    else:
                        r += self.ev(e['operand2'], u)
            return r
        r = []
        for t, a in self.ev(e['operand1'], st):
            for u, b in self.ev(e['operand2'], t):
                v = cmp(e['operator'], a, b)
                x = self.truth(v, u)
                r.append((u, v if x is None else ('c', x)))
        return r

    def cond(self, e, st):
        """(state, truth) pairs; unknown conditions fork"""
        k = e['_']
        if k == 'NotNode':
            return [(t, not b) for t, b in self.cond(e['operand'], st)]
        if k == 'BoolBinopNode':
            r = []
            for t, b in self.cond(e['operand1'], st):
                if b == (e['operator'] == 'or'):
                    r.append((t, b))
                else:
                    r += self.cond(e['operand2'], t)
            return r
        r = []
        for t, v in self.ev(e, st):
            r += self.branch(v, t)
        return r

    def branch(self, v, t):
        b = self.truth(v, t)
        if b is not None:
            return [(t, b)]
        v, pos = norm(v)
        u = t.copy()
        t.facts[v] = pos
        u.facts[v] = not pos
        return [(t, True), (u, False)]

    def truth(self, v, st):
        v, pos = norm(v)
        x = self.truth_(v, st)
        return x if x is None else x == pos

    def truth_(self, v, st):
        if v in st.facts:
            return st.facts[v]
        if v[0] == 'c':
            return bool(v[1])
        if v[0] == 'cmp':
            op, a, b = v[1:]
            if a[0] == 'c' and b[0] == 'c':
                try:
                    if op in ('==', 'is'):
                        return a[1] == b[1] and (a[1] is None) == (b[1] is None)
                    if op == '<':
                        return a[1] < b[1]
                except TypeError:
                    return None
            if a == b and op == '==':
                return True
            # a comparison known from another one
            if op == '<':
                if st.facts.get(('cmp', '<', b, a)) or st.facts.get(key_eq(a, b)):
                    return False
            if op == '==' and (st.facts.get(('cmp', '<', a, b)) or st.facts.get(('cmp', '<', b, a))):
                return False
            for x, y in ((a, b), (b, a)):
                if y[0] == 'c' and x[0] not in ('c', 'par', 'var'):
                    if x[0] in ('cmp', 'not') and op == '==':
                        t = self.truth(x, st)
                        if t is not None:
                            return t == bool(y[1])
        if v[0] == 'bin' and v[1] in ('|', 'or'):
            xs = [self.truth(v[2], st), self.truth(v[3], st)]
            if True in xs:
                return True
            if xs == [False, False]:
                return False
        if v[0] == 'bin' and v[1] in ('&', 'and'):
            xs = [self.truth(v[2], st), self.truth(v[3], st)]
            if False in xs:
                return False
            if xs == [True, True]:
                return True
        if v[0] == 'call' and v[1] in ('bool', 'int') and len(v[2]) == 1:
            return self.truth(v[2][0], st)
        if v[0] in ('list', 'tuple'):
            return bool(v[1])
        if hasattr(self.mon, 'truth'):
            return self.mon.truth(self, v, st)
        return None

    def attr(self, st, o, name, e):
        if (o, name) in st.heap:
            return [(st, st.heap[(o, name)])]
        if hasattr(self.mon, 'on_attr'):
            r = self.mon.on_attr(self, st, o, name, e)
            if r is not None:
                return r
        f = self.resolve(o, name, prop=True)
        if f and len(f.body) == 1 and f.body[0]['_'] == 'ReturnStatNode' and f.body[0]['value']['_'] == 'AttributeNode':
            return self.into(f, st, [o], {}, e)
        return [(st, ('attr', o, name))]

    def clsof(self, o):
        """class of a value, if known"""
        if o == ('self',):
            return self.selfcls
        if o[0] == 'obj':
            return o[3]
        if o[0] == 'par' and self.stack:
            for f in reversed(self.stack):
                if o[1] in f.types:
                    for m in self.mods:
                        if f.types[o[1]] in m.classes:
                            return m.classes[f.types[o[1]]]
        return None

    def classnamed(self, o):
        if o[0] == 'glob':
            for m in ([self.stack[-1].mod] if self.stack else []) + list(self.mods):
                if o[1] in m.classes:
                    return m.classes[o[1]]
        if o[0] == 'attr' and o[1][0] == 'glob':
            for m in self.mods:
                if m.name == o[1][1] and o[2] in m.classes:
                    return m.classes[o[2]]
        return None

    def resolve(self, o, name, prop=False):
        if o[0] == 'call' and o[1] == 'super' and not prop:
            c = None
            if len(o[2]) == 2 and o[2][0][0] == 'glob':
                c = self.classnamed(o[2][0])
            elif not o[2] and self.stack:
                c = self.stack[-1].cls
            for b in supers(c) if c else []:
                f = lookup(b, name, 'funs')
                if f:
                    return f
            return None
        c = self.clsof(o)
        if c is None:
            return None
        return c.mod.prop(c, name) if prop else c.mod.find(c, name)

    def arity(self, fun, args, kwargs, node):
        if not hasattr(self.mon, 'misfit') or node['_'] not in ('SimpleCallNode', 'GeneralCallNode') or fun.star:
            return
        if node['_'] == 'GeneralCallNode':
            ka = node['keyword_args']
            if node['positional_args']['_'] != 'TupleNode' or (ka and ka['_'] != 'DictNode'):
                return
        if fun.decorators and not self.static(fun) or any(x in ('**', '*') for x in kwargs):
            return
        what = None
        if len(args) > len(fun.params):
            what = 'takes %d arguments but is given %d' % (len(fun.params), len(args))
        for k in kwargs:
            if k not in fun.params:
                what = 'has no parameter %s' % k
            elif fun.params.index(k) < len(args):
                what = 'is given %s twice' % k
        for i, p in enumerate(fun.params):
            if i >= len(args) and p not in kwargs and p not in fun.defaults:
                what = 'is called without its argument %s' % p
        self.mon.misfit(self, fun, what, node)

    def keep(self, before, after):
        if not hasattr(self.mon, 'keeps'):
            return dict(before)
        return {k: v for k, v in after.items() if k in before or self.mon.keeps(k)}

    def into(self, fun, st, args, kwargs, node):
        """inlines a call"""
        if self.depth >= self.inline or fun in self.stack:
            return [(st, ('call', fun.name, tuple(args), (), node['line']))]
        self.arity(fun, args, kwargs, node)
        save = st.env
        st0 = st.facts
        env = {}
        st = st.copy()
        for i, p in enumerate(fun.params):
            if i < len(args):
                env[p] = args[i]
            elif p in kwargs:
                env[p] = kwargs[p]
            elif p in fun.defaults:
                st.env = {}
                env[p] = self.ev(fun.defaults[p], st)[0][1]
            else:
                env[p] = ('par?', p, node['line'])
        for p in fun.star:
            env[p] = ('par?', p, node['line'])
        st.env = env
        self.depth += 1
        try:
            outs = self.body(fun, st)
        finally:
            self.depth -= 1
        r = []
        for k, t, v in outs:
            t.env = dict(save)
            # out parameters given by reference to locals of the caller
            if k == 'raise':
                if getattr(self.mon, 'forget', False):
                    t.facts = self.keep(st0, t.facts)
                self.raising(t, v)
            else:
                if getattr(self.mon, 'forget', False):
                    t.facts = self.keep(st0, t.facts)
                r.append((t, v))
        if getattr(self.mon, 'forget', False):
            seen = {}
            for t, v in r:
                seen.setdefault(repr((v, sorted(t.facts.items(), key=str), sorted(t.heap.items(), key=str), t.mon)), (t, v))
            r = list(seen.values())
            # which exception it was does not matter
            seen = {}
            for t, v in self.frames[-1]:
                seen.setdefault(repr((v, sorted(t.env.items(), key=str), sorted(t.facts.items(), key=str), sorted(t.heap.items(), key=str), t.mon)), (t, v))
            self.frames[-1][:] = seen.values()
        return r

    def call(self, e, st):
        self.calls += 1
        if self.calls > self.LIMIT * 50:
            raise PyxError('too many paths')
        f = e['function']
        kw = {}
        if e['_'] == 'SimpleCallNode':
            argn, kwn = e['args'] or [], []
        else:
            pa = e['positional_args']
            argn = pa['args'] if pa['_'] == 'TupleNode' else [pa]
            ka = e['keyword_args']
            kwn = ka['key_value_pairs'] if ka and ka['_'] == 'DictNode' else []
        r = []
        bases = [(st, None)] if f['_'] == 'NameNode' else self.ev(f['obj'], st) if f['_'] == 'AttributeNode' else self.ev(f, st)
        for t, o in bases:
            for u, vs in self.many(argn + [x['value'] for x in kwn], t):
                args = vs[:len(argn)]
                kw = {x['key']['value']: v for x, v in zip(kwn, vs[len(argn):])}
                name = f['name'] if f['_'] == 'NameNode' else f['attribute'] if f['_'] == 'AttributeNode' else '?'
                r += self.dispatch(u, o, name, args, kw, e, f)
        return r

    def construct(self, c, st, args, kw, e):
        obj = ('obj', c.name, e['line'], c)
        cinit = lookup(c, '__cinit__', 'funs')
        if cinit is not None and len(cinit.params) == 1 and self.depth < self.inline:
            for t, v in self.into(cinit, st, [obj], {}, {'_': '', 'line': e['line']}):
                st = t
        init = lookup(c, '__init__', 'funs')
        if init is None or self.depth >= self.inline or init in self.stack:
            return [(st, obj)]
        return [(t, obj) for t, v in self.into(init, st, [obj] + list(args), kw, e)]

    def dispatch(self, st, o, name, args, kw, e, f):
        x = self.mon.on_call(self, st, o, name, args, kw, e)
        if x is not None:
            return x
        fun = None
        if f['_'] == 'NameNode':
            v = st.env.get(name)
            if v is None:
                for m in ([self.stack[-1].mod] if self.stack else []) + list(self.mods):
                    if name in m.funs:
                        fun = m.funs[name]
                        break
        elif f['_'] == 'AttributeNode':
            fun = self.resolve(o, name)
            if fun is not None:
                if not self.static(fun):
                    args = (o,) + tuple(args)
                    if o[0] == 'call' and o[1] == 'super':
                        args = (('self',) if len(o[2]) < 2 else o[2][1],) + tuple(args)[1:]
            elif self.classnamed(o):
                # Class.method(self, ...)
                fun = lookup(self.classnamed(o), name, 'funs')
        if fun is None and (f['_'] == 'NameNode' and name not in st.env or f['_'] == 'AttributeNode'):
            c = self.classnamed(('glob', name) if f['_'] == 'NameNode' else ('attr', o, name))
            if c is not None:
                return self.construct(c, st, args, kw, e)
        if fun is not None:
            return self.into(fun, st, list(args), kw, e)
        o2 = o if o is not None else None
        if name in ('len',) and o is None and len(args) == 1:
            return [(st, ('idx', ('attr', args[0], 'shape'), ('c', 0)))]
        return [(st, ('call', name, ((o2,) if o2 is not None else ()) + tuple(args), tuple(sorted(kw.items())), e['line']))]


def e_(s):
    for k in ('expr', 'arg', 'value'):
        if isinstance(s.get(k), dict):
            return s[k]
    return {'_': 'NoneNode', 'line': s['line']}


def key_eq(a, b):
    return norm(('cmp', '==', a, b))[0]


def cmp(op, a, b):
    return ('cmp', op, a, b)


def norm(v):
    """canonical form of a condition and its polarity"""
    pos = True
    while True:
        if v[0] == 'not':
            v, pos = v[1], not pos
            continue
        if v[0] == 'cmp':
            op, a, b = v[1:]
            if op in ('!=', 'is_not', 'not_in', '<>'):
                v, pos = ('cmp', {'!=': '==', '<>': '==', 'is_not': 'is', 'not_in': 'in'}[op], a, b), not pos
                continue
            if op == '>=':
                v, pos = ('cmp', '<', a, b), not pos
                continue
            if op == '<=':
                v, pos = ('cmp', '<', b, a), not pos
                continue
            if op == '>':
                v = ('cmp', '<', b, a)
                continue
            if op == '==' and ('c', 0) in (a, b):
                x = b if a == ('c', 0) else a
                if not (x[0] == 'c'):
                    v, pos = x, not pos
                    continue
            if op in ('==', 'is') and repr(a) > repr(b) :
                v = ('cmp', op, b, a)
        return v, pos
