"""C16: in Python a step that failed in the C library raises an exception, and nothing else makes a call fail."""
import os
import builtins
from sa import build, pyx
from sa.engine import AnalysisError
from . import errprop

FILES = ('bigfile/pyxbigfile.pyx', 'bigfile/__init__.py')
# pointers that may be NULL without anything having failed
MAYBE_NULL = {'big_block_lookup_attr'}
NAMES = set(dir(builtins)) | {'__file__', '__name__', '__path__', '__doc__', '__class__', 'bint', 'size_t'}


def modules():
    files = [os.path.join(build.REPO, f) for f in FILES]
    for f in files:
        if not os.path.exists(f):
            raise AnalysisError('no ' + f)
    try:
        ms = [pyx.Module(t, f) for t, f in zip(pyx.parse(files), FILES)]
    except pyx.PyxError as x:
        raise AnalysisError(str(x))
    for m in ms:
        m.others = [o for o in ms if o is not m]
    return ms


def where(fun, line):
    return '%s:%s' % (fun.mod.path, line)


def agreed(v):
    """the value that a collective call looks at, if the result is true whenever the value is (on this rank)"""
    while v[0] == 'call' and v[1] in ('any', 'max', 'bool', 'int', 'sum') and v[2]:
        v = v[2][-1]
    if v[0] == 'call' and v[1] in ('allgather', 'allreduce') and len(v[2]) >= 2:
        return v[2][1]
    return None


class Raises:
    """mon: the step that failed, (name, line, file)"""
    forget = True

    def __init__(self, fall, externs):
        self.fall, self.externs = fall, externs
        self.sites = set()
        self.bad = {}
        self.null = {}
        self.misfits = {}
        self.fits = set()

    def initial(self):
        return None

    def on_call(self, I, st, o, name, args, kw, e):
        if o is not None or name not in self.externs:
            return None
        for i, a in enumerate(args):
            if a[0] == 'ref' and isinstance(a[1], str):
                st.env[a[1]] = ('out', name, e['line'], i)
        if name in self.fall:
            f = I.stack[-1]
            self.sites.add((name, f.qual, e['line']))
            if st.mon is not None:
                if st.mon[0] == 'big_file_create' and name == 'big_file_open':
                    # what can be opened is there
                    t = st.copy()
                    t.mon = None
                    return [(t, ('c', 0)), (st, ('c', -1))]
                return [(st, ('c', 0))]
            t = st.copy()
            t.mon = (name, e['line'], f)
            return [(st, ('c', 0)), (t, ('c', -1))]
        if name in MAYBE_NULL:
            return [(st, ('ptr', name, e['line'])), (st.copy(), ('c', 0))]
        return None

    def truth(self, I, v, st):
        if v[0] == 'ptr':
            return True
        x = agreed(v)
        if x is not None and I.truth(x, st) is True:
            return True
        return None

    def on_index(self, I, st, base, e):
        if base == ('c', 0):
            f = I.stack[-1]
            self.null.setdefault((f.qual, e['line']), f)

    def misfit(self, I, fun, what, node):
        self.fits.add((I.stack[-1].qual, node['line']))
        if what:
            self.misfits.setdefault((I.stack[-1].qual, node['line'], fun.qual), (I.stack[-1], what))


def scope(fun_node):
    """the names a function binds"""
    r = set()
    args = fun_node.get('args')
    if fun_node['_'] == 'CFuncDefNode':
        args = pyx.funcdecl(fun_node['declarator'])['args']
    for a in args or []:
        n = pyx.declname(a['declarator'])
        r.add(n or (a['base_type'] or {}).get('name'))
    for k in ('star_arg', 'starstar_arg'):
        if fun_node.get(k):
            r.add(fun_node[k]['name'])
    body = fun_node.get('body') if fun_node['_'] != 'LambdaNode' else None
    for s in pyx.stats(body):
        r.update(pyx.bound(s))
    return r


def names(mod, report, count):
    """every name that is read is bound somewhere it can be seen from"""

    def visit(n, known, cls):
        if isinstance(n, list):
            for x in n:
                visit(x, known, cls)
            return
        if not isinstance(n, dict) or '_' not in n:
            return
        k = n['_']
        if k == 'TryExceptStatNode' and any(not c.get('pattern') or any((p.get('name') or '') in ('NameError', 'Exception') for p in c['pattern']) for c in n['except_clauses']):
            # asks whether a name exists
            visit(n['except_clauses'], known, cls)
            return
        if k in ('DefNode', 'CFuncDefNode'):
            inner = known | scope(n)
            for a in n.get('args') or []:
                visit(a.get('default'), known | cls, set())
            visit(n.get('decorators'), known | cls, set())
            visit(n['body'], inner, set())
            return
        if k == 'LambdaNode':
            inner = known | cls | scope(n)
            visit(n.get('result_expr'), inner, set())
            return
        if k in ('ComprehensionNode', 'GeneratorExpressionNode'):
            inner = known | cls
            for x in pyx.walk(n):
                if x['_'] == 'ForInStatNode':
                    inner = inner | set(pyx.targets(x['target']))
            for key, v in n.items():
                visit(v, inner, set())
            return
        if k in ('PyClassDefNode', 'CClassDefNode', 'PropertyNode'):
            own = set()
            for s in pyx.stats(n['body']):
                own.update(pyx.bound(s))
            visit(n.get('bases'), known, cls)
            visit(n['body'], known, own)
            return
        if k in ('CDefExternNode', 'CStructOrUnionDefNode', 'CSimpleBaseTypeNode', 'ClassCellInjectorNode', 'PyClassMetaclassNode', 'PyClassNamespaceNode'):
            return
        if k == 'NameNode':
            count[0] += 1
            if n['name'] not in known and n['name'] not in cls:
                report(n['name'], n['line'])
            return
        if k == 'DictItemNode':
            if n['key']['_'] != 'IdentifierStringNode':
                visit(n['key'], known, cls)
            visit(n['value'], known, cls)
            return
        for key, v in n.items():
            visit(v, known, cls)
    visit(mod.tree['body'], mod.globals | NAMES, set())


def check(ctx):
    ms = modules()
    lib = ctx.raw(mpi=False)
    externs = set(ms[0].externs)
    fall = errprop.fallible(lib) & externs
    mon = Raises(fall, externs)
    for m in ms:
        for f in m.functions():
            dealloc = f.name == '__dealloc__'
            I = pyx.Interp(ms, mon)
            try:
                outs = I.run(f)
            except pyx.PyxError as x:
                raise AnalysisError('%s: %s' % (f.qual, x))
            ctx.functions.append('%s:%s' % (m.path, f.qual))
            for kind, st, v in outs:
                if kind == 'return' and st.mon is not None and not dealloc:
                    mon.bad.setdefault((st.mon[0], st.mon[2].qual), (st.mon, f))
            ctx.sample({'function': f.qual, 'paths': len(outs)})
    if not mon.sites:
        raise AnalysisError('no calls of the C library found')
    ctx.obligation(not mon.bad, len(mon.sites))
    for (name, q), ((n, line, f), entry) in sorted(mon.bad.items()):
        ctx.violation('%s/%s' % (q, name), '%s returns normally although %s failed' % (entry.qual, name), where(f, line), ['%s fails in %s' % (name, q), '%s ends without an exception' % entry.qual])
    ctx.obligation(not mon.null, 1)
    for (q, line), f in sorted(mon.null.items()):
        ctx.violation('null/%s' % q, '%s uses what was not found (NULL)' % q, where(f, line))
    ctx.obligation(not mon.misfits, len(mon.fits))
    for (q, line, callee), (f, what) in sorted(mon.misfits.items()):
        ctx.violation('call/%s/%s' % (q, callee), '%s %s (called in %s)' % (callee, what, q), where(f, line))
    for m in ms:
        count = [0]
        bad = []
        names(m, lambda n, l: bad.append((n, l)), count)
        ctx.obligation(not bad, count[0])
        for n, l in bad:
            ctx.violation('name/%s/%s' % (os.path.basename(m.path), n), 'the name %s is not defined' % n, '%s:%s' % (m.path, l))
    ctx.explanation = ('Path enumeration over the syntax trees of the Python binding (parsed by Cython\'s parser): each call of a C function that can fail forks a failing path; methods and constructors of the binding are followed into, exception handlers and '
                       'context managers decide whether an exception goes on. No path on which something failed may return normally. A failure that is agreed on (any(comm.allgather(..))) counts as known on every rank. '
                       'All names read are bound in a scope they can be seen from, and calls inside the binding fit the parameters of what they call; a pointer that may be NULL is not dereferenced.')
    ctx.assumptions = ['memory does not run out', 'collective calls of mpi4py do not fail', 'deallocation (__dealloc__) cannot report a failure',
                       'the directory of a file that can be opened was made, even if making it was reported to fail', 'loops are unrolled twice: more turns repeat the same states']
