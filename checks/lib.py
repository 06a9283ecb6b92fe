"""Helpers shared by the checks."""
from sa import terms as T
from sa.terms import const, atom, add, sub, is_const, as_atom, base_off, is_poly
from sa.engine import Monitor, c_eq, c_not, rename

FILE_PRIMS = {'fopen', 'freopen', 'fdopen', 'open', 'open64', 'creat', 'openat', 'fopen64', 'mkdir', 'mkdirat', 'rmdir', 'unlink', 'remove', 'rename', 'truncate', 'ftruncate',
              'truncate64', 'ftruncate64', 'stat', 'lstat', 'utimes', 'utime', 'chmod', 'symlink', 'link', 'mkstemp', 'tmpfile', 'write', 'pwrite', 'scandir',
              'opendir', 'system', 'popen', 'mknod', 'unlinkat', 'renameat', 'utimensat', 'futimens', 'chown', 'fopencookie', 'execve', 'execvp', 'fork'}


def callees(f):
    """functions called or whose address is taken"""
    out = set()

    def val(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'glob':
                out.add(v[1])
            else:
                for y in v:
                    val(y)
        elif isinstance(v, list):
            for y in v:
                val(y)
    for x in f.insns():
        val(x.a)
        if x.op == 'call':
            val(x.extra['callee'])
            if x.extra['callee'][0] != 'glob':
                out.add('*indirect*')
    return out


def reaching(m, targets):
    """functions of the module from which a call to one of the targets can be reached (indirect calls: any address-taken function)"""
    cg = {n: callees(f) for n, f in m.funcs.items()}
    out = set()
    ch = True
    while ch:
        ch = False
        for n, cs in sorted(cg.items()):
            if n not in out and (cs & targets or cs & out):
                out.add(n)
                ch = True
    return out


class SetMon(Monitor):
    """monitor state: a frozenset of tuples, renamed when a token is retired"""

    def initial(self):
        return frozenset()

    def retire(self, eng, st, token, stale):
        if any(T.mentions(x, token) for x in st.mon):
            st.mon = frozenset(rename(x, token, stale) for x in st.mon if not T.mentions(x, stale))


def fork_ret(eng, st, x, okv, failv):
    a, b = st, st.copy()
    if x.res is not None:
        a.env[x.res] = okv
        b.env[x.res] = failv
    return a, b


def success(eng, st, fn, v):
    """can this return mean success?"""
    if v is None:
        return True
    if fn.ret[0] == 'ptr':
        return eng.decide(st, c_eq(v)) is not True
    return eng.decide(st, c_eq(v)) is not False


def failure(eng, st, fn, v):
    if v is None:
        return False
    if fn.ret[0] == 'ptr':
        return eng.decide(st, c_eq(v)) is True
    return eng.decide(st, c_eq(v)) is False


def trace_of(st):
    out = []
    t = st.trace
    while t is not None and len(out) < 60:
        out.append(t[1])
        t = t[0]
    return ' -> '.join(reversed(out))


def ret_where(m, x):
    from sa.ctx import short
    return short(m.loc(x))


def path_edge(eng, path, src, dst, cap=30):
    """the decisions of the current path, forgetting those of earlier rounds of a loop"""
    if src is None:
        return ()
    r = eng.rpo[dst]
    if eng.rpo[dst] <= eng.rpo[src]:
        path = tuple(e for e in path if e[0] < r)
    elif len(set(eng.fn.blocks[src].succ)) > 1 and len(path) < cap:
        path = path + ((eng.rpo[src], r),)
    return path
