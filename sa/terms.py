"""Symbolic values: integer polynomials over atoms.

A value is a polynomial (const, ((mono, coef), ...)); a mono is a sorted tuple of atoms.
An atom is a tuple whose first element names its kind.  Pointers are polynomials in which
one atom (kind listed in is_ptr) has coefficient 1."""

_ids = {}
_order = []


def aid(a):
    i = _ids.get(a)
    if i is None:
        i = len(_order)
        _ids[a] = i
        _order.append(a)
    return i


def const(c):
    return (c, ())


ZERO = const(0)
ONE = const(1)
_cache = {}


def atom(a):
    r = _cache.get(a)
    if r is None:
        aid(a)
        r = (0, (((a,), 1),))
        _cache[a] = r
    return r


def _mk(c, d):
    items = [(m, k) for m, k in d.items() if k != 0]
    if len(items) > 1:
        items.sort(key=lambda mk: [aid(x) for x in mk[0]])
    return (c, tuple(items))


def add(p, q, k=1):
    if not q[1]:
        return (p[0] + k * q[0], p[1])
    if not p[1] and k == 1:
        return (p[0] + q[0], q[1])
    d = dict(p[1])
    for m, c in q[1]:
        d[m] = d.get(m, 0) + k * c
    return _mk(p[0] + k * q[0], d)


def sub(p, q):
    return add(p, q, -1)


def scale(p, k):
    if k == 0:
        return ZERO
    if k == 1:
        return p
    return (p[0] * k, tuple((m, c * k) for m, c in p[1]))


def neg(p):
    return scale(p, -1)


def mul(p, q):
    if not p[1]:
        return scale(q, p[0])
    if not q[1]:
        return scale(p, q[0])
    d = {}
    c = p[0] * q[0]
    for m, k in p[1]:
        d[m] = d.get(m, 0) + k * q[0]
    for m, k in q[1]:
        d[m] = d.get(m, 0) + k * p[0]
    for m, k in p[1]:
        for n, l in q[1]:
            mm = tuple(sorted(m + n, key=aid))
            d[mm] = d.get(mm, 0) + k * l
    return _mk(c, d)


def is_const(p):
    return not p[1]


def as_atom(p):
    """the atom a if p is exactly a, else None"""
    if p[0] == 0 and len(p[1]) == 1 and p[1][0][1] == 1 and len(p[1][0][0]) == 1:
        return p[1][0][0][0]
    return None


def is_poly(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) and not isinstance(v[0], bool) and isinstance(v[1], tuple)


PTRK = {'al', 'heap', 'glob', 'fnp'}


def is_ptr(a):
    return a[0] in PTRK or a[-1] == 'p'


def base_off(p):
    """split a pointer polynomial into (base atom, offset poly); base None for a non-pointer"""
    pos = [m[0] for m, k in p[1] if k == 1 and len(m) == 1 and is_ptr(m[0])]
    negs = [m for m, k in p[1] if not (k == 1 and len(m) == 1) and any(is_ptr(x) for x in m)]
    if len(pos) == 1 and not negs:
        b = pos[0]
        return b, sub(p, atom(b))
    if not pos:
        return None, p
    b = ('opq', p, 'p')
    return b, ZERO


def atoms_of(v, out=None):
    """all atoms occurring in a value or condition (recursively)"""
    if out is None:
        out = set()
    if isinstance(v, tuple):
        if is_poly(v):
            for m, k in v[1]:
                for a in m:
                    if a not in out:
                        out.add(a)
                        for x in a[1:]:
                            if isinstance(x, tuple):
                                atoms_of(x, out)
        else:
            # a condition or an atom inside an atom
            if v and isinstance(v[0], str) and v[0] in ATOMK:
                if v in out:
                    return out
                out.add(v)
            for x in v:
                if isinstance(x, tuple):
                    atoms_of(x, out)
    return out


_as = {}
_EMPTY = frozenset()


def atomset(v):
    """all atoms occurring in a value, cached"""
    if not isinstance(v, tuple):
        return _EMPTY
    if len(v) == 2 and v[1] == ():
        return _EMPTY
    r = _as.get(v)
    if r is None:
        if len(_as) > 600000:
            _as.clear()
        acc = set()
        if v and isinstance(v[0], str) and v[0] in ATOMK:
            acc.add(v)
        for x in v:
            if isinstance(x, tuple):
                acc |= atomset(x)
        r = frozenset(acc)
        _as[v] = r
    return r


ATOMK = {'al', 'heap', 'glob', 'fnp', 'arg', 'ld', 'ret', 'phi', 'op', 'tr', 'b', 'stale', 'unk', 'opq', 'strlen',
         'pure', 'mod', 'zx', 'fl', 'errno', 'sumb', 'phiep'}

_tokmemo = {}


def mentions(v, tok):
    """does the term mention the token (an atom or an epoch token) anywhere"""
    if v == tok:
        return True
    if isinstance(v, tuple):
        key = (v, tok)
        r = _tokmemo.get(key)
        if r is None:
            r = any(mentions(x, tok) for x in v if isinstance(x, tuple))
            _tokmemo[key] = r
        return r
    return False


def subst(v, f, keys=None, raw=None):
    """rebuild v applying f to atoms: f(atom) -> poly or None (keep).  Works on polys and conditions."""
    if keys is not None and atomset(v).isdisjoint(keys):
        return v
    memo = {}

    def poly(p):
        r = memo.get(p)
        if r is not None:
            return r
        acc = const(p[0])
        changed = False
        for m, k in p[1]:
            t = const(k)
            for a in m:
                x = one(a)
                if x != atom(a):
                    changed = True
                t = mul(t, x)
            acc = add(acc, t)
        if not changed:
            acc = p
        memo[p] = acc
        return acc

    def one(a):
        r = f(a)
        if r is not None:
            return r
        n = inside(a)
        return atom(n)

    def inside(a):
        out = []
        ch = False
        for x in a:
            if isinstance(x, tuple) and x:
                y = any_(x)
                if y is not x and y != x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else a

    def any_(x):
        if raw is not None and x in raw:
            return raw[x]
        if is_poly(x):
            return poly(x)
        if x and isinstance(x[0], str) and x[0] in ATOMK:
            r = f(x)
            if r is not None:
                a = as_atom(r)
                return a if a is not None else ('opq', r, 'p')
            return inside(x)
        return inside(x)

    return any_(v)


def show(v, names=None):
    if v is None:
        return 'None'
    if is_poly(v):
        s = []
        for m, k in v[1]:
            t = '*'.join(show(a) for a in m)
            s.append(t if k == 1 else '%d*%s' % (k, t))
        if v[0] or not s:
            s.append(str(v[0]))
        return '+'.join(s)
    if isinstance(v, tuple):
        return '(' + ' '.join(show(x) for x in v) + ')'
    return str(v)


def aid_key(p):
    """a deterministic order on polynomials"""
    return (p[0], tuple((tuple(aid(x) for x in m), k) for m, k in p[1]))
