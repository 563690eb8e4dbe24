"""Hash-consed terms: the value domain of the dataflow analysis.

A term denotes a value as a function of the inputs of the analysed entry
point. Constructors normalise, so that code written differently but computing
the same thing usually yields the same term."""

import ipaddress



class T:
    __slots__ = ('op', 'args', 'id', '_fv')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._fv = None
        _tab[k] = t
    return t


def I(n):
    return mk('int', n)


TRUE = I(1)
FALSE = I(0)
UNIT = mk('agg', None)
UNINIT = mk('uninit')


def isint(t):
    return t.op == 'int'


def sym(name):
    return mk('sym', name)


def agg(variant, *fields):
    return mk('agg', variant, *fields)


def fld(base, key):
    """Field `key` of an opaque value; 'Variant.name' for enum variants."""
    if base.op == 'ite':
        a, b = fld(base.args[1], key), fld(base.args[2], key)
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        return ite(base.args[0], a, b)
    if base.op == 'uninit':
        return base
    if base.op == 'agg' and len(base.args) == 2 and key in ('Some.0', 'Ok.0', 'Err.0'):
        return base.args[1] if base.args[0] == (0 if key == 'Ok.0' else 1) else UNINIT
    if base.op == 'rec':
        for k, v in base.args[1]:
            if k == key:
                return v
    return mk('fld', base, key)


def ptr(root, path=()):
    return mk('ptr', root, path)


def tmp(value):
    """A pointer to an immutable value."""
    if value.op == 'deref':
        return value.args[0]
    return ptr(mk('tmp', value))


# ---------------------------------------------------------------- booleans

BOOL = {'eq', 'lt', 'and', 'or', 'not', 'exists', 'in', 'intersects', 'nd', 'valid', 'nul', 'has',
        'parsed', 'ok', 'is_socket', 'panics', 'readerr', 'has_parent', 'has_name', 'bool', 'bphi',
        'path_starts', 'path_ends'}
# integers known not to be negative (as any signed type that can hold them)
NONNEG = {'fd', 'len', 'pos'}


def isbool(t):
    return t.op in BOOL or (t.op == 'int' and t.args[0] in (0, 1)) or \
        (t.op == 'ite' and isbool(t.args[1]) and isbool(t.args[2]))


def not_(a):
    if a.op == 'int':
        return FALSE if a.args[0] else TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', a)


def _nary(op, unit, zero, xs):
    out = []
    seen = set()

    def add(x):
        if x.op == op:
            for y in x.args:
                if not add(y):
                    return False
            return True
        if x is unit:
            return True
        if x is zero:
            return False
        if x in seen:
            return True
        if not_(x) in seen and x.op not in ('and', 'or'):
            return False
        seen.add(x)
        out.append(x)
        return True
    for x in xs:
        if not add(x):
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    dual = 'and' if op == 'or' else 'or'
    if any(y.op == dual for y in out):
        # absorption: (A || (!A && B)) = (A || B), (A || (A && B)) = A
        res = []
        ch = False
        for y in out:
            if y.op == dual:
                if any(z in seen for z in y.args):
                    ch = True
                    continue
                keep = [z for z in y.args if not_(z) not in seen]
                if len(keep) < len(y.args):
                    ch = True
                    y = (and_ if dual == 'and' else or_)(*keep)
            res.append(y)
        if ch:
            return _nary(op, unit, zero, res)
    out.sort(key=lambda t: t.id)
    return mk(op, *out)


def and_(*xs):
    return _nary('and', TRUE, FALSE, xs)


def or_(*xs):
    return _nary('or', FALSE, TRUE, xs)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == 'int':
        return a if c.args[0] else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == 'int' and b.op == 'int':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
    if isbool(a) and isbool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return mk('agg', a.args[0], *[ite(c, x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == b.op and a.op in ('set', 'dec', 'cptr', 'map') and a.args[:-1] == b.args[:-1]:
        return mk(a.op, *a.args[:-1], ite(c, a.args[-1], b.args[-1]))
    if (a.op in SEQ and b.op in SEQ) or a.op == 'cat' or b.op == 'cat':
        # factor a common prefix out, so that pushes under a condition stay local
        pa, pb = seq_parts(a), seq_parts(b)
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        if n:
            return cat(*pa[:n], ite(c, cat(*pa[n:]), cat(*pb[n:])))
    return mk('ite', c, a, b)


SEQ = {'lit', 'cat', 'unit', 'star'}


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'int' and b.op == 'int':
        return FALSE
    if a.op == 'lit' and b.op == 'lit':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (y.op in ('int', 'lit') or x.args[1].op in ('int', 'lit') or x.args[2].op in ('int', 'lit')):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        if y is TRUE and isbool(x):
            return x
        if y is FALSE and isbool(x):
            return not_(x)
        if y.op == 'int' and x.op == 'agg':
            return FALSE
        if y.op == 'int' and x.op in NONNEG and y.args[0] >= 1 << 31 and x.op == 'fd':
            return FALSE
        if y.op == 'int' and y.args[0] == 0 and x.op in ('ptr', 'cptr', 'fn'):
            return FALSE
        if y.op == 'int' and x.op == 'add' and x.args[2].op == 'int':
            m = (1 << x.args[0]) - 1
            return eq(x.args[1], I((y.args[0] - x.args[2].args[0]) & m))
        if y.op == 'int' and y.args[0] == 0 and x.op == 'len' and x.args[0].op == 'inter':
            return not_(intersects(*x.args[0].args))
        if y.op == 'int' and y.args[0] == 0 and x.op == 'len' and x.args[0].op == 'slice' and x.args[0].args[2] is None:
            s, p = x.args[0].args[:2]
            return FALSE if below_len(p, s) else eq(p, length(s))
        if y.op == 'int' and y.args[0] == 0 and x.op == 'sub':
            return eq(x.args[1], x.args[2])
    if a.op == 'agg' and b.op == 'agg':
        if a.args[0] != b.args[0] or len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    for x, y in ((a, b), (b, a)):
        if x.op == 'discr' and x.args[1] == 2 and y is TRUE:
            return not_(eq(x, FALSE))
    if a.op == 'unit' and b.op == 'unit':
        return eq(a.args[0], b.args[0])
    if a.op == 'cat' or b.op == 'cat':
        n, m = seq_len_const(a), seq_len_const(b)
        if n is not None and m is not None:
            if n != m:
                return FALSE
            if n <= 24:
                return and_(*[eq(at(a, I(k)), at(b, I(k))) for k in range(n)])
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def sval(n, bits):
    n &= (1 << bits) - 1
    return n - (1 << bits) if n >> (bits - 1) else n


def lt(ty, a, b):
    """ty: 'u32', 's64', ..."""
    if a is b:
        return FALSE
    signed = ty[0] == 's'
    bits = int(ty[1:])
    if (a.op in NONNEG or b.op in NONNEG) and (a.op in NONNEG or a.op == 'int') \
            and (b.op in NONNEG or b.op == 'int'):
        if signed and a.op == 'int' and sval(a.args[0], bits) < 0:
            return TRUE
        if signed and b.op == 'int' and sval(b.args[0], bits) < 0:
            return FALSE
        signed, ty = False, 'u64'
    if a.op == 'int' and b.op == 'int':
        x, y = a.args[0], b.args[0]
        if signed:
            x, y = sval(x, bits), sval(y, bits)
        return TRUE if x < y else FALSE
    for i, (x, y) in enumerate(((a, b), (b, a))):
        if x.op != 'int' and y.op == 'int' and bits > 1 and isbool(x):
            if i == 0:
                return ite(x, lt(ty, TRUE, y), lt(ty, FALSE, y))
            return ite(x, lt(ty, y, TRUE), lt(ty, y, FALSE))
        if x.op == 'ite' and (y.op == 'int' or (x.args[1].op == 'int' and x.args[2].op == 'int')):
            if i == 0:
                return ite(x.args[0], lt(ty, x.args[1], y), lt(ty, x.args[2], y))
            return ite(x.args[0], lt(ty, y, x.args[1]), lt(ty, y, x.args[2]))
    if not signed:
        if b.op == 'int' and b.args[0] == 0:
            return FALSE
        if a.op == 'int' and a.args[0] == 0:
            return not_(eq(b, I(0)))
        if b.op == 'int' and b.args[0] == 1:
            return eq(a, I(0))
        if b.op == 'len' and below_len(a, b.args[0]):
            return TRUE
        # lengths are below 2^63: small sums do not wrap
        for x, y, r in ((a, b, TRUE), (b, a, FALSE)):
            if x.op == 'len' and y.op == 'add' and x in y.args[1:] and y.args[0] == 64:
                k = y.args[2] if y.args[1] is x else y.args[1]
                if k.op == 'int' and 0 < k.args[0] < 1 << 32:
                    return r
        if a.op == 'len' and atmost_len(b, a.args[0]):
            return FALSE
    return mk('lt', ty, a, b)


def below_len(x, seq):
    """x < len(seq) for sure"""
    if x.op == 'pos' and x.args[0] is seq:
        return True
    if x.op == 'ite':
        return below_len(x.args[1], seq) and below_len(x.args[2], seq)
    return False


def atmost_len(x, seq):
    """x <= len(seq) for sure"""
    if x.op == 'int' and x.args[0] == 0:
        return True
    if x.op == 'len' and x.args[0] is seq:
        return True
    if below_len(x, seq):
        return True
    if x.op == 'add' and x.args[2].op == 'int' and x.args[2].args[0] == 1 and below_len(x.args[1], seq):
        return True
    if x.op == 'ite':
        return atmost_len(x.args[1], seq) and atmost_len(x.args[2], seq)
    return False


# ---------------------------------------------------------------- integers

def arith(op, bits, a, b):
    m = (1 << bits) - 1
    if a.op == 'int' and b.op == 'int':
        x, y = a.args[0], b.args[0]
        if op == 'add':
            return I((x + y) & m)
        if op == 'sub':
            return I((x - y) & m)
        if op == 'mul':
            return I((x * y) & m)
        if op == 'and':
            return I(x & y)
        if op == 'or':
            return I(x | y)
        if op == 'xor':
            return I(x ^ y)
        if op == 'shl':
            return I((x << (y % bits)) & m)
        if op == 'shr':
            return I(x >> (y % bits))
        if op == 'div' and y:
            return I(x // y)
        if op == 'rem' and y:
            return I(x % y)
    if op == 'sub' and b.op == 'int':
        return arith('add', bits, a, I((-b.args[0]) & m))
    if op in ('add', 'mul', 'and', 'or', 'xor'):
        if a.op == 'int' or (b.op != 'int' and a.id > b.id):
            a, b = b, a
        if op == 'add' and a.op == 'add' and a.args[0] == bits and a.args[2].op == 'int' and b.op == 'int':
            return arith('add', bits, a.args[1], I((a.args[2].args[0] + b.args[0]) & m))
    if b.op == 'int':
        n = b.args[0]
        if n == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'shr'):
            return a
        if n == 0 and op in ('mul', 'and'):
            return I(0)
        if n == m and op == 'and':
            return a
        if n == 1 and op in ('mul', 'div'):
            return a
    if op in ('and', 'or') and b.op == 'int' and a.op in ('band', 'bor') and a.args[0] == bits and a.args[2].op == 'int':
        x, c1, c2 = a.args[1], a.args[2].args[0], b.args[0]
        if op == 'and' and a.op == 'band':
            return arith('and', bits, x, I(c1 & c2))
        if op == 'or' and a.op == 'bor':
            return arith('or', bits, x, I(c1 | c2))
        if op == 'and' and c1 & c2 == 0:
            return arith('and', bits, x, b)
        if op == 'and' and c1 & c2 == c2:
            return b
    if a.op == 'ite' and b.op == 'int' and a.args[1].op == 'int' and a.args[2].op == 'int':
        return ite(a.args[0], arith(op, bits, a.args[1], b), arith(op, bits, a.args[2], b))
    if op == 'and':
        op = 'band'
    if op == 'or':
        op = 'bor'
    return mk(op, bits, a, b)


def cast_int(fbits, fsigned, tbits, a):
    if a.op == 'int':
        n = a.args[0]
        if fsigned:
            n = sval(n, fbits)
        return I(n & ((1 << tbits) - 1))
    if a.op == 'ite':
        return ite(a.args[0], cast_int(fbits, fsigned, tbits, a.args[1]),
                   cast_int(fbits, fsigned, tbits, a.args[2]))
    if tbits < fbits:
        return mk('trunc', tbits, a)
    if a.op in NONNEG and tbits >= 32:
        return a
    if tbits > fbits and fsigned:
        return mk('sext', fbits, tbits, a)
    return a


# ---------------------------------------------------------------- enums

def discr(base, n):
    """Variant index of an enum value with n variants."""
    if base.op == 'agg':
        return I(base.args[0] if base.args[0] is not None else 0)
    if base.op == 'ite':
        return ite(base.args[0], discr(base.args[1], n), discr(base.args[2], n))
    if base.op == 'upd':
        return discr(base.args[0], n)
    return mk('discr', base, n)


# ---------------------------------------------------------------- sequences

EMPTY = mk('lit', b'')


def lit(b):
    return mk('lit', bytes(b))


def unit(x):
    if x.op == 'int' and 0 <= x.args[0] < 256:
        return mk('lit', bytes([x.args[0]]))
    if x.op == 'ite' and x.args[1].op == 'int' and x.args[2].op == 'int':
        return ite(x.args[0], unit(x.args[1]), unit(x.args[2]))
    return mk('unit', x)


def seq_parts(s):
    if s.op == 'cat':
        return list(s.args)
    if s is EMPTY:
        return []
    return [s]


def cat(*parts):
    out = []
    for p in parts:
        for q in seq_parts(p):
            if q is EMPTY:
                continue
            if q.op == 'lit' and out and out[-1].op == 'lit':
                out[-1] = lit(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def length(s):
    if s.op == 'lit':
        return I(len(s.args[0]))
    if s.op == 'unit':
        return I(1)
    if s.op == 'cat':
        n = I(0)
        for p in s.args:
            n = arith('add', 64, n, length(p))
        return n
    if s.op == 'ite':
        a, b = length(s.args[1]), length(s.args[2])
        if a.op == 'int' or b.op == 'int':
            return ite(s.args[0], a, b)
    if s.op == 'fixed':
        return I(s.args[1])
    if s.op == 'raw':
        return s.args[1]
    if s.op == 'star' and s.args[1].op in ('unit',):
        return length(s.args[0])
    return mk('len', s)


def seq_len_const(s):
    n = length(s)
    return n.args[0] if n.op == 'int' else None


def at(s, i):
    """Element i of a sequence."""
    if s.op == 'ite':
        return ite(s.args[0], at(s.args[1], i), at(s.args[2], i))
    if s.op == 'lit' and i.op == 'int' and i.args[0] < len(s.args[0]):
        return I(s.args[0][i.args[0]])
    if s.op == 'unit' and i.op == 'int' and i.args[0] == 0:
        return s.args[0]
    if s.op == 'cat' and i.op == 'int':
        k = i.args[0]
        for p in s.args:
            n = seq_len_const(p)
            if n is None:
                break
            if k < n:
                return at(p, I(k))
            k -= n
    if s.op == 'star' and s.args[1].op == 'unit':
        return instantiate(s.args[1].args[0], at(s.args[0], i))
    return mk('at', s, i)


def set_at(s, i, v):
    n = seq_len_const(s)
    if n is not None and i.op == 'int' and n <= 4096 and i.args[0] < n:
        return cat(*[unit(v if k == i.args[0] else at(s, I(k))) for k in range(n)])
    return mk('setat', s, i, v)


def slice_(s, a, b):
    """s[a..b]; b None means to the end."""
    n = seq_len_const(s)
    if b is not None and n is not None and b.op == 'int' and b.args[0] == n:
        b = None
    if b is not None and b.op == 'len' and b.args[0] is s:
        b = None
    if b is None and a.op == 'int' and a.args[0] == 0:
        return s
    if a.op == 'len' and a.args[0] is s:
        return EMPTY
    if s.op == 'lit' and a.op == 'int' and (b is None or b.op == 'int') and (b is None or b.args[0] <= n):
        return lit(s.args[0][a.args[0]:None if b is None else b.args[0]])
    if n is not None and a.op == 'int' and (b is None or b.op == 'int') and n <= 4096:
        e = n if b is None else b.args[0]
        return cat(*[unit(at(s, I(k))) for k in range(a.args[0], min(e, n))])
    if a.op == 'ite':
        return ite(a.args[0], slice_(s, a.args[1], b), slice_(s, a.args[2], b))
    if b is not None and b.op == 'ite':
        return ite(b.args[0], slice_(s, a, b.args[1]), slice_(s, a, b.args[2]))
    if s.op == 'slice' and s.args[2] is None:
        return slice_(s.args[0], arith('add', 64, s.args[1], a), None if b is None else arith('add', 64, s.args[1], b))
    return mk('slice', s, a, b)


def rev(s):
    if s.op == 'lit':
        return lit(s.args[0][::-1])
    if s.op == 'unit':
        return s
    if s.op == 'rev':
        return s.args[0]
    if s.op == 'cat':
        return cat(*[rev(p) for p in reversed(s.args)])
    return mk('rev', s)


def pos(seq, pred, var):
    """The index of the first element for which pred holds."""
    n = seq_len_const(seq)
    if n is not None and n <= 64:
        r = I(n)
        for k in range(n - 1, -1, -1):
            r = ite(subst(pred, {var: at(seq, I(k))}), I(k), r)
        return r
    return mk('pos', seq, pred, var)


# bound variables: body terms of star/exists speak about x(n)

def bdepth(t):
    """1 + highest bound variable index in t (0 if none)."""
    if t._fv is None:
        m = 0
        if t.op == 'x':
            m = t.args[0] + 1
        for a in t.args:
            m = max(m, _bd(a))
        t._fv = m
    return t._fv


def _bd(a):
    if isinstance(a, T):
        return bdepth(a)
    if isinstance(a, tuple):
        return max([_bd(x) for x in a] or [0])
    return 0


def x(n):
    return mk('x', n)


def binder(body):
    """The bound variable a star/exists with this body uses: the highest."""
    return x(bdepth(body) - 1) if bdepth(body) else None


def star(seq, body, var):
    """Concatenation of body[e/var] over the elements e of seq."""
    if body is EMPTY:
        return EMPTY
    if body.op == 'unit' and body.args[0] is var:
        return seq
    if seq.op == 'lit' or seq.op == 'unit':
        n = seq_len_const(seq)
        if n is not None and n <= 256:
            return cat(*[subst(body, {var: at(seq, I(k))}) for k in range(n)])
    if seq.op == 'cat':
        return cat(*[star(p, body, var) for p in seq.args])
    if seq.op == 'ite':
        return ite(seq.args[0], star(seq.args[1], body, var), star(seq.args[2], body, var))
    if seq.op == 'star':
        inner = subst(seq.args[1], {seq.args[2]: var}) if seq.args[2] is not var else seq.args[1]
        if inner.op == 'unit':
            return star(seq.args[0], subst(body, {var: inner.args[0]}), var)
    # rename the bound variable canonically
    body, var = _canon(body, var, seq)
    return mk('star', seq, body, var)


def _canon(body, var, seq=None):
    other = 0

    def walk(t, inner):
        nonlocal other
        if isinstance(t, T):
            if t.op == 'x' and t is not var:
                other = max(other, t.args[0] + 1)
            for a in t.args:
                walk(a, inner)
        elif isinstance(t, tuple):
            for a in t:
                walk(a, inner)
    walk(body, ())
    new = x(other)
    if new is var:
        return body, var
    return subst(body, {var: new}), new


def instantiate(body, val):
    v = binder(body)
    return subst(body, {v: val}) if v is not None else body


def exists(seq, pred, var):
    if pred is FALSE:
        return FALSE
    if seq is EMPTY:
        return FALSE
    if seq.op == 'rev':
        return exists(seq.args[0], pred, var)
    if seq.op == 'unit' or seq.op == 'lit':
        n = seq_len_const(seq)
        if n <= 64:
            return or_(*[subst(pred, {var: at(seq, I(k))}) for k in range(n)])
    if seq.op == 'cat':
        return or_(*[exists(p, pred, var) for p in seq.args])
    if seq.op == 'ite':
        return ite(seq.args[0], exists(seq.args[1], pred, var), exists(seq.args[2], pred, var))
    if seq.op == 'inter':
        return exists(seq.args[0], and_(in_(var, seq.args[1]), pred), var)
    if seq.op == 'star' and seq.args[1].op == 'unit':
        e = seq.args[1].args[0]
        e2 = subst(e, {seq.args[2]: var})
        return exists(seq.args[0], subst(pred, {var: e2}), var)
    if seq.op == 'elems':
        inner = seq.args[0]
        if inner.op == 'set':
            return exists(inner.args[0], pred, var)
    if pred.op == 'or':
        return or_(*[exists(seq, p, var) for p in pred.args])
    if pred.op == 'ite' and not occurs(pred.args[0], var):
        return ite(pred.args[0], exists(seq, pred.args[1], var), exists(seq, pred.args[2], var))
    if not occurs(pred, var):
        return and_(pred, not_(eq(length(seq), I(0))))
    if pred.op == 'and':
        # conjuncts that do not speak about the element come out
        free = [p for p in pred.args if not occurs(p, var)]
        if free:
            rest = [p for p in pred.args if occurs(p, var)]
            return and_(*free, exists(seq, and_(*rest), var))
    if pred.op == 'eq':
        a, b = pred.args
        if a is var and not occurs(b, var):
            return in_(b, seq)
        if b is var and not occurs(a, var):
            return in_(a, seq)
    if pred.op == 'in' and pred.args[0] is var and not occurs(pred.args[1], var):
        return intersects(seq, pred.args[1])
    pred, var = _canon(pred, var)
    return mk('exists', seq, pred, var)


def in_(v, seq):
    """v is an element of seq."""
    if seq.op == 'elems' and seq.args[0].op == 'set':
        return in_(v, seq.args[0].args[0])
    if seq is EMPTY:
        return FALSE
    if seq.op == 'unit':
        return eq(v, seq.args[0])
    if seq.op == 'lit':
        return or_(*[eq(v, I(b)) for b in seq.args[0]])
    if seq.op == 'cat':
        return or_(*[in_(v, p) for p in seq.args])
    if seq.op == 'ite':
        return ite(seq.args[0], in_(v, seq.args[1]), in_(v, seq.args[2]))
    if seq.op == 'rev':
        return in_(v, seq.args[0])
    if seq.op == 'inter':
        return and_(in_(v, seq.args[0]), in_(v, seq.args[1]))
    return mk('in', v, seq)


def intersects(a, b):
    for p, q in ((a, b), (b, a)):
        if p.op == 'elems' and p.args[0].op == 'set':
            return intersects(p.args[0].args[0], q)
        if p is EMPTY:
            return FALSE
        if p.op == 'cat':
            return or_(*[intersects(y, q) for y in p.args])
        if p.op == 'ite':
            return ite(p.args[0], intersects(p.args[1], q), intersects(p.args[2], q))
        if p.op == 'unit':
            return in_(p.args[0], q)
        if p.op == 'lit':
            return or_(*[in_(I(y), q) for y in p.args[0]])
    if a.id > b.id:
        a, b = b, a
    return mk('intersects', a, b)


def elems(s):
    """The elements of a set, as a sequence in some order."""
    if s.op == 'ite':
        return ite(s.args[0], elems(s.args[1]), elems(s.args[2]))
    return mk('elems', s) if s.op != 'set' else s.args[0]


def occurs(t, v):
    if t is v:
        return True
    if isinstance(t, T):
        return any(occurs(a, v) for a in t.args)
    if isinstance(t, tuple):
        return any(occurs(a, v) for a in t)
    return False


def anyop(t, pred):
    seen = set()

    def go(t):
        if isinstance(t, T):
            if t in seen:
                return False
            seen.add(t)
            if pred(t):
                return True
            return any(go(a) for a in t.args)
        if isinstance(t, tuple):
            return any(go(a) for a in t)
        return False
    return go(t)


# Functions of text that are computed once their argument is known.

def _lift(op, pre, x, f):
    if x.op == 'ite':
        return ite(x.args[0], _lift(op, pre, x.args[1], f), _lift(op, pre, x.args[2], f))
    if x.op == 'lit':
        r = f(x.args[0])
        if r is not None:
            return r
    return mk(op, *pre, x)


def valid(x):
    def f(b):
        try:
            b.decode('utf-8')
            return TRUE
        except UnicodeDecodeError:
            return FALSE
    return _lift('valid', (), x, f)


def nul(x):
    return _lift('nul', (), x, lambda b: TRUE if 0 in b else FALSE)


def _intval(ty, b):
    ty, _, radix = ty.partition('/')
    radix = int(radix or 10)
    signed = ty[0] in 'is'
    bits = {'usize': 64, 'isize': 64}.get(ty) or int(ty[1:])
    d = b[1:] if b[:1] == b'+' or (signed and b[:1] == b'-') else b
    if not d or radix > 10 or not all(48 <= x < 48 + radix for x in d):
        return None
    n = int(d, radix)
    if b[:1] == b'-':
        n = -n
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    return n if lo <= n <= hi else None


def _isip(b):
    """Clear cases only."""
    ps = b.split(b'.')
    if len(ps) == 4 and all(p.isdigit() and str(int(p)).encode() == p and int(p) < 256 for p in ps):
        return TRUE
    if b':' not in b and (len(ps) != 4 or not all(p.isdigit() for p in ps)):
        return FALSE
    return None


def isintty(ty):
    if not isinstance(ty, str):
        return False
    ty, _, radix = ty.partition('/')
    return (ty in ('usize', 'isize') or (ty[:1] in 'iu' and ty[1:].isdigit())) and (not radix or int(radix) <= 10)


def parsed(ty, x):
    def f(b):
        if isintty(ty):
            return FALSE if _intval(ty, b) is None else TRUE
        if isinstance(ty, str) and ty.rsplit('::', 1)[-1] == 'IpAddr':
            return _isip(b)
        if isinstance(ty, str) and ty.rsplit('::', 1)[-1] == 'NetAddr':
            x_, sep, y_ = b.partition(b'/')
            return and_(_isip(x_), _isip(y_)) if sep and None not in (_isip(x_), _isip(y_)) else None if sep else FALSE
    return _lift('parsed', (ty,), x, f)


def pval(ty, x):
    def f(b):
        if isintty(ty):
            n = _intval(ty, b)
            return None if n is None else I(n & ((1 << (64 if 'size' in ty else int(ty[1:].split('/')[0]))) - 1))
        if isinstance(ty, str) and ty.rsplit('::', 1)[-1] == 'IpAddr' and _isip(b) is TRUE:
            a = ipaddress.ip_address(b.decode())
            return mk('lit', b'IPv%d %s' % (a.version, a.packed))
    return _lift('pval', (ty,), x, f)


def dec(x):
    if x.op == 'int':
        return mk('lit', str(x.args[0]).encode())
    return mk('dec', x)


def sdec(bits, x):
    if x.op == 'int':
        return mk('lit', str(sval(x.args[0], bits)).encode())
    return mk('sdec', bits, x)


def pjoin(a, b):
    if b.op == 'lit' and b.args[0].startswith(b'/'):
        return b
    if a.op == 'ite' and b.op == 'lit':
        return ite(a.args[0], pjoin(a.args[1], b), pjoin(a.args[2], b))
    if a.op == 'lit' and b.op == 'lit':
        x, y = a.args[0], b.args[0]
        return mk('lit', x + y if not x or x.endswith(b'/') else x + b'/' + y)
    return mk('pjoin', a, b)


def split(x, sep):
    def f(b):
        if sep.op == 'lit':
            return cat(*[unit(mk('lit', p)) for p in b.split(sep.args[0])]) if sep.args[0] else None
    if x.op in ('lit', 'ite') and sep.op == 'lit':
        if x.op == 'ite':
            return mk('split', x, sep)
        return f(x.args[0]) or mk('split', x, sep)
    return mk('split', x, sep)


def _base(b):
    p = b.rstrip(b'/')
    n = p.rsplit(b'/', 1)[-1]
    return None if n in (b'', b'..', b'.') else n


def file_name(x):
    # (of a path without one nothing looks at it)
    return _lift('file_name', (), x, lambda b: mk('lit', _base(b) or b''))


def has_name(x):
    return _lift('has_name', (), x, lambda b: FALSE if _base(b) is None else TRUE)


def has_parent(x):
    return _lift('has_parent', (), x, lambda b: FALSE if b.strip(b'/') == b'' else None)


def _comps(b):
    ps = [p for i, p in enumerate(b.split(b'/')) if p and (p != b'.' or i == 0)]
    return ([b'/'] if b[:1] == b'/' else []) + ps


def path_side(op, a, b):
    """Whether path a starts or ends with the components of path b."""
    if a is b:
        return TRUE
    if a.op == 'ite':
        return ite(a.args[0], path_side(op, a.args[1], b), path_side(op, a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], path_side(op, a, b.args[1]), path_side(op, a, b.args[2]))
    if a.op == 'lit' and b.op == 'lit':
        x, y = _comps(a.args[0]), _comps(b.args[0])
        if op == 'path_starts':
            return TRUE if x[:len(y)] == y else FALSE
        return TRUE if not y or x[-len(y):] == y else FALSE
    return mk(op, a, b)


def lossy(x):
    return _lift('lossy', (), x, lambda b: mk('lit', b.decode('utf-8', 'replace').encode()))


def _recase(b, f):
    try:
        return f(b.decode()).encode()
    except UnicodeDecodeError:
        return None


_FUNS = {
    'lower': bytes.lower, 'upper': bytes.upper,
    'ulower': lambda b: _recase(b, str.lower), 'uupper': lambda b: _recase(b, str.upper),
    'trim': lambda b: b.strip(b' \t\n\x0b\x0c\r') if b.isascii() else None,
    'trim_start': lambda b: b.lstrip(b' \t\n\x0b\x0c\r') if b.isascii() else None,
    'trim_end': lambda b: b.rstrip(b' \t\n\x0b\x0c\r') if b.isascii() else None,
    'trim_ascii': lambda b: b.strip(b' \t\n\x0c\r'), 'trim_ascii_start': lambda b: b.lstrip(b' \t\n\x0c\r'),
    'trim_ascii_end': lambda b: b.rstrip(b' \t\n\x0c\r'),
}


def fun(name, y):
    """A text with its case changed, or without the space around it."""
    def f(b):
        r = _FUNS[name](b)
        return None if r is None else mk('lit', r)
    if y is EMPTY:
        return y
    if y.op == 'fun' and y.args[0] == name:
        return y
    return _lift('fun', (name,), y, f)


def maplen(m):
    """How many keys a map has."""
    if m.op == 'map':
        ks = [p.args[0].args[1] if p.op == 'unit' and p.args[0].op == 'agg' and len(p.args[0].args) == 3 else None
              for p in seq_parts(m.args[0])]
        if all(k is not None and k.op == 'lit' for k in ks):
            return mk('int', len(set(ks)))
    return mk('maplen', m)


def joined(s, sep):
    """The texts of a list with a separator between them."""
    if sep is EMPTY:
        v = x(bdepth(s))
        return star(s, v, v)
    if s is EMPTY:
        return EMPTY
    ps = seq_parts(s)

    def after(p):
        if p is EMPTY:
            return EMPTY
        if p.op == 'unit':
            return cat(sep, p.args[0])
        if p.op == 'ite':
            return ite(p.args[0], after(p.args[1]), after(p.args[2]))
        if p.op == 'cat':
            return cat(*[after(q) for q in p.args])
        v = x(max(bdepth(p), bdepth(sep)))
        return star(p, cat(sep, v), v)
    if ps[0].op == 'unit':
        return cat(ps[0].args[0], *[after(p) for p in ps[1:]])
    if ps[0].op == 'ite':
        n = next((i for i, p in enumerate(ps) if p.op == 'unit'), len(ps))
        if n <= 4 and all(p.op == 'ite' for p in ps[:n]):
            return ite(ps[0].args[0], joined(cat(ps[0].args[1], *ps[1:]), sep), joined(cat(ps[0].args[2], *ps[1:]), sep))
    return mk('joined', s, sep)


_REBUILD = {
    'joined': joined, 'maplen': maplen,
    'valid': valid, 'nul': nul, 'parsed': parsed, 'pval': pval, 'dec': dec, 'sdec': sdec, 'pjoin': pjoin,
    'split': split, 'file_name': file_name, 'has_name': has_name, 'has_parent': has_parent, 'lossy': lossy, 'fun': fun,
    'path_starts': lambda a, b: path_side('path_starts', a, b), 'path_ends': lambda a, b: path_side('path_ends', a, b),

    'not': not_, 'and': and_, 'or': or_, 'ite': ite, 'eq': eq, 'lt': lt,
    'discr': discr, 'cat': cat, 'unit': unit, 'len': length, 'at': at, 'slice': slice_,
    'in': in_, 'intersects': intersects, 'fld': fld, 'elems': elems, 'setat': set_at,
    'star': lambda s, b, v: star(s, b, v), 'exists': lambda s, p, v: exists(s, p, v),
    'rev': rev, 'pos': pos,
    'add': lambda b, p, q: arith('add', b, p, q), 'sub': lambda b, p, q: arith('sub', b, p, q),
    'band': lambda b, p, q: arith('and', b, p, q), 'bor': lambda b, p, q: arith('or', b, p, q),
    'shr': lambda b, p, q: arith('shr', b, p, q), 'shl': lambda b, p, q: arith('shl', b, p, q),
    'mul': lambda b, p, q: arith('mul', b, p, q), 'xor': lambda b, p, q: arith('xor', b, p, q),
    'trunc': lambda b, p: cast_int(128, False, b, p), 'sext': lambda f, b, p: cast_int(f, True, b, p),
    'div': lambda b, p, q: arith('div', b, p, q), 'rem': lambda b, p, q: arith('rem', b, p, q),
}


def rebuild(op, args):
    f = _REBUILD.get(op)
    return f(*args) if f else mk(op, *args)


def subst(t, m, memo=None, fix=False):
    if not m:
        return t
    if memo is None:
        memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        ch = False
        na = []
        for a in t.args:
            b = goa(a)
            if b is not a and b != a:
                ch = True
            na.append(b)
        r = rebuild(t.op, na) if ch else t
        if ch and fix:
            r = m.get(r, r)
        memo[t] = r
        return r

    def goa(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple) and a:
            return tuple(goa(z) for z in a)
        return a
    return go(t)


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '.'.join(show(x, d + 1) for x in t)
        return str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.args
    s = lambda y: show(y, d + 1)
    if o == 'int':
        return str(a[0])
    if o == 'sym':
        return a[0]
    if o == 'lit':
        return repr(a[0])[1:] if len(a[0]) < 80 else 'lit%d' % len(a[0])
    if o == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'agg':
        return ('' if a[0] is None else '#%s' % a[0]) + '(' + ', '.join(s(y) for y in a[1:]) + ')'
    if o == 'eq':
        return '(%s == %s)' % (s(a[0]), s(a[1]))
    if o == 'not':
        return '!%s' % s(a[0])
    if o == 'and':
        return '(' + ' && '.join(s(y) for y in a) + ')'
    if o == 'or':
        return '(' + ' || '.join(s(y) for y in a) + ')'
    if o == 'cat':
        return '[' + ' ++ '.join(s(y) for y in a) + ']'
    if o == 'ptr':
        return '&' + s(a[0]) + ''.join('.' + s(y[2] if y[0] == 'f' else y) for y in a[1])
    if o == 'x':
        return 'x%d' % a[0]
    return '%s(%s)' % (o, ', '.join(s(y) for y in a))
