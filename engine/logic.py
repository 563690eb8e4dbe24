"""Deciding implications between extracted conditions.

Conditions are boolean combinations of finitely many atoms. `prove` goes
through the truth table (pruned by the equality facts) for a row in which the
premises hold and the goal does not. No such row: proved. A row counts as a
counterexample only if concrete values of the inputs realise it; rows that
cannot be realised from a small pool of values, or that depend on something
the analysis left open, make the answer 'unknown'."""
import time
from . import terms as t
from .terms import mk, I, TRUE, FALSE, not_, and_, or_, ite, eq
from .interp import Facts, Infeasible, Undecided

OPEN = {'phi', 'bphi', 'havoc', 'res', 'fmt?', 'fdset?', 'partial', 'x', 'uninit', 'undef', 'dyn',
        'joined', 'rev', 'pos', 'setat', 'repeatseq', 'resize', 'find', 'inter', 'bin', 'un', 'cast'}
INTERP = {'int', 'lit', 'cat', 'unit', 'ite', 'add', 'sub', 'mul', 'band', 'bor', 'xor', 'shr', 'shl', 'trunc', 'sext',
          'zext', 'eq', 'lt', 'not', 'and', 'or', 'in', 'intersects', 'len', 'agg', 'div', 'rem', 'at', 'slice'}
TEXT = {'valid', 'nul', 'parsed', 'pval', 'dec', 'sdec', 'pjoin', 'split', 'file_name', 'has_name', 'has_parent', 'lossy',
        'fun', 'path_starts', 'path_ends'}
INTERP |= TEXT | {'exists', 'star'}
FREE = {'has', 'ok', 'is_socket', 'panics', 'readerr', 'bool', 'nd'}


BITS = {'band', 'bor', 'xor', 'shr', 'shl', 'add', 'sub', 'mul', 'div', 'rem', 'trunc', 'sext'}
OUTCOME = {'ok', 'is_socket', 'panics', 'readerr', 'bool'}


class Budget(Exception):
    pass


_atoms = {}


def atoms(f):
    """The atoms of a formula."""
    r = _atoms.get(f)
    if r is None:
        if f.op in ('and', 'or', 'not', 'ite'):
            r = frozenset().union(*[atoms(a) for a in f.args])
        elif f.op == 'int':
            r = frozenset()
        else:
            r = frozenset([f])
        _atoms[f] = r
    return r


def components(clauses):
    """Clauses grouped by shared atoms, smallest group first."""
    groups = []
    for c in clauses:
        at, cs = set(atoms(c)), [c]
        rest = []
        for a, g in groups:
            if a & at:
                at |= a
                cs += g
            else:
                rest.append((a, g))
        groups = rest + [(at, cs)]
    return sorted(groups, key=lambda g: (len(g[0]), len(g[1])))


def pick(cs):
    """The atom to branch on: frequent in short clauses."""
    w = {}
    for c in cs:
        at = atoms(c)
        k = 1.0 / (1 << min(len(at), 12))
        for a in at:
            w[a] = w.get(a, 0) + k
    return max(w, key=lambda a: (w[a], -a.id))


class Count:
    def __init__(self, cap):
        self.left = cap


def rows(lits, cap):
    """Consistent assignments to the atoms of the conjunction of lits."""
    f = Facts()
    try:
        for l in sorted(lits, key=lambda l: (l.op in ('or', 'ite'), l.id)):
            f.add(l)
    except Infeasible:
        return
    n = Count(cap)

    def go(f, only=None):
        cs = [c for c in f.clauses if only is None or atoms(c) & only]
        if not cs:
            if arith_ok(literals(f)):
                yield f
            return
        n.left -= 1
        if n.left < 0:
            raise Budget()
        groups = components(cs)
        if len(groups) > 1 and only is None:
            # a part without a solution of its own settles the matter
            for at, g in groups:
                if not any(True for _ in go(f, frozenset(at))):
                    return
        a = pick(groups[0][1])
        for l in (a, not_(a)):
            g = f.copy()
            try:
                g.add(l)
            except Infeasible:
                continue
            yield from go(g, only)
    yield from go(f)


def literals(f):
    r = []
    for a, v in f.map.items():
        if not t.isbool(a) or a.op in ('and', 'or', 'not', 'ite', 'int'):
            continue
        if v is TRUE:
            r.append(a)
        elif v is FALSE:
            r.append(not_(a))
    # equalities recorded as values
    for a, v in f.map.items():
        if not t.isbool(a) and v.op in ('int', 'lit'):
            e = eq(a, v)
            if e not in r and e.op != 'int':
                r.append(e)
    return r


def arith_ok(ls):
    """Do the comparisons with constants leave a value for every integer?"""
    box = {}

    def of(x, ty=None):
        return box.setdefault(x, {'ne': set(), 'eq': None, 'c': []})
    for l in ls:
        neg = l.op == 'not'
        a = l.args[0] if neg else l
        if a.op == 'eq':
            for x, y in (a.args, a.args[::-1]):
                if y.op == 'int' and x.op != 'int':
                    b = of(x)
                    if neg:
                        b['ne'].add(y.args[0])
                    elif b['eq'] not in (None, y.args[0]):
                        return False
                    else:
                        b['eq'] = y.args[0]
        elif a.op == 'lt':
            ty, x, y = a.args
            if x.op != 'int' and y.op == 'int':
                of(x)['c'].append((ty, '<' if not neg else '>=', y.args[0]))
            elif y.op != 'int' and x.op == 'int':
                of(y)['c'].append((ty, '>' if not neg else '<=', x.args[0]))
    if not ordered(ls):
        return False
    for x, b in box.items():
        if b['eq'] is not None:
            v = b['eq']
            if v in b['ne']:
                return False
            for ty, o, k in b['c']:
                p, q = (t.sval(v, int(ty[1:])), t.sval(k, int(ty[1:]))) if ty[0] == 's' else (v, k)
                if not {'<': p < q, '>=': p >= q, '>': p > q, '<=': p <= q}[o]:
                    return False
            continue
        tys = set(c[0] for c in b['c'])
        if len(tys) != 1:
            continue
        ty = tys.pop()
        bits = int(ty[1:])
        sg = ty[0] == 's'
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        for _, o, k in b['c']:
            k = t.sval(k, bits) if sg else k
            if o == '<':
                hi = min(hi, k - 1)
            elif o == '<=':
                hi = min(hi, k)
            elif o == '>':
                lo = max(lo, k + 1)
            else:
                lo = max(lo, k)
        ne = set(t.sval(v, bits) if sg else v for v in b['ne'])
        while lo in ne:
            lo += 1
        if lo > hi:
            return False
    return True


def ordered(ls):
    """Is there an order of the terms with all these equalities and comparisons?"""
    same, less = [], []
    for l in ls:
        neg = l.op == 'not'
        a = l.args[0] if neg else l
        if a.op == 'lt':
            ty, x, y = a.args
            less.append((ty, y, x, False) if neg else (ty, x, y, True))
        elif a.op == 'eq' and not neg:
            same.append(a.args)
    if len(less) + len(same) < 2 or not less:
        return True
    rep = {}

    def find(x):
        while x in rep:
            x = rep[x]
        return x
    for x, y in same:
        x, y = find(x), find(y)
        if x is not y:
            if y.op == 'int':
                x, y = y, x
            rep[y] = x
    for ty in {e[0] for e in less}:
        d = {}
        for e in less:
            if e[0] == ty:
                k = (find(e[1]), find(e[2]))
                d[k] = d.get(k, False) or e[3]
        ns = sorted({x for k in d for x in k}, key=lambda x: x.id)
        if len(ns) > 40:
            continue
        for b in ns:
            for a in ns:
                if (a, b) in d:
                    for c in ns:
                        if (b, c) in d:
                            s = d[a, b] or d[b, c]
                            d[a, c] = d.get((a, c), False) or s
        if any(d.get((x, x)) for x in ns):
            return False
    return True


def isopen(x):
    if x.op in OPEN:
        return True
    if x.op == 'ext':
        return not str(x.args[0]).startswith('slog')
    return False


def leaves(x, kind, out, bad):
    """Maximal uninterpreted subterms with how they are used."""
    o = x.op
    if o in ('int', 'lit', 'agg') and not any(isinstance(a, t.T) for a in x.args):
        return
    if o == 'in':
        leaves(x.args[0], 'val', out, bad)
        leaves(x.args[1], 'seq', out, bad)
        return
    if o == 'intersects':
        leaves(x.args[0], 'seq', out, bad)
        leaves(x.args[1], 'seq', out, bad)
        return
    if o in ('exists', 'star'):
        leaves(x.args[0], 'seq', out, bad)
        inner, ibad = {}, []
        leaves(x.args[1], 'val', inner, ibad)
        for k, v in inner.items():
            if not t.occurs(k, x.args[2]):
                out.setdefault(k, v)
            elif k is not x.args[2]:
                bad.append(k)
        bad += [k for k in ibad if not t.occurs(k, x.args[2])]
        return
    if o in TEXT:
        for a in x.args:
            if isinstance(a, t.T):
                leaves(a, 'val' if o in ('dec', 'sdec') else 'bytes', out, bad)
        return
    if o == 'len':
        leaves(x.args[0], 'seq', out, bad)
        return
    if o == 'at' and x.args[0].op in INTERP:
        leaves(x.args[0], 'seq', out, bad)
        leaves(x.args[1], 'val', out, bad)
        return
    if o == 'at' and x.args[1].op == 'int':
        out.setdefault(x, 'val')
        return
    if o in ('cat', 'slice'):
        for a in x.args:
            if isinstance(a, t.T):
                leaves(a, 'seq', out, bad)
        return
    if o == 'raw':
        if x.args[1].op in ('int', 'sym'):
            out[x] = 'seq'
        leaves(x.args[1], 'val', out, bad)       # a view of other length follows from the memory at its base
        return
    if o == 'eq':
        k = 'val'
        for a in x.args:
            if a.op in ('lit', 'cat', 'slice', 'unit', 'dec', 'sdec', 'pjoin', 'file_name', 'lossy', 'mapval', 'fun'):
                k = 'bytes'
        for a in x.args:
            leaves(a, k, out, bad)
        return
    if o in INTERP:
        for a in x.args:
            if isinstance(a, t.T):
                leaves(a, 'val', out, bad)
        return
    if t.anyop(x, isopen):
        bad.append(x)
    k = out.get(x)
    if x.op == 'mapval':
        kind = 'bytes'
    if k is None or k == 'val':
        out[x] = kind


def consts(x, ints, strs):
    seen = set()

    def go(y):
        if isinstance(y, t.T):
            if y in seen:
                return
            seen.add(y)
            if y.op == 'int':
                ints.add(y.args[0])
            elif y.op == 'lit':
                strs.add(y.args[0])
            elif y.op in INTERP:
                for a in y.args:
                    go(a)
        elif isinstance(y, tuple):
            for a in y:
                go(a)
    go(x)


def atom_of(l):
    return l.args[0] if l.op == 'not' else l


_leaves = {}


def info(l):
    """(inputs with how they are used, parts the analysis left open) of a literal."""
    r = _leaves.get(l)
    if r is None:
        lv, bad = {}, []
        a = atom_of(l)
        if a.op in FREE or a.op not in INTERP:
            # outcomes of the environment can be what they like
            if (a.op not in OUTCOME or a.op == 'bool' and a.args[0] == 'ext') and t.anyop(a, isopen):
                bad.append(a)
        else:
            leaves(a, 'val', lv, bad)
        r = _leaves[l] = (lv, bad)
    return r


def groups(lits):
    """The literals that constrain inputs, grouped by shared inputs."""
    out = []
    for l in lits:
        lv = set(info(l)[0])
        if not lv:
            continue
        cs, rest = [l], []
        for k, g in out:
            if k & lv:
                lv |= k
                cs = g + cs
            else:
                rest.append((k, g))
        out = rest + [(lv, cs)]
    return [g for _, g in out]


_solved = {}


def solve(lits, budget=1500):
    """Values that make every literal of a group true, or None."""
    key = frozenset(lits)
    if key in _solved:
        return _solved[key]
    ints, strs = set(), set()
    kinds = {}
    for l in lits:
        consts(l, ints, strs)
        for x, k in info(l)[0].items():
            if kinds.get(x, 'val') == 'val':
                kinds[x] = k
    small = sorted(ints)[:16]
    pool = list(dict.fromkeys(small + [v + 1 for v in small[:8]] + [v - 1 for v in small[:8] if v > 0] + [1, 2, 3]))
    nums = [b'%d' % v for v in pool[:6]]
    long = []
    if any(t.anyop(l, lambda y: y.op == 'len') for l in lits):
        long = [v for v in small if 3 < v <= 4096][:4]
    big = []
    if any(t.anyop(l, lambda y: y.op in ('trunc', 'sext', 'sdec')) for l in lits):
        big = [0x80000000, 0xffffffff]
    elif any(t.anyop(l, lambda y: y.op == 'lt' and y.args[0] == 's32') for l in lits):
        big = [0xffffffff]
    # paths that views of a path can not tell apart
    twins = []
    ops = set()
    for l in lits:
        t.anyop(l, lambda y: ops.add(y.op) and False)
    if ops & {'file_name', 'has_name', 'path_ends'}:
        twins += [b'/e/' + t._base(b) for b in sorted(strs)[:6] if t._base(b)] + [b'/e/a', b'/f/a']
    if 'path_starts' in ops:
        twins += [b + b'/x' for b in sorted(strs)[:6]] + [b'/d/x']
    if 'fun' in ops:
        twins += [b.swapcase() for b in sorted(strs)[:6]] + [b' ' + b + b' ' for b in sorted(strs)[:4]] + [b'/D', b' 7 ']
    if 'lossy' in ops:
        twins += [b'/\xff', b'/\xfe', b'/\xef\xbf\xbd']
    narrow = set()
    if big and any(x.op == 'raw' for x in kinds):
        for l in lits:
            t.anyop(l, lambda y: y.op == 'trunc' and y.args[0] in (8, 16) and (narrow.add(y.args[0]), False)[1])
    n = [0]
    # the length of memory the caller passes goes with its content
    lengths = {r.args[1]: r for r in kinds if r.op == 'raw' and not isinstance(r.args[1], int)}

    def domain(x):
        kind = kinds.get(x, 'val')
        if x.op == 'ekind':
            ks = {}
            for l in lits:
                t.anyop(l, lambda y: y.op == 'agg' and len(y.args) == 1 and ks.setdefault(y) and False)
            return [k for k in list(ks) + [mk('agg', 40), mk('agg', 39)] if k.args[0] != x.args[1]]
        if x.op == 'discr':
            return [I(i) for i in range(x.args[1])]
        if x.op == 'fld' and str(x.args[1]) == 'st_mode':
            return [I(m) for m in [0o040700, 0o040750, 0o040755, 0o040777, 0o100700, 0o020600, 0o140700, 0o060700,
                                   0o040720, 0o040702, 0o041777, 0o120777, 0o000700, 0o050700, 0o140755, 0o100644, 0o041700, 0o042700, 0o044700]]
        if x.op == 'sym' and x.args[0] == 'version':
            return [I((a << 16) | b) for a in (0, 1, 2, 9) for b in (0, 8, 9, 10, 17)]
        if kind == 'bytes':
            return [t.lit(s) for s in dict.fromkeys([b'/' + b'a' * v for v in long] + sorted(strs)[:10] + [b'7', b'/d', b'7,8', b'other', b'\xffodd'] + twins + [b'0', b'a\0b',
                                                                         b''] + nums)]
        if x.op == 'raw' and x.args[1].op == 'int':
            k = x.args[1].args[0]
            return [t.lit(b'z' * k)] if k < 1 << 20 else []
        if kind == 'seq':
            return [t.lit(b'ab' * (1 << b - 1)) for b in sorted(narrow) if x.op == 'raw'] + [t.lit(b'\xff')] * bool(ops & {'lossy', 'valid'}) + [t.EMPTY] + [t.unit(I(v)) for v in pool[:8]] + [t.cat(t.unit(I(7)), t.unit(I(8)))] + \
                [t.lit(b'a' * (v + 1)) for v in long] + [t.lit(s) for s in sorted(strs)[:6] if s]
        if t.isbool(x):
            return [TRUE, FALSE]
        if x.op == 'at' and x.args[0].op == 'rbuf':
            # a byte
            return [I(v) for v in dict.fromkeys(pool + (list(range(256)) if ops & (BITS | {'fun', 'lossy', 'valid'}) else [])) if v < 256]
        return [I(v) for v in pool + big]

    def known(w):
        """leaf := constant, if that is what the literal says"""
        if w.op == 'eq':
            for x, y in (w.args, w.args[::-1]):
                if y.op in ('int', 'lit') and x in kinds and x not in lengths and x.op != 'raw':
                    return x, y
        if w in kinds:
            return w, TRUE
        if w.op == 'not' and w.args[0] in kinds:
            return w.args[0], FALSE
        return None

    def go(ws, val):
        n[0] += 1
        if n[0] > budget:
            return None
        ws = [w for w in ws if w is not TRUE]
        if any(w is FALSE for w in ws):
            return None
        if not ws:
            return val
        for w in ws:
            k = known(w)
            if k is not None:
                return go([t.subst(u, {k[0]: k[1]}) for u in ws], val + [k])
        best = None
        for w in ws:
            lv = info(w)[0]
            if not lv:
                return None
            if best is None or len(lv) < len(best):
                best = lv
        x = max(best, key=lambda y: (sum(1 for w in ws if y in info(w)[0]), -y.id))
        kinds.setdefault(x, best[x])
        x = lengths.get(x, x)
        for v in domain(x):
            m = {x: v}
            if x.op == 'raw' and x in kinds:
                m[x.args[1]] = t.length(v)
            us = [t.subst(w, m) for w in ws]
            if x.op == 'raw':
                # other views of the same memory
                other = {y: t.slice_(v, I(0), y.args[1]) for w in us for y in info(w)[0]
                         if y.op == 'raw' and y.args[0] is x.args[0] and y.args[1].op == 'int'
                         and t.length(v).op == 'int' and y.args[1].args[0] <= t.length(v).args[0]}
                if other:
                    us = [t.subst(w, other) for w in us]
            r = go(us, val + [(x, v)])
            if r is not None:
                return r
        return None
    r = _solved[key] = go(list(lits), [])
    return r


def realise(lits):
    """(values, None) for the inputs that make every literal true, or (None, literals that could not be made true)."""
    for l in lits:
        if info(l)[1]:
            return None, [l]
    # outcomes of the environment that other literals depend on
    free = {atom_of(l): (FALSE if l.op == 'not' else TRUE) for l in lits if atom_of(l).op in FREE}
    back = {}
    if free:
        new = []
        for l in lits:
            if atom_of(l) in free:
                new.append(l)
                continue
            used = [a for a in free if t.occurs(l, a)]
            if not used:
                new.append(l)
                continue
            k = t.subst(l, {a: free[a] for a in used}, fix=True)
            core = [l] + [a if free[a] is TRUE else not_(a) for a in used]
            if k is FALSE:
                return None, core
            if k is TRUE:
                continue
            if info(k)[1]:
                return None, core
            back.setdefault(k, core)
            new.append(k)
        if back:
            w, core = realise_flat(new)
            if w is None:
                core = list(dict.fromkeys(y for l in core for y in back.get(l, [l])))
            return w, core
    return realise_flat(lits)


def realise_flat(lits):
    val = []
    for g in groups(lits):
        r = solve(g)
        if r is None:
            core = list(g)
            for l in g if len(g) <= 24 else ():
                rest = [k for k in core if k is not l]
                if rest and all(solve(h, 300) is not None for h in groups(rest)):
                    continue
                core = rest
            return None, core or list(g)
        val += r
    return val + [(l, TRUE) for l in lits if not info(l)[0]], None


_proofs = {}


def related(lits, seed):
    """The literals that share an atom with the seed."""
    return [l for l in lits if atoms(l) & seed]


def contradictory(lits, cap):
    k = frozenset(lits)
    r = _proofs.get(k)
    if r is None:
        try:
            r = not any(True for _ in rows(lits, cap))
        except Budget:
            r = False
        _proofs[k] = r
    return r


class Row(list):
    """The literals of a row; `core`: those no values were found for."""
    core = None


def _prove(premises, goal, cap=20000, tries=60):
    """('proved', None), ('violated', witness) or ('unknown', why)."""
    ng = not_(goal)
    if ng is FALSE:
        return 'proved', None
    lits = list(dict.fromkeys(list(premises) + ([] if ng is TRUE else [ng])))
    if any(l is FALSE for l in lits):
        return 'proved', None
    lits = [l for l in lits if l is not TRUE]
    seed = atoms(ng) if ng is not TRUE else frozenset()
    if seed:
        if contradictory(related(lits, seed), cap):
            return 'proved', None
    last = None
    try:
        for _ in range(tries):
            f = next(rows(lits, cap), None)
            if f is None:
                return ('proved', None) if last is None else ('unknown', last)
            last = Row(literals(f))
            w, core = realise(last)
            last.core = core
            if w is not None:
                return 'violated', w
            lits.append(not_(and_(*core)))
    except Budget:
        return 'unknown', 'budget'
    return 'unknown', last


def prove(premises, goal, cap=20000, tries=60, depth=10, end=None):
    """As _prove; what it leaves open is retried case by case, over the conditions buried in the terms."""
    end = end or time.time() + 60
    r = _prove(premises, goal, cap, tries)
    if r[0] != 'unknown' or depth == 0 or not isinstance(r[1], list):
        return r
    core = getattr(r[1], 'core', None)
    a = buried(core) if core else None
    same = equated(core) if core and a is None else None
    if a is None and same is None and not (core and any(info(l)[1] for l in core)):
        a = buried(r[1])
    if same is not None:
        # one side of an equality stands for the other, or they differ
        a, x, y = same
        cases = [({x: y}, []), ({a: FALSE}, [not_(a)])]
    elif a is not None:
        cases = [({a: TRUE}, [a]), ({a: FALSE}, [not_(a)])]
    else:
        return r
    out = ('proved', None)
    for m, more in cases:
        if time.time() > end:
            return r
        q = prove([t.subst(l, m, fix=True) for l in premises] + more, t.subst(goal, m, fix=True), cap, tries, depth - 1, end)
        if q[0] == 'violated':
            return q
        if q[0] == 'unknown':
            out = q
    return out


def equated(lits):
    """(equality, leaf, other side) of a group where other literals look at the leaf."""
    for l in lits:
        if l.op != 'eq':
            continue
        for x, y in (l.args, l.args[::-1]):
            if x.op in ('fld', 'mapval', 'sym') and x in info(l)[0] and not t.occurs(y, x) and not t.isbool(x) and \
                    any(k is not l and t.occurs(k, x) for k in lits):
                return l, x, y
    return None


def buried(lits):
    """A condition on which a term within one of the literals depends."""
    seen = set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                r = go(z)
                if r is not None:
                    return r
            return None
        if not isinstance(y, t.T) or y in seen:
            return None
        seen.add(y)
        args = y.args
        if args and isinstance(args[-1], t.T) and args[-1].op == 'x' and len(args) > 1:
            args = args[:1]
        for z in args:
            r = go(z)
            if r is not None:
                return r
        if y.op == 'ite':
            for a in sorted(atoms(y.args[0]), key=lambda z: z.id):
                return a
        return None
    for l in lits:
        r = go(l)
        if r is not None:
            return r
    return None


def show_witness(w):
    if w is None or isinstance(w, str):
        return str(w)
    out = []
    for x in w:
        if isinstance(x, tuple):
            a, v = x
            s = str(a)
            if v is TRUE and t.isbool(a):
                out.append(s[:160])
            else:
                out.append('%s = %s' % (s[:120], v))
        else:
            out.append(str(x)[:160])
    return '; '.join(out)
