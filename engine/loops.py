"""Loops: generalisation of the header state to a fixpoint, then summaries.

The memory at a loop header is generalised leaf by leaf: whatever an iteration
changes becomes a phi symbol. Once the header state is stable, counting loops
over a sequence are summarised (accumulators become stars, flags and early
exits become existential formulas); anything else keeps its phi symbols, which
stand for an arbitrary value."""
from . import terms as t
from .terms import mk, I, TRUE, FALSE, UNINIT, ptr, not_, and_, or_, ite, eq

MAXPEEL = 300
UNROLL = 3
_version = {}
X = t.x(900)


def is_phi(v):
    return v.op in ('phi', 'bphi')


def phis_in(v, acc):
    seen = set()

    def go(y):
        if isinstance(y, t.T):
            if y in seen:
                return
            seen.add(y)
            if is_phi(y):
                acc.add(y)
                return
            for a in y.args:
                go(a)
        elif isinstance(y, tuple):
            for a in y:
                go(a)
    go(v)
    return acc


class Shape(Exception):
    """A value changes its constructor: peel an iteration first."""


class Gen:
    def __init__(self, key, strict):
        self.key = key
        self.strict = strict
        self.demoted = set()
        self.changed = False

    def fresh(self, loc, boolean):
        op = 'bphi' if boolean and loc not in self.demoted else 'phi'
        self.changed = True
        return mk(op, self.key, loc)

    def gen(self, h, bs, loc):
        bs = [b for b in bs if b is not h]
        if not bs:
            return h
        if is_phi(h) and h.args[0] is self.key:
            if h.op == 'bphi' and not all(t.isbool(b) for b in bs):
                self.demoted.add(h.args[1])
                return self.fresh(h.args[1], False)
            return h
        if h is UNINIT:
            raise Shape() if self.strict else Never()
        if h.op == 'agg' and all(b.op == 'agg' for b in bs):
            if all(b.args[0] == h.args[0] and len(b.args) == len(h.args) for b in bs):
                return mk('agg', h.args[0], *[
                    self.gen(h.args[i], [b.args[i] for b in bs], loc + (i,)) for i in range(1, len(h.args))])
            if self.strict:
                raise Shape()
        if h.op in ('set', 'map') and all(b.op == h.op for b in bs):
            return mk(h.op, self.gen(h.args[0], [b.args[0] for b in bs], loc + (h.op,)))
        base = h.args[0] if h.op == 'poff' else h
        if all((b.op == 'poff' and b.args[0] is base) or b is base for b in bs):
            hi = h.args[1] if h.op == 'poff' else I(0)
            bi = [b.args[1] if b.op == 'poff' else I(0) for b in bs]
            return mk('poff', base, self.gen(hi, bi, loc + ('off',)))
        if h.op == 'ptr' and h.args[1] and h.args[1][-1][0] == 'i':
            pre = (h.args[0], h.args[1][:-1])
            if all(b.op == 'ptr' and b.args[1] and b.args[1][-1][0] == 'i' and (b.args[0], b.args[1][:-1]) == pre
                   for b in bs):
                ix = self.gen(h.args[1][-1][1], [b.args[1][-1][1] for b in bs], loc + ('i',))
                return ptr(h.args[0], h.args[1][:-1] + (('i', ix),))
        if self.strict and h is TRUE and all(b is FALSE for b in bs):
            raise Shape()               # the first iteration is special
        return self.fresh(loc, t.isbool(h) and all(t.isbool(b) for b in bs))


class Never(Exception):
    pass


def leaf_value(v, h, key, loc, want, out):
    """Collects the value that v has at each phi position of h."""
    if is_phi(h) and h.args[0] is key:
        out[h] = v
        return
    if h is v:
        return
    if h.op == 'agg' and v.op == 'agg':
        for a, b in zip(v.args[1:], h.args[1:]):
            leaf_value(a, b, key, loc, want, out)
    elif h.op in ('set', 'map') and v.op == h.op:
        leaf_value(v.args[0], h.args[0], key, loc, want, out)
    elif h.op == 'poff':
        leaf_value(v.args[1] if v.op == 'poff' else I(0), h.args[1], key, loc, want, out)
    elif h.op == 'ptr' and v.op == 'ptr' and h.args[1] and h.args[1][-1][0] == 'i' and v.args[1]:
        leaf_value(v.args[1][-1][1], h.args[1][-1][1], key, loc, want, out)


def run(ip, S):
    F = S.top()
    header = F.bb
    body = F.fn.cfg()[1][header]
    depth = len(S.stack)
    out = []
    X0 = S
    for _ in range(ip.maxpeel or MAXPEEL):
        backs, exits = ip.iterate(X0, header, body, depth)
        if not backs:
            return exits
        if len(backs) == 1 and not exits:
            X0 = backs[0]
            continue
        break
    # a short loop may simply end
    first = (backs, exits)
    cur, acc, done = backs, list(exits), False
    growing = any(len(b.events) > len(X0.events) for b in backs)
    if not growing:
        for _ in range(UNROLL):
            if len(cur) != 1:
                break
            b2, e2 = ip.iterate(cur[0], header, body, depth)
            acc.extend(e2)
            if not b2:
                return acc
            cur = b2
    # generalise, peeling while values change their constructor
    pre = []
    for n in range(3):
        try:
            return pre + generalise(ip, X0, header, body, depth, first, strict=n < 2)
        except Shape:
            backs, exits = first
            pre += exits
            if len(backs) != 1:
                b = ip.merge_all(backs) if len({x.events for x in backs}) == 1 else None
                if b is None:
                    return pre[:len(pre) - len(exits)] + generalise(ip, X0, header, body, depth, first, False)
                backs = [b]
            X0 = backs[0]
            first = ip.iterate(X0, header, body, depth)
            if not first[0]:
                return pre + first[1]
    return pre


def generalise(ip, S, header, body, depth, first, strict):
    fid = S.top().fid
    base = (fid, header)
    v = _version.get(base, 0)
    # a symbol of an earlier visit may still be around in this state
    _version[base] = v + 1
    key = mk('loopkey', fid, header, v)
    H = S
    backs, exits = first
    G = Gen(key, strict)
    grew = False
    for _ in range(40):
        G.changed = False
        N = S.copy()
        mem = {}
        for r, h in H.mem.items():
            bs = []
            gone = False
            for b in backs:
                w = b.mem.get(r)
                if w is None:
                    if r.op == 'loc':
                        gone = True
                        break
                    w = ip.root_value(b, r)
                if w is not h:
                    w = b.facts.simp(w)
                    if w is not h and w is b.facts.simp(h):
                        w = h
                if w is not UNINIT or h is UNINIT:
                    bs.append(w)
                else:
                    gone = r.op == 'loc'
            if gone:
                G.changed = G.changed or r in H.mem
                continue
            try:
                mem[r] = G.gen(h, bs, (r,))
            except Never:
                G.changed = True
        for b in backs:
            for r, w in b.mem.items():
                if r.op != 'loc' and r not in H.mem and r.op == 'static':
                    h = ip.root_value(S.copy(), r)
                    if h is not w and r not in mem:
                        mem[r] = G.gen(h, [w], (r,))
        if not grew and any(len(b.events) > len(H.events) for b in backs):
            grew = True
            G.changed = True
        N.mem = mem
        if grew:
            N.events = S.events + (mk('ev', 'loop', key),)
        if not G.changed:
            break
        H = N
        backs, exits = ip.iterate(H, header, body, depth)
    else:
        raise_undecided('loop does not stabilise')
    phis = {}
    for r, h in H.mem.items():
        ps = phis_in(h, set())
        mine = [p for p in ps if p.args[0] is key]
        if mine:
            o = {}
            leaf_value(S.mem[r] if r in S.mem else ip.root_value(S.copy(), r), h, key, (r,), None, o)
            for p in mine:
                phis[p] = o.get(p)
    ups = []
    for b in backs:
        u = {}
        for r, h in H.mem.items():
            w = b.mem.get(r)
            if w is None:
                w = ip.root_value(b, r) if r.op != 'loc' else UNINIT
            leaf_value(w, h, key, (r,), None, u)
        ups.append({p: b.facts.simp(u.get(p, p)) for p in phis})
    rec = {'key': key, 'entry': S, 'head': H, 'phis': phis, 'backs': backs, 'ups': ups, 'exits': exits,
           'grew': grew, 'fn': S.top().fn, 'resolved': {}}
    ip.loops[key] = rec
    return summarise(ip, rec)


def raise_undecided(msg):
    from .interp import Undecided
    raise Undecided(msg)


def conds(S, H):
    return list(S.path[len(H.path):])


def flat(lits):
    out = []
    for c in lits:
        if c.op == 'and':
            out.extend(flat(c.args))
        else:
            out.append(c)
    return out


def find_index(rec):
    """(phi, sequence, rewriting): the loop walks over a sequence."""
    H = rec['head']
    bc = [flat(conds(b, H)) for b in rec['backs']]
    own = set(rec['phis'])
    cands = []
    for p, init in rec['phis'].items():
        if init is None:
            continue
        if all(u[p] is t.arith('add', 64, p, I(1)) for u in rec['ups']):
            cands.append(p)
    for p in cands:
        seqs = None
        for c in bc:
            s = {l.args[2].args[0] for l in c if l.op == 'lt' and l.args[0] == 'u64' and l.args[1] is p
                 and l.args[2].op == 'len' and not (phis_in(l.args[2], set()) & own)}
            seqs = s if seqs is None else seqs & s
        if seqs:
            return p, sorted(seqs, key=lambda y: y.id)[0], {}
    for p in cands:
        # a sequence whose length is a sum
        seqs = None
        for b, c, u in zip(rec['backs'], bc, rec['ups']):
            ns = {l.args[2] for l in c if l.op == 'lt' and l.args[0] == 'u64' and l.args[1] is p}
            s = set()
            for v in list(u.values()) + c + [x for e in rec['exits'] for x in conds(e, H)]:
                walked(v, p, ns, s)
            for e in b.events[len(H.events):]:
                walked(e, p, ns, s)
            s = {y for y in s if not (phis_in(y, set()) & own)}
            seqs = s if seqs is None else seqs & s
        if seqs:
            return p, sorted(seqs, key=lambda y: y.id)[0], {}
    for p in cands:
        # a buffer given by address and length
        seqs = None
        for c, u in zip(bc, rec['ups']):
            ns = {l.args[2] for l in c if l.op == 'lt' and l.args[0] == 'u64' and l.args[1] is p}
            s = set()
            for v in list(u.values()) + c:
                raws(v, p, ns, s)
            s = {y for y in s if not (phis_in(y, set()) & own)}
            seqs = s if seqs is None else seqs & s
        if seqs:
            return p, sorted(seqs, key=lambda y: y.id)[0], {}
    for p in cands:
        arrs = None
        for c in bc:
            s = set()
            for l in c:
                if l.op == 'not' and l.args[0].op == 'eq':
                    for e, z in (l.args[0].args, l.args[0].args[::-1]):
                        if z is FALSE and e.op == 'at' and e.args[1] is p and e.args[0].op == 'array' \
                                and not (phis_in(e.args[0], set()) & own):
                            s.add(e.args[0])
            arrs = s if arrs is None else arrs & s
        if arrs and rec['phis'][p] is I(0):
            a = sorted(arrs, key=lambda y: y.id)[0]
            n = mk('nt', a.args[0])
            return p, n, {eq(t.at(a, p), FALSE): not_(t.lt('u64', p, t.length(n))), t.at(a, p): t.at(n, p)}
    return None


def walked(v, p, ns, out, seen=None):
    """The sequences that v indexes with p and whose length is one of ns."""
    seen = set() if seen is None else seen
    if not isinstance(v, t.T) or v in seen:
        return
    seen.add(v)
    if v.op == 'at' and v.args[1] is p and t.length(v.args[0]) in ns:
        out.add(v.args[0])
    for a in v.args:
        if isinstance(a, t.T):
            walked(a, p, ns, out, seen)
        elif isinstance(a, tuple):
            for b in a:
                walked(b, p, ns, out, seen)


def raws(v, p, ns, out, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(v, t.T) or v in seen:
        return
    seen.add(v)
    if v.op == 'at' and v.args[1] is p and v.args[0].op == 'raw' and v.args[0].args[1] in ns:
        out.add(v.args[0])
    for a in v.args:
        if isinstance(a, t.T):
            raws(a, p, ns, out, seen)
        elif isinstance(a, tuple):
            for b in a:
                raws(b, p, ns, out, seen)


def suffix(u, p):
    """h with u = cat(p, h), or None."""
    if u is p:
        return t.EMPTY
    if u.op == 'cat' and u.args[0] is p:
        return t.cat(*u.args[1:])
    if u.op == 'ite':
        a, b = suffix(u.args[1], p), suffix(u.args[2], p)
        if a is not None and b is not None:
            return ite(u.args[0], a, b)
    return None


def merged_update(rec, p, rw, C):
    us = [(c, t.subst(u[p], rw)) for c, u in zip(C, rec['ups'])]
    r = us[-1][1]
    for c, u in reversed(us[:-1]):
        r = ite(c, u, r)
    return r


def summarise(ip, rec):
    H, S = rec['head'], rec['entry']
    own = set(rec['phis'])
    ix = find_index(rec)
    if ix is None:
        return finish(ip, rec, None)
    p, s, rw = ix
    i0 = rec['phis'][p]
    dom = t.slice_(s, i0, None)
    below = t.lt('u64', p, t.length(s))
    th = dict(rw)
    # companions that count along
    for q, init in rec['phis'].items():
        if q is not p and init is not None and all(u[q] is t.arith('add', 64, q, I(1)) for u in rec['ups']) \
                and init.op == 'int' and i0.op == 'int':
            th[q] = t.arith('add', 64, p, I(init.args[0] - i0.args[0]))
            rec['resolved'][q] = 'counter'
    elem = {t.at(s, p): X}

    def sub(v):
        v = t.subst(v, th) if th else v
        return v

    def subx(v):
        return t.subst(sub(v), elem)
    C = []
    for b in rec['backs']:
        C.append(and_(*[subx(c) for c in flat(conds(b, H)) if sub(c) is not below]))
    full, early = [], []
    for e in rec['exits']:
        cs = [sub(c) for c in flat(conds(e, H))]
        if not_(below) in cs:
            full.append((e, [c for c in cs if c is not not_(below)]))
        elif below in cs:
            early.append((e, [c for c in cs if c is not below]))
        else:
            for out, v in ((full, FALSE), (early, TRUE)):
                c = and_(*[t.subst(x, {below: v}) for x in cs])
                if c is not FALSE:
                    out.append((e, [] if c is TRUE else flat([c])))
    grew = rec['grew']
    Q = or_(*[and_(*[t.subst(c, elem) for c in cs]) for e, cs in early]) if early else FALSE
    okQ = not grew and not (phis_in(Q, set()) & own)
    # accumulators
    accs = {}
    for q, init in rec['phis'].items():
        if q is p or q in th or init is None:
            continue
        accs[q] = t.subst(merged_update(rec, q, th, C), elem)
    final = {}      # q -> function of the domain

    def res(q):
        u, init = accs[q], rec['phis'][q]
        h = suffix(u, q)
        if h is not None and not (phis_in(h, set()) & own):
            return lambda d: t.cat(init, t.star(d, h, X))
        if q.op == 'bphi':
            u1, u0 = t.subst(u, {q: TRUE}), t.subst(u, {q: FALSE})
            if not (phis_in(u1, set()) & own) and not (phis_in(u0, set()) & own):
                if u1 is TRUE:
                    return lambda d: or_(init, t.exists(d, u0, X))
                if u0 is FALSE:
                    return lambda d: and_(init, not_(t.exists(d, not_(u1), X)))
        if u.op == 'ite':
            c, a, b = u.args
            if a is q:
                c, a, b = not_(c), b, a
            if b is q and not (phis_in(c, set()) & own) and not (phis_in(a, set()) & own) and not t.occurs(a, X):
                return lambda d: ite(t.exists(d, c, X), a, init)
        if not (phis_in(u, set()) & own):
            return lambda d: ite(eq(t.length(d), I(0)), init, t.subst(
                u, {X: t.at(d, t.arith('sub', 64, t.length(d), I(1)))}))
        return None
    for q in accs:
        f = res(q)
        if f is not None:
            final[q] = f
            rec['resolved'][q] = 'accumulator'
    rec['index'], rec['seq'], rec['domain'] = p, s, dom
    outs = []
    for e, cs in full:
        m = {p: t.length(s) if i0.op == 'int' else ite(t.lt('u64', t.length(s), i0), i0, t.length(s))}
        for q, f in final.items():
            m[q] = f(dom)
        extra = [not_(t.exists(dom, Q, X))] if okQ and early else []
        # dominated: the loop ran to its end from a start within the sequence
        outs.append(close(ip, rec, e, th, m, cs, extra, S))
    for e, cs in early:
        if okQ:
            k = mk('pos', dom, *t._canon(Q, X))
            m = {t.at(s, p): t.at(dom, k), p: t.arith('add', 64, i0, k)}
            extra = [t.exists(dom, Q, X)]
            d = t.slice_(dom, I(0), k)
        else:
            m = {}
            extra = [below]
            d = None
        if d is not None:
            for q, f in final.items():
                m[q] = f(d)
        else:
            for q, f in final.items():
                m[q] = f(t.slice_(s, i0, p))
        if okQ:
            # the element at which the loop stops satisfies the condition
            cs2 = [] if len(early) == 1 else [t.subst(c, m) for c in cs]
        else:
            cs2 = cs
        outs.append(close(ip, rec, e, th, m, cs2, extra, S))
    return [o for o in outs if o is not None]


def finish(ip, rec, _):
    """No summary: exit states keep the phi symbols."""
    return rec['exits']


def close(ip, rec, e, th, m, cs, extra, S):
    from .interp import Infeasible
    N = e.copy()
    full = dict(th)
    sub1 = lambda v: t.subst(t.subst(v, th), m) if th else t.subst(v, m)
    N.path, N.facts = S.path, S.facts
    try:
        for c in extra:
            N.assume(c)
        for c in cs:
            N.assume(t.subst(c, m))
    except Infeasible:
        return None
    memo1, memo2 = {}, {}

    def sb(v):
        if th:
            v = t.subst(v, th, memo1)
        return t.subst(v, m, memo2) if m else v
    mem = {}
    for r, v in N.mem.items():
        mem[sb(r)] = sb(v)
    N.mem = mem
    if N.ret is not None:
        N.ret = sb(N.ret)
    evs = []
    for ev in N.events:
        n = ev if ev.args[0] == 'loop' else sb(ev)
        if n is not ev and ev in ip.sites:
            ip.sites.setdefault(n, set()).update(ip.sites[ev])
        evs.append(n)
    N.events = tuple(evs)
    return N
