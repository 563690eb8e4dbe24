"""C13, C14, C26, C31, C32: configuration, prompts, templates."""
import itertools, os
from .lib import *
from .sess import *

FLAGS = {'sudoedit': '--edit', 'runas_user': '--user', 'runas_group': '--group', 'prompt': '--prompt', 'login_shell': '--login',
         'run_shell': '--shell', 'set_home': '--set-home', 'preserve_environment': '--preserve-env',
         'preserve_groups': '--preserve-groups', 'ignore_ticket': '--reset-timestamp', 'noninteractive': '--non-interactive',
         'login_class': '--login-class', 'selinux_role': '--role', 'selinux_type': '--type', 'bsd_auth_type': '--auth-type',
         'close_from': '--close-from', 'remote_host': '--host', 'timeout': '--command-timeout'}
SP = t.lit(b' ')


def tyid(p, suffix):
    r = next((i for i, x in enumerate(p.types) if x.get('def', '').endswith(suffix)), None)
    if r is None:
        raise session.Missing(suffix)
    return r


def local_fn(p, suffix):
    f = next((f for f in p.fns if f.j.get('local') and f.body is not None and f.defn.endswith(suffix)), None)
    if f is None:
        raise session.Missing(suffix)
    return f


# -- lists of texts, some conditional

def items(L):
    """A list term as [(condition, text)] and ('each', list, text, variable) entries, or None."""
    if L is t.EMPTY:
        return []
    if L.op == 'unit':
        return [(TRUE, L.args[0])]
    if L.op == 'cat':
        r = []
        for a in L.args:
            x = items(a)
            if x is None:
                return None
            r += x
        return r
    if L.op == 'ite':
        a, b = items(L.args[1]), items(L.args[2])
        if a is None or b is None:
            return None
        r = []
        for x, y, cond in ((a, b, L.args[0]), (b, a, not_(L.args[0]))):
            for e in x:
                if len(e) != 2:
                    return None
                r.append((and_(cond, e[0]), e[1]))
        return r
    if L.op == 'star' and L.args[1].op == 'unit':
        return [('each', L.args[0], L.args[1].args[0], L.args[2])]
    return [('each', L, t.x(t.bdepth(L)), t.x(t.bdepth(L)))] if L.op in ('fld', 'sym') else None


def spaced(T, sep=SP):
    """A text as its first item and then [(condition, item)] entries each preceded by a separator, or None."""
    def flat(X):
        if X is t.EMPTY:
            return []
        if X.op == 'cat':
            r = []
            i = 0
            while i < len(X.args):
                a = X.args[i]
                x = flat(a)
                if x is None:
                    return None
                r += x
                i += 1
            return r
        if X.op == 'ite':
            c, a, b = X.args
            if b is t.EMPTY:
                c, a, b = not_(c), b, a
            if a is t.EMPTY and b.op == 'cat' and len(b.args) == 2 and b.args[0] is sep and b.args[1].op == 'joined' and \
                    b.args[1].args[1] is sep:
                L = items(b.args[1].args[0])
                if L is None or any(len(e) != 2 for e in L):
                    return None
                none = and_(*[not_(e[0]) for e in L])
                if logic.prove([c], none)[0] != 'proved' or logic.prove([none], c)[0] != 'proved':
                    return None
                return [('item', e[0], e[1]) for e in L]
            x, y = flat(a), flat(b)
            if x is None or y is None:
                return None
            r = []
            for z, cond in ((x, c), (y, not_(c))):
                text = []
                for e in z:
                    if e[0] == 'text':
                        text.append(e[1])
                    else:
                        return None
                if text:
                    r.append(('maybe', cond, t.cat(*text)))
            return r
        if X.op == 'star':
            return [('star', X)]
        if X.op == 'joined':
            L = items(X.args[0])
            if X.args[1] is not sep or not L or len(L[0]) != 2 or L[0][0] is not TRUE:
                return None
            r = [('text', L[0][1])]
            for e in L[1:]:
                if len(e) == 2:
                    r.append(('item', e[0], e[1]))
                else:
                    r.append(('star', t.star(e[1], t.cat(sep, e[2]), e[3])))
            return r
        return [('text', X)]
    f = flat(T)
    if f is None:
        return None
    out = []
    for e in f:
        if e[0] == 'maybe':
            b = e[2]
            if b.op == 'lit' and b.args[0][:1] == sep.args[0]:
                out.append((e[1], t.lit(b.args[0][1:])))
            elif b.op == 'cat' and b.args[0].op == 'lit' and b.args[0].args[0][:1] == sep.args[0]:
                out.append((e[1], t.cat(t.lit(b.args[0].args[0][1:]), *b.args[1:])))
            else:
                return None
        elif e[0] == 'item':
            out.append((e[1], e[2]))
        elif e[0] == 'star':
            out.append(('each', e[1]))
        elif not out or out[-1][0] == 'first':
            out.append(('first', e[1]))
        else:
            return None
    return out


def c26(c):
    p = program('repo', 'sudo_plugin')
    f = local_fn(p, 'io_env::IoEnv::invocation')
    et, st = tyid(p, 'io_env::IoEnv'), tyid(p, 'settings::Settings')
    fields = {x[0]: x[1] for x in p.types[st]['variants'][0]['fields']}
    w = {f.name}
    known = {k: v for k, v in FLAGS.items() if k in fields}
    for k in FLAGS:
        if k not in fields:
            c.unknown('each flag', k, 'no such setting')
    is_bool = {k: p.types[fields[k]]['k'] == 'bool' for k in known}
    S = sym('settings')
    prog = t.fld(S, 'progname')
    edit = not_(eq(prog, t.lit(b'sudoedit')))

    def text(k):
        v = sym('value_' + k)
        return t.cat(t.lit(known[k].encode()), *([] if is_bool[k] else [SP, t.pval('dec', v) if 0 else mk('dec', v) if numeric(k) else v]))

    def numeric(k):
        return 'u64' in p.tname(fields[k]) or 'u32' in p.tname(fields[k])

    def run(present, cmdline=None):
        kn = {}
        if present is not None:
            for k in known:
                on = k in present
                kn[k] = I(int(on)) if is_bool[k] else models.some(sym('value_' + k)) if on else models.NONE
        env = {'settings': session.struct_of(p, st, 'settings', **kn)}
        if cmdline is not None:
            env['cmdline'] = cmdline
        ip = engine(p, session.Boundary(invocation=False))
        ip.maxpeel = 1300
        out = ip.run(f, [t.tmp(session.struct_of(p, et, 'env', **env))])
        c.fns.update(g.name for g in ip.fns_seen if g.j.get('local'))
        c.count('cases')
        r = []
        for s in out:
            if s.kind == 'undecided':
                c.unknown('analysis', f.name, s.notes[-1] if s.notes else '?')
            elif s.kind != 'return':
                c.prove('never panics', 'invocation', list(s.path), FALSE, 'reconstructing the invocation can panic', w)
            else:
                r.append((list(s.path), s.ret))
        return r
    X = t.x(0)
    tail = t.star(t.fld(sym('env'), 'cmdline'), t.cat(SP, X), X)

    # every case of at most two settings, and all of them
    def case(present, cmdline=None, args=tail):
        got = run(present, cmdline)
        extra = [edit] if 'sudoedit' in present else []
        ts = [text(k) for k in present]
        orders = [ts] if len(ts) < 2 else [ts, ts[::-1]]
        wants = [t.cat(prog, *[t.cat(SP, x) for x in o], args) for o in orders]
        name = ' '.join(known[k] for k in present) or 'no flags'
        for prem, r in got:
            c.prove('flags and arguments', name, prem + extra, or_(*[eq(r, x) for x in wants]),
                    'with %s the reconstructed invocation is %s' % (name, t.show(r)[:200]), w)
            if present == ['sudoedit']:
                c.prove('flags and arguments', 'sudoedit', prem + [not_(edit)], eq(r, t.cat(prog, args)),
                        'the invocation of sudoedit itself shows --edit', w)
    ks = sorted(known)
    case([])
    for k in ks:
        case([k])
    for i, k in enumerate(ks):
        for l in ks[i + 1:]:
            case([k, l])
    for n in range(4):
        av = [sym('argv%d' % i) for i in range(n)]
        case([], t.cat(*[mk('unit', a) for a in av]), t.cat(*[t.cat(SP, a) for a in av]))
        case(['runas_user'], t.cat(*[mk('unit', a) for a in av]), t.cat(*[t.cat(SP, a) for a in av]))
    if c.opens and not c.violations:
        # whether there is a limit
        for n in (12, 20, 40, 70, 140, 300, 1100):
            av = [t.lit(b'argument%d' % i) for i in range(n)]
            case([], t.cat(*[mk('unit', a) for a in av]), t.cat(*[t.cat(SP, a) for a in av]))
        for n in (300, 5000, 70000):
            case([], mk('unit', t.lit(b'a' * n)), t.cat(SP, t.lit(b'a' * n)))
    # in general: one conditional item per setting
    for prem, r in run(None):
        parts = spaced(r)
        why = 'other shape: %s' % t.show(r)[:160]
        if parts is None or prem:
            c.unknown('any set of flags', 'invocation', why)
            continue
        if parts[0] != ('first', prog) or parts[-1] != ('each', tail) or any(e[0] in ('first', 'each') for e in parts[1:-1]):
            c.unknown('any set of flags', 'invocation', why)
            continue
        for k in ks:
            v = t.fld(S, k)
            here = not_(eq(v, I(0))) if is_bool[k] else not_(eq(t.discr(v, 2), I(0)))
            if k == 'sudoedit':
                here = and_(here, edit)
            val = t.fld(v, 'Some.0')
            want = t.cat(t.lit(known[k].encode()), *([] if is_bool[k] else [SP, mk('dec', val) if numeric(k) else val]))
            hit = [e for e in parts[1:-1] if e[1] is want]
            if len(hit) == 1 and logic.prove([hit[0][0]], here)[0] == 'proved' and logic.prove([here], hit[0][0])[0] == 'proved':
                c.held('any set of flags', '%s iff %s' % (t.show(want), t.show(here)))
            else:
                c.unknown('any set of flags', known[k], 'no item of its own')
        c.count('conditional items', len(parts) - 2)
        if len(parts) - 2 != len(ks):
            c.unknown('any set of flags', 'other flags', '%d items for %d settings' % (len(parts) - 2, len(ks)))


# -- templates

class Table:
    """A Spec built by its own functions: an escape byte, then replacements in order."""

    def __init__(self, c, p):
        self.c, self.p = c, p
        self.expand = local_fn(p, 'template::Spec::expand')
        self.with_escape = local_fn(p, 'template::Spec::with_escape')
        self.replace = [f for f in p.fns if f.j.get('local') and f.body is not None and f.defn.endswith('template::Spec::replace')]
        if not self.replace:
            raise session.Missing('template::Spec::replace')
        self.ip = engine(p, session.Boundary(expand=False))

    def one(self, f, args, S):
        out = self.ip.run(f, args, S)
        self.c.fns.update(g.name for g in self.ip.fns_seen if g.j.get('local'))
        bad = [s for s in out if s.kind != 'return']
        if bad or len(out) != 1:
            return None, (bad or out)
        return out[0], None

    def build(self, S, escape, pairs, which=None):
        s, bad = self.one(self.with_escape, [escape], S)
        if s is None:
            return None
        S = s
        here = mk('glob', 'spec')
        S.mem[here] = s.ret
        for n, (k, v) in enumerate(pairs):
            f = which or self.replace[n % len(self.replace)]
            ty = self.p.types[f.j['sig'][2] if 'sig' in f.j else f.body['locals'][3]]
            s, bad = self.one(f, [t.ptr(here, ()), k, t.tmp(v) if ty['k'] == 'ref' else v], S)
            if s is None:
                return None
            S = s
        return S, t.ptr(here, ())

    def run(self, S, spec, T):
        return self.ip.run(self.expand, [spec, t.tmp(T)], S)


def c32(c):
    p = program('repo', 'sudo_pair')
    tb = Table(c, p)
    w = {tb.expand.name}
    E, K = sym('escape'), [sym('key0'), sym('key1')]
    V = [sym('value0'), sym('value1')]
    deep = os.environ.get('VERIF_TIER') == 'thorough'

    def fresh(escape_is_key):
        S = interp.new_state()
        S.assume(not_(eq(K[0], K[1])))
        S.assume(not_(eq(K[1], E)))
        if not escape_is_key:
            S.assume(not_(eq(K[0], E)))
        return S

    def case(cls, S, spec, key0):
        T, want, esc = [], [], False
        val = {'0': V[0], '1': V[1], 'e': V[0] if key0 is E else None}
        for n, x in enumerate(cls):
            b = {'e': E, '0': key0, '1': K[1]}.get(x) or sym('byte%d' % n)
            if x == 'p':
                for y in (E, key0, K[1]):
                    if eq(b, y) is not FALSE:
                        S.assume(not_(eq(b, y)))
            if esc:
                v = val.get(x)
                want.append(t.unit(b) if v is None else v)
                esc = False
            elif x == 'e':
                esc = True
            else:
                want.append(t.unit(b))
            T.append(t.unit(b))
        c.count('templates')
        for s in tb.run(S, spec, t.cat(*T)):
            name = 'template shape %r (e escape, 0 1 keys, p other)' % ''.join(cls)
            if s.kind == 'undecided':
                c.unknown('expansion', name, s.notes[-1] if s.notes else '?')
            elif s.kind != 'return':
                c.prove('expansion', name, list(s.path), FALSE, 'expanding a template can panic', w)
            else:
                c.prove('expansion', name, list(s.path), eq(s.ret, t.cat(*want)),
                        'a template of shape %s expands to %s' % (''.join(cls) or '(empty)', t.show(s.ret)[:200]), w)
    # every template up to a length, over a table of two keys, one of which may be the escape byte
    for key0, alpha, most in ((K[0], 'e01p', 6 if deep else 5), (E, 'e1p', 6 if deep else 4)):
        r = tb.build(fresh(False), E, [(key0, V[0]), (K[1], V[1])])
        if r is None:
            c.unknown('table', 'replace', 'building a table has several outcomes')
            continue
        S, spec = r
        for n in range(most + 1):
            for cls in itertools.product(alpha, repeat=n):
                case(cls, S.copy(), spec, key0)
    # each way to add an expansion: the last one for a byte counts, and is verbatim
    for f in tb.replace:
        r = tb.build(fresh(False), E, [(K[0], sym('older')), (K[1], V[1]), (K[0], V[0])], f)
        if r is None:
            c.unknown('table', f.name, 'several outcomes')
            continue
        for cls in ('e0', 'e1', 'ee', 'ep', '0e1'):
            case(cls, r[0].copy(), r[1], K[0])
    # values that look like templates
    hard = t.lit(b'%a%z%%')
    r = tb.build(interp.new_state(), I(37), [(I(97), hard), (I(37), t.lit(b'%a'))])
    if r is not None:
        for T, want in ((b'%a', hard.args[0]), (b'%%a', b'%aa'), (b'%a%', hard.args[0]), (b'x%%%a', b'x%a' + hard.args[0])):
            for s in tb.run(r[0].copy(), r[1], t.lit(T)):
                if s.kind == 'return':
                    c.prove('values are not scanned', repr(T), list(s.path), eq(s.ret, t.lit(want)),
                            'with %%a standing for %r, %r expands to %s' % (hard.args[0], T, t.show(s.ret)[:200]), w)
                else:
                    c.unknown('values are not scanned', repr(T), s.kind)
    # any template, any table
    st = tyid(p, 'template::Spec')
    names = [x[0] for x in p.types[st]['variants'][0]['fields']]
    if set(names) != {'escape', 'expansions'}:
        c.unknown('any length', 'expand', 'other representation')
        return
    ip = engine(p, session.Boundary(expand=False))
    out = ip.run(tb.expand, [t.tmp(session.struct_of(p, st, 'spec')), t.tmp(sym('T'))])
    tr = Transducer(ip, sym('T'), t.fld(sym('spec'), 'escape'), t.fld(sym('spec'), 'expansions'))
    for s in out:
        if s.kind != 'return':
            c.unknown('any length', 'expand', s.kind)
            continue
        if tr.returns(s):
            c.held('any length', 'the result consumes the whole template')
        else:
            c.unknown('any length', 'expand', tr.why)
    while tr.todo:
        rec = tr.todo.pop()
        for why, good in tr.record(rec):
            if good:
                c.held('any length', why)
            else:
                c.unknown('any length', why, tr.why)
    c.count('loops', len(tr.seen))


class Transducer:
    """Induction over the loops of expand: at each head, the output is the expansion of the template before the index."""

    def __init__(self, ip, T, escape, table):
        self.ip, self.T, self.E, self.M = ip, T, escape, table
        self.n = t.length(T)
        self.nodes, self.seen, self.todo, self.why = {}, [], [], ''
        self.within = set()

    def node(self, key):
        """(record, output phi, index phi, flag that an escape was just read) of a loop."""
        if key not in self.nodes:
            rec = self.ip.loops.get(key)
            r = None
            if rec is not None:
                one = [q for q, u in rec['phis'].items() if u is not None and q.op == 'phi']
                seqs = [q for q in one if all(x[q] is q or x[q].op == 'cat' and x[q].args[0] is q for x in rec['ups'])
                        and any(x[q].op == 'cat' for x in rec['ups'])]
                rest = [q for q in one if q not in seqs]
                flag = [q for q, u in rec['phis'].items() if u is not None and q.op == 'bphi']
                if len(seqs) == 1 and len(rest) == 1 and len(flag) <= 1:
                    r = (rec, seqs[0], rest[0], flag[0] if flag else FALSE)
                    i = rest[0]
                    self.within.add(i)          # by induction, if this holds:
                    past = lambda u: not_(t.lt('u64', self.n, u))
                    if not (self.p(list(rec['entry'].path), past(rec['phis'][i])) and
                            all(self.p(list(s.path), past(u[i])) for s, u in zip(rec['backs'], rec['ups']))):
                        self.within.discard(i)
                    self.seen.append(key)
                    self.todo.append(r)
            self.nodes[key] = r
        return self.nodes[key]

    def p(self, prem, goal):
        return goal is TRUE or logic.prove(prem + self.facts(prem, goal), goal)[0] == 'proved'

    def facts(self, prem, goal):
        """What holds of the indices that occur."""
        xs = set()

        def go(y):
            if isinstance(y, tuple):
                for z in y:
                    go(z)
            elif isinstance(y, t.T) and y not in xs:
                xs.add(y)
                go(y.args)
        go(tuple(prem) + (goal,))
        r = []
        for y in sorted(xs, key=lambda y: y.id):
            if y in self.within:
                r.append(not_(t.lt('u64', self.n, y)))
            if y.op == 'add' and y.args[0] == 64 and I(1) in y.args:
                a = y.args[1] if y.args[2] is I(1) else y.args[2]
                r.append(or_(not_(self.below(a)), not_(t.lt('u64', self.n, y))))
                r.append(t.lt('u64', a, y))     # there are no templates of 2^64 bytes
            if y.op == 'pos' and y.args[1] is eq(y.args[2], self.E):
                d = y.args[0]
                k = y if d is self.T else t.arith('add', 64, d.args[1], y) if \
                    d.op == 'slice' and d.args[0] is self.T and d.args[2] is None else None
                if k is not None:
                    here = t.exists(d, y.args[1], y.args[2])
                    r += [or_(not_(here), self.below(k)), or_(not_(here), eq(t.at(self.T, k), self.E))]
        return [x for x in r if x is not TRUE]

    def same(self, prem, a, b):
        return a is b or self.p(prem, eq(a, b))

    def below(self, k):
        return t.lt('u64', k, self.n)

    def no(self, why):
        self.why = why
        return False

    def start(self, R):
        """Where a term begins: (index, remaining pieces)."""
        parts = list(R.args) if R.op == 'cat' else [] if R is t.EMPTY else [R]
        if parts and parts[0].op == 'phi':
            nd = self.node(parts[0].args[0])
            if nd is None or nd[1] is not parts[0]:
                return None
            return nd[2], parts[1:], nd[3]
        return I(0), parts, FALSE

    def follow(self, prem, R, end):
        s = self.start(R)
        if s is None:
            return self.no('starts from an unknown loop')
        for flag in (TRUE, FALSE):
            q = prem + [s[2] if flag is TRUE else not_(s[2])]
            if FALSE in q or self.p(q, FALSE):
                continue
            if not self.walk(q, s[0], s[1], end, flag is TRUE):
                return False
        return True

    def walk(self, prem, k, parts, end, pending):
        parts = list(parts)
        while parts:
            x = parts.pop(0)
            if x is t.EMPTY:
                continue
            if x.op == 'cat':
                parts = list(x.args) + parts
                continue
            at = lambda i: t.at(self.T, i)
            if pending:
                b = at(k)
                if self.p(prem, self.below(k)) and self.same(prem, x, self.stands(b)):
                    k, pending = t.arith('add', 64, k, I(1)), False
                    continue
            if x.op == 'slice' and x.args[0].op == 'slice' and x.args[0].args[0] is self.T and x.args[0].args[2] is None \
                    and x.args[1] is I(0) and x.args[2] is not None:
                a = x.args[0].args[1]
                x = mk('slice', self.T, a, t.arith('add', 64, a, x.args[2]))
            if not pending and (x.op == 'slice' and x.args[0] is self.T and x.args[2] is None and self.same(prem, x.args[1], k)
                                or x is self.T and k is I(0)) and self.p(prem, not_(t.exists(x, eq(t.x(0), self.E), t.x(0)))):
                k = self.n
                continue
            if not pending and x.op == 'slice' and x.args[0] is self.T and x.args[2] is not None and self.same(prem, x.args[1], k) and self.plain(k, x.args[2]):
                k = x.args[2]
                continue
            if not pending and x.op == 'unit' and x.args[0].op == 'at' and x.args[0].args[0] is self.T:
                m = x.args[0].args[1]
                if self.same(prem, m, k) and self.p(prem, not_(eq(at(k), self.E))):
                    k = t.arith('add', 64, k, I(1))
                    continue
            if not pending and x.op in ('ite', 'mapval', 'unit'):
                k1 = t.arith('add', 64, k, I(1))
                b = at(k1)
                if self.p(prem, and_(eq(at(k), self.E), self.below(k1))):
                    if self.same(prem, x, self.stands(b)):
                        k = t.arith('add', 64, k1, I(1))
                        continue
            if x.op == 'ite':
                for c, y in ((x.args[0], x.args[1]), (not_(x.args[0]), x.args[2])):
                    q = prem + [c]
                    if self.p(q, FALSE):
                        continue
                    if not self.walk(q, k, [y] + parts, end, pending):
                        return False
                return True
            a = logic.buried([x, k])
            if a is not None:
                for v in (TRUE, FALSE):
                    on = lambda y: t.subst(y, {a: v}, fix=True)
                    q = [on(y) for y in prem] + [a if v is TRUE else not_(a)]
                    if FALSE in q or self.p(q, FALSE):
                        continue
                    if not self.walk(q, on(k), [on(y) for y in [x] + parts], end, pending):
                        return False
                return True
            return self.no('piece %s at %s' % (t.show(x)[:120], t.show(k)[:80]))
        a = logic.buried([k])
        if a is not None:
            for v in (TRUE, FALSE):
                q = [t.subst(y, {a: v}, fix=True) for y in prem] + [a if v is TRUE else not_(a)]
                if FALSE in q or self.p(q, FALSE):
                    continue
                if not self.walk(q, t.subst(k, {a: v}, fix=True), [], end, pending):
                    return False
            return True
        return end(prem, k, pending)

    def stands(self, b):
        """What an escaped byte stands for."""
        return ite(mk('has', self.M, b), mk('mapval', self.M, b), t.unit(b))

    def plain(self, a, b):
        """No escape byte in the template from a to before b."""
        if b.op == 'phi':
            rec = self.ip.loops.get(b.args[0])
            if rec is None or rec['phis'].get(b) is None or not self.same([], rec['phis'][b], a):
                return self.no('slice to an unknown index')
            for s, u in zip(rec['backs'], rec['ups']):
                if u[b] is not t.arith('add', 64, b, I(1)) or not self.p(list(s.path), not_(eq(t.at(self.T, b), self.E))):
                    return self.no('the inner loop passes an escape byte')
            return True
        if b.op == 'add' and b.args[1] is a and b.args[2].op == 'pos':
            b = b.args[2]
        elif b.op == 'add' and b.args[2] is a and b.args[1].op == 'pos':
            b = b.args[1]
        elif a is not I(0):
            return self.no('slice to %s' % t.show(b)[:80])
        if b.op == 'pos':
            d, pred, var = b.args
            return (d is t.slice_(self.T, a, None)) and pred is eq(var, self.E) or self.no('slice to %s' % t.show(b)[:80])
        return self.no('slice to %s' % t.show(b)[:80])

    def finished(self, prem, k, pending):
        if pending:
            return self.p(prem, not_(self.below(k))) or self.no('may end after an escape byte')
        k1 = t.arith('add', 64, k, I(1))
        return self.p(prem, or_(not_(self.below(k)), and_(eq(t.at(self.T, k), self.E), not_(self.below(k1))))) or \
            self.no('may end before the template does, at %s' % t.show(k)[:80])

    def returns(self, s):
        prem = list(s.path)
        b = self.start(s.ret)
        if b is not None and b[0].op == 'phi':
            rec = self.node(b[0].args[0])[0]
            if rec.get('index') is b[0] and not any(t.occurs(x, b[0]) for x in prem + b[1]) and self.same([], rec['seq'], self.T):
                prem.append(not_(self.below(b[0])))     # the summary of the loop says so
        return self.follow(prem, s.ret, self.finished)

    def record(self, nd):
        rec, R, i, f = nd
        of = lambda u: u[f] if f is not FALSE else f
        yield 'entry of a loop', self.follow(list(rec['entry'].path), rec['phis'][R], self.arrive(rec['phis'][i], of(rec['phis'])))
        for s, u in zip(rec['backs'], rec['ups']):
            yield 'one round of a loop', self.follow(list(s.path), u[R], self.arrive(u[i], of(u)))

    def arrive(self, i, flag):
        def f(prem, k, pending):
            if self.same(prem, k, i):
                return self.p(prem, flag if pending else not_(flag)) or self.no('flag %s' % t.show(flag)[:80])
            if pending:
                return self.no('an escape byte is left behind')
            k1 = t.arith('add', 64, k, I(1))
            here = eq(t.at(self.T, k), self.E)
            if self.same(prem, k1, i) and self.p(prem, and_(self.below(k), here, flag)):
                return True
            return self.p(prem, and_(here, not_(self.below(k1)), not_(self.below(i)), not_(flag))) or \
                self.no('index %s, expected %s' % (t.show(i)[:80], t.show(k)[:80]))
        return f


# -- the prompts

TTY = t.fld(sym('UserInfo'), 'tty')
PROMPTS = {
    'user': (v.text(v.OPT, 'user_prompt_path', '/etc/sudo_pair.prompt.user'), b'%B %u %p\n'),
    'pair': (v.text(v.OPT, 'pair_prompt_path', '/etc/sudo_pair.prompt.pair'), b'%U@%h:%d$ %C\ny/n? [n]: '),
}


def device(ty, h):
    """Which of the places for a prompt a handle stands for."""
    if stream_of(h) is not None:
        return 'pair'
    if t.occurs(h, TTY):
        return 'tty'
    if ty is not None and ty.endswith('PrintFacility'):
        return 'printf'
    return None


def prompts(s):
    """[(position, device, handle, data)] of the prompts of a history, the answer's echo left out."""
    r = []
    stop = min([i for i, *_ in reads(s.events)] or [len(s.events)])
    for i, ty, h, d in writes(s.events):
        dev = device(ty, h)
        if dev is not None and (dev != 'pair' or i < stop):
            r.append((i, dev, h, d))
    return r


def cond_open(s, i):
    return ok_of(s, i), mk('file', number_of(s, i), s.events[i].args[1])


def c13(c):
    P = Plugin(c)
    tb = Table(c, P.p)
    specs = {}
    for s in P.decided():
        for i, dev, h, d in prompts(s):
            which = 'pair' if dev == 'pair' else 'user'
            want, default = PROMPTS[which]
            c.count('prompts written')
            w = P.where(s.events[i])
            if d.op != 'expand':
                if dev == 'pair' and not inside(d, 'expand') and d.op in ('lit',):
                    c.broken('template', which + ' prompt', 'the %s prompt is %s' % (which, t.show(d)[:100]), w)
                else:
                    c.unknown('template', which + ' prompt', 'built otherwise: %s' % t.show(d)[:160])
                continue
            specs.setdefault(d.args[0], w)
            prem = list(s.path)
            T = d.args[1]
            cand = [j for j in idx(s, 'open') if j < i and not t.occurs(s.events[j].args[1], TTY)]
            mine = [j for j in cand if s.events[j].args[1] is want] or \
                [j for j in cand if logic.prove([], eq(s.events[j].args[1], want))[0] == 'proved']
            if not mine:
                if T.op == 'lit':
                    c.prove('template', which + ' prompt', prem, FALSE, 'the %s prompt is always %s' % (which, T), w)
                elif cand:
                    c.prove('template', which + ' prompt', prem, or_(*[eq(s.events[j].args[1], want) for j in cand]),
                            'the template of the %s prompt is not read from its configured path' % which, w)
                else:
                    c.unknown('template', which + ' prompt', 'no open of its template seen')
                continue
            goals = []
            for j in mine:
                o, f = cond_open(s, j)
                goals.append(eq(T, ite(and_(o, not_(models.readfails(f))), models.content(f), t.lit(default))))
            c.prove('template', which + ' prompt', prem, or_(*goals),
                    'the %s prompt is made from %s' % (which, t.show(T)[:200]), w)
    if not specs:
        raise session.Missing('prompts')
    dec = lambda x: mk('dec', x)
    U, C, B = v.U, v.C, v.BINARY
    want = {b'B': B, b'h': U('host'), b'H': dec(U('lines')), b'g': dec(U('gid')), b'u': dec(U('uid')), b'U': U('user'),
            b'W': dec(U('cols')), b'p': (dec(U('pid')), mk('sdec', 32, U('pid'))),
            b'd': ite(v.isnone(C('cwd')), U('cwd'), v.some(C('cwd'))),
            b'b': ite(mk('has_name', B), mk('file_name', B), B)}
    for sp, w in specs.items():
        for d in range(256):
            b = bytes([d])
            for T in ((b, b'%' + b) if d != 37 else (b'%%',)):
                S = interp.new_state()
                for s in tb.run(S, t.tmp(sp), t.lit(T)):
                    name = repr(T)[1:]
                    if s.kind != 'return':
                        c.unknown('directives', name, s.notes[-1] if s.notes else s.kind)
                        continue
                    r = s.ret
                    if len(T) == 2 and b == b'C':
                        check_invocation(c, P, r, list(s.path), w)
                        continue
                    x = want.get(b) if len(T) == 2 else None
                    x = t.lit(b) if x is None else x
                    xs = x if isinstance(x, tuple) else (x,)
                    c.prove('directives', name, list(s.path), or_(*[eq(r, y) for y in xs]),
                            '%s in a prompt becomes %s' % (name, t.show(r)[:200]), w)


def check_invocation(c, P, r, prem, w):
    if r.op != 'invocation' or r.args[0].op != 'agg':
        if inside(r, 'invocation') or inside(r, 'ext') or r.op not in ('lit', 'cat', 'ite', 'fld', 'dec', 'mapval'):
            c.unknown('directives', "'%C'", 'is %s' % t.show(r)[:160])
        else:
            c.prove('directives', "'%C'", prem, FALSE, '%%C in a prompt becomes %s' % t.show(r)[:160], w)
        return
    et = P.p.types[tyid(P.p, 'io_env::IoEnv')]
    env = dict(zip([x[0] for x in et['variants'][0]['fields']], r.args[0].args[1:]))
    X = t.x(0)
    argc, argv = sym('argc'), sym('argv')
    want = {'settings': session.struct_of(P.p, tyid(P.p, 'settings::Settings'), 'Settings', raw=mk('optmap', array('settings'))),
            'cmdline': t.star(mk('raw', argv, mk('sext', 32, 64, argc)), t.unit(mk('cstr', X)), X)}
    for k, x in want.items():
        if k not in env:
            c.unknown('directives', "'%C'", 'no ' + k)
        else:
            c.prove('directives', "'%%C' from %s" % k, prem, eq(env[k], x),
                    '%%C is made from a %s that is not what sudo passed: %s' % (k, t.show(env[k])[:160]), w)


def c31(c):
    P = Plugin(c)
    lvl = next((x for x in P.p.types if x.get('def', '').endswith('::Level') and 'sudo_plugin' in x['def']), None)
    rows = 0
    for s in P.decided():
        ps = [x for x in prompts(s) if x[1] != 'pair']
        waits = idx(s, 'select', 'accept', 'poll')
        prem = list(s.path)
        shown = [x for x in ps if x[1] == 'tty']
        err_ = [x for x in ps if x[1] == 'printf']
        # (a single write may take only part of it)
        succ = lambda x: and_(ok_of(s, x[0]), TRUE if s.events[x[0]].args[0] == 'write_all' else
                              eq(mk('count', s.events[x[0]].args[0], number_of(s, x[0])), t.length(x[3])))
        if looped(s.events) and any(s.events[x[0]].args[0] != 'write_all' for x in ps):
            c.unknown('the prompt is shown first', 'history', 'written piecemeal')
            continue
        w = P.where(*[s.events[x[0]] for x in ps]) or {P.fn('open').name}
        if waits:
            rows += 1
            k = waits[0]
            on = or_(*[succ(x) for x in shown if x[0] < k], *[TRUE for x in err_ if x[0] < k])
            texts = {}
            for y in prem + [on]:
                t.anyop(y, lambda z: z.op == 'expand' and texts.setdefault(z, sym('any text %d' % len(texts))) and False)
            c.prove('the prompt is shown first', 'before the wait', [t.subst(y, texts) for y in prem], t.subst(on, texts),
                    'waits for a pair without having shown the user a prompt on the terminal or on stderr',
                    w | P.where(s.events[k]))
        if ps:
            c.count('histories with a prompt')
        opened = [i for i in idx(s, 'open') if t.occurs(s.events[i].args[1], TTY)]
        for x in err_:
            tried = or_(v.isnone(TTY), *[not_(ok_of(s, i)) for i in opened if i < x[0]],
                        *[not_(succ(y)) for y in shown if y[0] < x[0]])
            c.prove('tty first, stderr otherwise', 'stderr', prem, tried,
                    'the prompt goes to stderr although the terminal was not tried or took it', w)
            if lvl is not None:
                n = [z['name'] for z in lvl['variants']].index('Error') if 'Error' in [z['name'] for z in lvl['variants']] else None
                got = level_of(P.p, x[2])
                if n is None or got is None:
                    c.unknown('tty first, stderr otherwise', 'level', 'unknown level')
                else:
                    c.prove('tty first, stderr otherwise', 'level', prem, eq(got, agg(n)), 'the prompt goes to another level than stderr', w)
        for x in shown:
            path = [s.events[i].args[1] for i in opened if i < x[0]]
            c.prove('tty first, stderr otherwise', 'the terminal is the user\'s', prem,
                    or_(*[eq(q, v.some(TTY)) for q in path]), 'the prompt is shown on another terminal', w)
            how = [s.events[i].args[2] for i in opened if i < x[0] and len(s.events[i].args) > 2]
            c.prove('tty first, stderr otherwise', 'the terminal is opened for writing', prem,
                    or_(*[writing(q) for q in how]) if how else TRUE,
                    'the terminal the prompt should appear on is opened in a way that it can not be written', w)
        for x in ps[1:]:
            same = eq(x[3], ps[0][3])
            if {x[3].op, ps[0][3].op} == {'lit', 'expand'}:
                # a template can become any text
                same = eq(*[sym('any text') if y.op == 'expand' else y for y in (x[3], ps[0][3])])
            c.prove('tty first, stderr otherwise', 'same text', prem, same, 'stderr gets another prompt', w)
    if not rows:
        raise session.Missing('waiting for a pair')
    never_fatal(c)


def writing(flags):
    """That a file opened so can be written."""
    if flags.op == 'ite':
        return t.ite(flags.args[0], writing(flags.args[1]), writing(flags.args[2]))
    if flags.op == 'flags':
        return TRUE if {'write', 'append'} & set(flags.args) else FALSE
    return mk('bool', 'can be written', flags)


def level_of(p, h):
    for x in p.types:
        if x.get('def', '').endswith('print_facility::PrintFacility') and h.op == 'agg':
            f = [y[0] for y in x['variants'][0]['fields']]
            if 'level' in f and len(h.args) == len(f) + 1:
                return h.args[1 + f.index('level')]
    return None


def never_fatal(c):
    """What happens while prompting, left open twice, tells no permitted history from a refused one."""
    P = Plugin(c)

    def outcome(S, name, args):
        about = mk('about', *args)
        if name == 'open' and (t.occurs(about, TTY) or inside_text(about, 'prompt_path')):
            return mk('bool', 'prompting', name, args[0]), mk('prompting', args[0])
        if name in ('write_all', 'write', 'flush'):
            if name == 'write_all':
                dev = device(args[0], args[1])
            else:
                h = args[0]
                dev = device(h.args[0], h.args[1])
            if dev in ('tty', 'printf'):
                return mk('bool', 'prompting', name, dev), mk('prompting', dev)
            if dev == 'pair' and name == 'write_all':
                n = sum(1 for e in S.events if e.args[0] == name)
                P.ip.emit(S, name, *args)
                return mk('ok', 'to the pair', n), n
        return None
    P.ip.outcome = outcome
    A = P.allowed()
    yes = {id(s) for s, _ in A}
    c.count('histories compared', len(P.decided()))
    other = {}

    def primed(x):
        def find(y):
            if not isinstance(y, t.T):
                return
            if y in seen:
                return
            seen.add(y)
            if y.op == 'readerr' or y.op == 'bool' and y.args[0] == 'prompting' or y.op in ('ok', 'bool', 'md', 'count') and t.occurs(y, TTY):
                other.setdefault(y, mk('bool', 'otherwise', y))
                return
            for a in y.args:
                if isinstance(a, tuple):
                    for b in a:
                        find(b)
                else:
                    find(a)
        seen = set()
        find(x)
        return t.subst(x, other)
    no = [s for s in P.decided() if id(s) not in yes]
    for s, may in A:
        mine = list(s.path) + may
        for d in no:
            his = [primed(x) for x in d.path]
            if d.kind != 'return':
                what = 'ends the session abnormally'
            else:
                what = 'is refused'
            c.prove('never fatal', 'a history that %s' % what, mine + his, FALSE,
                    'whether the session is allowed depends on how prompting went', P.where(*[e for e in d.events]))


def inside_text(x, s):
    return t.anyop(x, lambda y: y.op == 'lit' and s.encode() in y.args[0])
