"""C40: what a refusal reads like."""
from .rules_library import *
from .sess import *
from .rules_session import PROMPTS


def display(p, ty):
    """The function that writes a value of a type as text."""
    for f in p.fns:
        j = f.j
        if (j.get('trait') or '').endswith('fmt::Display') and j.get('method') == 'fmt' and j.get('self') is not None \
                and p.types[j['self']]['s'] == ty and f.body is not None:
            return f
    return None


def texts(c, p, ip, ty, ptr, state=None, depth=0):
    """[(conditions, text)] of a value shown with {}."""
    f = display(p, ty)
    if f is None or depth > 4:
        raise Undecided('how %s is shown' % ty)
    S0, pre = None, 0
    if state is not None:
        S0 = state.copy()
        S0.ret = S0.kind = None
        S0.stack = ()
        pre = len(state.events)
    r = []
    for s in ip.run(f, [ptr, sym('formatter')], S0):
        if s.kind != 'return':
            raise Undecided('%s: %s' % (f.name, s.notes[-1:]))
        ev = s.events[pre:]
        if any(e.args[0] != 'fmt' for e in ev):
            raise Undecided('%s does more than writing text' % f.name)
        alts = [(list(s.path), [])]
        for part in [q for e in ev for q in t.seq_parts(e.args[1])]:
            new = []
            for conds, x in cases(part):
                if x.op == 'fmt' and x.args[0] == 'display':
                    sub = [(conds + k, y) for k, y in texts(c, p, ip, x.args[1], t.tmp(x.args[2]), s, depth + 1)]
                else:
                    sub = [(conds, x)]
                new += [(a + k, b + [y]) for a, b in alts for k, y in sub]
            alts = new
        r += [(a, t.cat(*b)) for a, b in alts]
    c.fns.update(g.name for g in ip.fns_seen if g.j.get('local'))
    return r


def cases(x):
    if x.op == 'ite':
        return [([x.args[0]] + k, y) for k, y in cases(x.args[1])] + [([not_(x.args[0])] + k, y) for k, y in cases(x.args[2])]
    return [([], x)]


GROUPED = 'the user changes and a group is named'
SETUP = 'no pair could be asked'
ANSWER = 'the pair did not say yes'
STDIN = 'input is piped in'
OUTPUT = 'output could not be shown to the pair'


def c40(c):
    P = Plugin(c)
    bad = and_(USERCHANGE, v.NAMED_GROUP)
    read_as = {}
    seen = {}

    def note(reason, s, ev, w=()):
        for e in ev:
            if e.args[0] != 'report':
                continue
            if e.args[2] not in seen:
                tys = P.ip.reported.get(e.args[2], ())
                try:
                    if len(tys) != 1:
                        raise Undecided('an error of type %s is reported' % sorted(tys))
                    ty, = tys
                    seen[e.args[2]] = [(k, x) for k, x in texts(c, P.p, P.ip, ty, e.args[2], s)]
                except Undecided as u:
                    seen[e.args[2]] = u
            got = seen[e.args[2]]
            if isinstance(got, Undecided):
                c.unknown('reasons read differently', reason, got)
                continue
            for k, x in got:
                if logic.prove(list(s.path) + k, FALSE)[0] == 'proved':
                    continue
                read_as.setdefault(reason, {}).setdefault(x, set()).update(w or P.where(e))

    def is_(prem, g):
        return logic.prove(prem, g)[0] == 'proved'
    for s in P.decided():
        if s.kind != 'return' or not any(e.args[0] == 'report' for e in s.events):
            continue
        prem = list(s.path)
        rd = reads(s.events)
        acts = [e for e in s.events if e.args[0] in PROMPTS | FSMUT | {'select', 'accept', 'umask', 'open'}]
        if rd:
            if looped(s.events):
                c.unknown('reasons read differently', ANSWER, 'loop around the dialogue')
                continue
            got, byte = got_first_byte(s, rd[0][0])
            # an answer came, and everything around it worked
            fine = [got] + [ok_of(s, i) for i in idx(s, 'sigaction', 'bind', 'select', 'accept')]
            if not is_(prem + fine, FALSE):
                note(ANSWER, s, s.events, P.where(s.events[rd[0][0]]))
        elif idx(s, 'sigaction'):
            continue                     # on the way to the answer
        elif acts:
            note(SETUP, s, s.events, P.where(acts[-1]))
        elif is_(prem, not_(and_(*ENVOK))):
            continue                     # an error of the library, see below
        elif is_(SESSION + prem, bad):
            note(GROUPED, s, s.events)
        else:
            note(SETUP, s, s.events)
    for s0 in P.paired()[:4]:
        for slot, reason in (('log_stdin', STDIN), ('log_ttyout', OUTPUT), ('log_stdout', OUTPUT), ('log_stderr', OUTPUT)):
            for s, ev in P.callback(slot, s0):
                if s.kind == 'return':
                    note(reason, s, ev)
    c.count('reasons', len(read_as))
    for r, xs in read_as.items():
        for x, w in xs.items():
            if x.op == 'lit':
                c.ensure('a reason is given', x is not t.EMPTY, r, 'a refusal because %s says nothing' % r, w)
            elif t.seq_len_const(x) is None:
                c.count('texts with variable parts')
    rs = sorted(read_as)
    for i, a in enumerate(rs):
        for b in rs[i + 1:]:
            both = [x for x in read_as[a] if x in read_as[b]]
            c.ensure('reasons read differently', not both, '%s / %s' % (a, b),
                     'a refusal because %s reads the same as one because %s: %s' % (a, b, t.show(both[0])[:100] if both else ''),
                     set().union(*[read_as[z][x] for x in both for z in (a, b)]))
    for r in (GROUPED, SETUP, ANSWER, STDIN, OUTPUT):
        if r not in read_as:
            c.unknown('vacuity', r, 'no refusal is reported')
    library(c)


def library(c):
    """The library's own errors."""
    p = program('probe', 'probe')
    ty = 'sudo_plugin::errors::Error'
    x = next(x for x in p.types if x.get('def') == ty)
    E = sym('error')
    ip = engine(p, session.Boundary())
    vs = x['variants']
    for k, text in texts(c, p, ip, ty, E):
        if logic.prove(k, FALSE)[0] == 'proved':
            continue
        parts = t.seq_parts(text)
        for i, w in enumerate(vs):
            d = eq(t.discr(mk('deref', E), len(vs)), I(i))
            if logic.prove(k + [d], FALSE)[0] == 'proved':
                continue
            of = lambda n: t.fld(mk('deref', E), '%s.%s' % (w['name'], n))
            where = {display(p, ty).name}
            for n, fty in [(f[0], f[1]) for f in w['fields']]:
                want = [of(n)]
                if p.types[fty].get('def', '').endswith('::Version'):
                    want = [t.cat(t.dec(t.fld(of(n), 'major')), t.lit(b'.'), t.dec(t.fld(of(n), 'minor')))]
                    it = t.seq_parts(want[0])
                    hit = any(starts(parts[j:], it) for j in range(len(parts)))
                else:
                    hit = want[0] in parts
                if not hit and any(t.occurs(q, of(n)) and q.op in ('fmt', 'fmtspec', 'fmt?', 'ext') for q in parts):
                    c.unknown('errors name what they are about', '%s %s' % (w['name'], n), t.show(text)[:200])
                    continue
                c.ensure('errors name what they are about', hit, '%s %s' % (w['name'], n),
                         'the text of %s does not contain its %s: %s' % (w['name'], n, t.show(text)[:200]), where)
            c.ensure('a reason is given', text is not t.EMPTY, w['name'], 'the text of %s is empty' % w['name'], where)


def starts(parts, want):
    """Whether a list of parts begins with the wanted ones (literals may go on, or begin before)."""
    if len(parts) < len(want):
        return False
    for i, (a, b) in enumerate(zip(parts, want)):
        if a is b:
            continue
        if a.op == 'lit' and b.op == 'lit' and i == len(want) - 1 and a.args[0].startswith(b.args[0]):
            continue
        return False
    return True
