"""C27, C28: what the library prints, and how it reports errors."""
from .rules_library import *
from .rules_options import ok0
from engine import loops as loops_

PRINT = '::PrintFacility'


def is_facility(p, tid):
    x = p.types[tid]
    return x.get('def', '').endswith(PRINT)


def inherent(p, name):
    for f in p.fns:
        if f.j.get('local') and f.defn.endswith('PrintFacility::' + name) and f.body is not None:
            return f
    raise session.Missing('PrintFacility::%s' % name)


def writer(p, method='write'):
    for f in p.fns:
        j = f.j
        if j.get('local') and (j.get('trait') or '').endswith('io::write::Write') and j.get('method') == method \
                and j.get('self') is not None and is_facility(p, j['self']) and f.body is not None:
            return f
    if method == 'write':
        raise session.Missing('PrintFacility\'s write')
    return None


def made(c, p, name=sym('name'), printf=sym('printf')):
    """(stdout, stderr) as the library builds them."""
    f = inherent(p, 'new')
    ip = engine(p)
    out = [s for s in ip.run(f, [name, printf])]
    c.fns.add(f.name)
    r = []
    for s in out:
        if s.kind != 'return':
            raise Undecided('PrintFacility::new: %s' % (s.notes[-1:],))
        r.append((list(s.path), models.field(s.ret, 0, '0'), models.field(s.ret, 1, '1')))
    return r


def calls(s):
    return [e for e in s.events if e.args[0] == 'call']


def text_of(a):
    """The text a C string argument points to."""
    if a.op == 'cptr':
        return a.args[0]
    return None


def printf_sites(p):
    """Functions that call through a variadic function pointer."""
    r = []
    for f in p.fns:
        if f.j.get('local') and f.body is not None:
            for b in f.body['blocks']:
                tm = b[1]
                if tm[0] == 'call' and isinstance(tm[1], list) and tm[1][0][0] in ('m', 'c') and not tm[1][0][1][1] and \
                        '...' in p.types[f.body['locals'][tm[1][0][1][0]]]['s']:
                    r.append(f)
                    break
    return r


def c27(c):
    p = program('probe', 'probe')
    wr = writer(p)
    w = {wr.name}
    LV = {x['name']: i for x_ in p.types if x_.get('def', '').endswith('output::Level') for i, x in enumerate(x_['variants'])}
    B = sym('buf')
    text = mk('deref', B)
    n = 0
    made_ = made(c, p)
    cases = [('stdout', 4, [(pa, o) for pa, o, e in made_]), ('stderr', 3, [(pa, e) for pa, o, e in made_])]
    for name, level, hs in cases:
        for prem0, h in hs:
            ip = engine(p)
            none = eq(t.discr(sym('printf'), 2), I(0))
            for s in ip.run(wr, [t.tmp(h), B]):
                c.fns.update(f.name for f in ip.fns_seen if f.j.get('local'))
                free = {mk('res', 'call', 0): sym('printed')}
                prem = prem0 + [t.subst(x, free) for x in s.path]
                if s.kind == 'undecided':
                    c.unknown('analysis', wr.name, s.notes[-1] if s.notes else '?')
                    continue
                if logic.prove(prem, FALSE)[0] == 'proved':
                    continue
                n += 1
                if s.kind != 'return':
                    c.prove('never panics', name, prem, FALSE, 'printing can panic', w)
                    continue
                ret = t.subst(s.ret, free)
                isok = eq(t.discr(ret, 2), I(0))
                cs = calls(s)
                c.prove('without a printf an error is returned', name, prem + [none], not_(isok) if not cs else FALSE,
                        'printing without a printf facility is not an error', w)
                c.prove('text with a NUL is refused', name, prem + [not_(none), t.nul(text)], not_(isok) if not cs else FALSE,
                        'text containing a NUL is not refused', w)
                good = prem + [not_(none), not_(t.nul(text))]
                if not cs:
                    c.prove('the text is printed', name, good, FALSE, 'text is not passed to sudo\'s printf', w)
                    continue
                if len(cs) > 1:
                    c.prove('the text is printed once', name, good, FALSE, 'one piece of text is passed to sudo\'s printf more than once', w)
                    continue
                a = cs[0].args[1:]
                c.prove('the printf sudo gave is called', name, good, eq(a[0], t.fld(sym('printf'), 'Some.0')),
                        'text is not printed through the printf facility sudo gave', w)
                c.prove('its level', name, good, eq(a[1], I(level)), '%s text is not printed at its level' % name, w)
                fm = text_of(a[2])
                if fm is None or fm.op != 'lit':
                    if a[2].op == 'cptr':
                        c.prove('the format is constant', name, good, FALSE, 'text is passed to printf as the format', w)
                    else:
                        c.unknown('the format is constant', name, t.show(a[2])[:200])
                    continue
                if not c.ensure('the format is constant', fm.args[0] == b'%s' and len(a) == 4, name,
                                'the format is not a plain %%s with the text as its argument: %r' % fm.args[0], w):
                    continue
                arg = text_of(a[3])
                if arg is None:
                    c.unknown('the text is the argument', name, t.show(a[3])[:200])
                else:
                    c.prove('the text is the argument', name, good, eq(arg, text), 'what is printed is not the text', w)
                res = sym('printed')
                neg = t.lt('s32', res, I(0))
                c.prove('a negative result is an error', name, good + [neg], not_(isok),
                        'a failed printf is not reported as an error', w)
                c.prove('the count is returned', name, good + [not_(neg)],
                        and_(isok, eq(ok0(ret), t.cast_int(32, True, 64, res))),
                        'the number of bytes printed is not returned', w)
    c.count('histories of write', n)
    for m in ('write_all', 'write_fmt', 'write_vectored', 'write_all_vectored'):
        if writer(p, m) is not None:
            c.unknown('nothing else prints', m, 'PrintFacility overrides %s' % m)
    # every other call of a printf-like function
    for f in printf_sites(p):
        if f is wr:
            continue
        ip = engine(p, session.Boundary())
        args = [sym('arg%d' % i) for i in range(len(f.j['sig']) - 1)]
        for s in ip.run(f, args):
            if s.kind == 'undecided':
                c.unknown('analysis', f.name, s.notes[-1] if s.notes else '?')
                continue
            for e in calls(s):
                fm = text_of(e.args[3]) if len(e.args) > 3 else None
                if fm is None and len(e.args) > 3 and e.args[3].op != 'cptr' and not t.anyop(e.args[3], lambda y: y.op == 'sym'):
                    c.unknown('the format is constant', f.name, t.show(e.args[3])[:200])
                else:
                    c.ensure('the format is constant', fm is not None and fm.op == 'lit' and fm.args[0] == b'%s' and len(e.args) == 5,
                             f.name, 'a printf-like function is called with something other than a plain %s format', {f.name})
        c.fns.add(f.name)
    c.count('functions that call printf', len(printf_sites(p)))
    # what an environment hands out
    env(c, p)
    failing(c, p)


def failing(c, p):
    """A line, or an error, of which a piece could not be printed is a failure."""
    rule = 'a failure to print is reported'
    msg = 'text of which a piece could not be printed is said to be printed'
    for name, arg in (('write_line', sym('line')), ('write_error', sym('error'))):
        f = inherent(p, name)
        w = {f.name}
        ip = engine(p, session.Boundary(report=False))
        for prem0, h, _ in made(c, p):
            for s in ip.run(f, [t.tmp(h), arg]):
                c.fns.update(g.name for g in ip.fns_seen if g.j.get('local'))
                if s.kind == 'undecided':
                    c.unknown('analysis', f.name, s.notes[-1] if s.notes else '?')
                elif s.kind == 'return':
                    ws, fr = went(s.events)
                    if not ws and logic.prove(prem0 + list(s.path), FALSE)[0] != 'proved':
                        c.broken(rule, name, 'reports having printed without printing anything', w)
                    c.prove(rule, name, fr(prem0 + list(s.path) + [eq(t.discr(s.ret, 2), I(0))]), and_(*fr(ws)), msg, w)
            for r in ip.loops.values():
                for b in r['backs']:
                    ws, fr = went(b.events)
                    ws = ws[len(went(r['head'].events)[0]):]
                    c.prove(rule, name + ', in a loop', fr(prem0 + list(b.path)), and_(*fr(ws)), msg, w)
        c.count('functions that print')


def went(evs):
    """That each of the prints in a history succeeded."""
    r = []
    for i, e in enumerate(evs):
        k = e.args[0]
        n = sum(1 for x in evs[:i] if x.args[0] in (k, 'loop'))
        if k in ('write_all', 'write'):
            r.append(mk('ok', k, n, *e.args[1:]))
        elif k == 'call':
            r.append(not_(t.lt('s32', mk('res', k, n), I(0))))
    m = {x: mk('bool', 'printed', i) for i, x in enumerate(r)}
    m.update({x.args[0]: not_(y) for x, y in m.items() if x.op == 'not'})

    def free(xs):
        xs = [t.subst(x, m) for x in xs]
        causes = {}
        for x in xs:
            t.anyop(x, lambda y: y.op == 'source' and causes.setdefault(y, sym('cause%d' % len(causes))) and False)
        return [t.subst(x, causes) for x in xs]
    return r, free


def same_handle(c, rule, subject, prem, a, b, message, where=None):
    """Equality of two handles, with and without a printf facility."""
    for v_ in (models.NONE, models.some(sym('facility'))):
        m = {sym('printf'): v_}
        c.prove(rule, subject, [t.subst(p_, m) for p_ in prem], eq(t.subst(a, m), t.subst(b, m)), message, where)


def env(c, p):
    """The two handles of the environment are the ones for its two levels."""
    L = Library(c, 'ignoring')
    st = [s for s in L.opens if s.kind == 'return' and any(e.args[:2] == ('author', 'open') for e in s.events)]
    for name in ('stdout', 'stderr'):
        f = next((f for f in p.fns if f.j.get('local') and f.defn.endswith('io_env::IoEnv::' + name) and f.body is not None), None)
        if f is None:
            c.unknown('the environment\'s handles', name, 'no accessor')
            continue
        for s in st:
            e = next(e for e in s.events if e.args[:2] == ('author', 'open'))
            for z in L.run(f, [e.args[4]], s):
                if z.kind != 'return':
                    continue
                for prem0, o, er in made(c, p, models.some(t.tmp(t.lit(b'probe_ignoring'))), sym('printf')):
                    want = o if name == 'stdout' else er
                    same_handle(c, 'the environment\'s handles', name, prem0 + list(z.path), z.ret, want,
                            'the environment\'s %s is not the handle for %s' % (name, name), {f.name})


class Chain(session.Boundary):
    """An error with a given number of causes."""

    def __init__(self, errors):
        super().__init__(report=False)
        self.errors = errors

    def __call__(self, c):
        j = c.fn.j
        if (j.get('trait') or '').endswith('error::Error') and j.get('method') in ('source', 'cause'):
            e = deep(c.I, c.S, c.args[0])
            for i, x in enumerate(self.errors):
                if e is x or e is t.tmp(x):
                    return models.some(t.tmp(self.errors[i + 1])) if i + 1 < len(self.errors) else models.NONE
        return super().__call__(c)


def shown(e):
    return mk('fmt', 'display', 'dyn core::error::Error', e)


def printed(evs):
    """What a list of events prints, or None."""
    r = []
    for e in evs:
        if e.args[0] == 'write_all' and e.args[1].endswith(PRINT):
            r.append(e.args[3])
        elif e.args[0] == 'call':
            a = text_of(e.args[4]) if len(e.args) > 4 else None
            if a is None:
                return None
            r.append(a)
        elif e.args[0] in ('flush',):
            continue
        else:
            return None
    return t.cat(*r)


def transcript(c, p, handle, subject):
    """write_error on an error with any number of causes."""
    f = inherent(p, 'write_error')
    w = {f.name}
    tag = t.lit(b'probe_ignoring: ')
    for n in range(1, 4):
        es = [sym('error%d' % i) for i in range(n)]
        want = t.cat(t.lit(b'\n'), *[t.cat(tag, shown(e), t.lit(b'\n')) for e in es])
        ip = engine(p, Chain(es))
        ip.certain = {'write_all', 'flush'}
        ip.maxpeel = 40
        out = ip.run(f, [t.tmp(handle), t.tmp(es[0])])
        c.fns.update(g.name for g in ip.fns_seen if g.j.get('local'))
        if any(s.kind == 'undecided' for s in out):
            c.unknown('analysis', f.name, [s.notes[-1:] for s in out if s.kind == 'undecided'][:1])
            continue
        if not out:
            c.broken('reporting terminates', subject, 'reporting an error with %d cause(s) does not end' % (n - 1), w)
            continue
        for s in out:
            if s.kind != 'return':
                c.prove('never panics', subject, list(s.path), FALSE, 'reporting an error can panic', w)
                continue
            got = printed(s.events)
            if got is None:
                c.unknown('an error and its causes, one line each', subject, t.show(s.events)[:200] if 0 else 'other effects')
                continue
            if got is want:
                c.held('an error and its causes, one line each', '%d cause(s)' % (n - 1))
            elif t.anyop(got, lambda y: y.op in ('ite', 'ext', 'havoc', 'phi', 'bphi', 'star')):
                c.unknown('an error and its causes, one line each', subject, t.show(got)[:300])
            else:
                c.broken('an error and its causes, one line each', subject,
                         'an error with %d cause(s) is reported as %s' % (n - 1, t.show(got)[:300]), w)
    # ... and for any number of causes, by induction
    ip = engine(p, session.Boundary(report=False))
    ip.certain = {'write_all', 'flush'}
    e0 = sym('error')
    out = [s for s in ip.run(f, [t.tmp(handle), e0])]
    recs = [r for r in ip.loops.values() if r['grew']]
    line = lambda e: t.cat(tag, shown(e), t.lit(b'\n'))
    good = False
    why = '%d loops' % len(recs)
    if len(recs) == 1 and len(recs[0]['backs']) == 1:
        r = recs[0]
        pre = printed(r['entry'].events)
        body = printed(r['backs'][0].events[len(r['head'].events):])
        rets = [s for s in out if s.kind == 'return']
        tail = [printed([e for e in s.events if e.args[0] != 'loop'][len(r['entry'].events):]) for s in rets]
        why = 'other shape'
        for ph, init in r['phis'].items():
            u = r['ups'][0].get(ph)
            if init is None or u is None or not all(x is t.EMPTY for x in tail):
                continue
            for wrap in (lambda e: e, lambda e: mk('deref', e)):
                src = lambda e: mk('source', wrap(e))
                # (errors printed before, the next one): what each phase leaves to the next
                for pend in (src, lambda x: x):
                    nxt = models.some0(pend(ph))
                    if body is not line(mk('deref', nxt)) or pend(u) is not src(nxt):
                        continue
                    first = pend(init)
                    if not (first is models.some(e0) and pre is t.lit(b'\n') or
                            first is src(e0) and pre is t.cat(t.lit(b'\n'), line(mk('deref', e0)))):
                        continue
                    good = good or all(logic.prove(list(s.path), eq(t.discr(pend(ph), 2), I(0)))[0] == 'proved' for s in rets)
    if good:
        c.held('each round prints one cause and moves to the next', subject)
    else:
        c.unknown('each round prints one cause and moves to the next', subject, why)


def c28(c):
    handles = {}
    for desc in PLUGINS:
        L = Library(c, desc)
        name = b'probe_' + desc.encode()

        def reports(ev):
            return [e for e in ev if e.args[0] == 'report']

        def err_arg(e):
            x = e.args[2]
            while x.op == 'ptr' and x.args[0].op == 'tmp' and not x.args[1]:
                x = x.args[0].args[0]
            return x
        good = made(c, L.p, models.some(t.tmp(t.lit(name))), sym('printf'))
        for s in L.opens:
            if s.kind != 'return':
                continue
            au = [(i, e) for i, e in enumerate(s.events) if e.args[0] == 'author']
            check(c, L, desc + ' open', s, s.events, au, 'open', reports, err_arg, good, handles, opening=True)
        for slot, what, k, s, ev, au in each(L, EVENTS):
            if s.kind != 'return' or k is None:
                continue
            check(c, L, '%s %s' % (desc, slot), s, ev, au, slot, reports, err_arg, good, handles)
    for h in list(handles)[:4]:
        if handles[h] == 'ignoring':
            transcript(c, program('probe', 'probe'), h, 'write_error')
    if 'ignoring' not in handles.values():
        c.unknown('vacuity', 'write_error', 'no error is reported')


def check(c, L, subject, s, ev, au, slot, reports, err_arg, good, handles, opening=False):
    rp = reports(ev)
    prem = list(s.path)
    hd = author(au, slot)
    w = set()
    for i, e in hd:
        w |= L.where(e)
        failed = prem + [not_(author_ok(s, i))]
        if logic.prove(failed, FALSE)[0] != 'proved':
            mine = [r for r in rp if err_arg(r) is mk('author_error', nth(s, i))]
            c.prove('a failure is reported once', subject, failed, TRUE if len(mine) == 1 and len(rp) == 1 else FALSE,
                    'a failing callback does not report its error exactly once', w)
            for r in mine:
                c.prove('it is reported after the fact', subject, failed, TRUE if s.events.index(r) > i else FALSE,
                        'the report precedes the failure', w)
        succeeded = prem + [author_ok(s, i)]
        c.prove('a success reports nothing', subject, succeeded, FALSE if rp else TRUE, 'a callback that succeeds reports an error', w)
    if not hd:
        if opening:
            bad = prem + [not_(and_(*ENVOK))]
            c.prove('a failure is reported once', subject, bad, TRUE if len(rp) == 1 else FALSE,
                    'open refuses without reporting the error exactly once')
            wraps = author(au, 'wrap')
            for r in rp:
                for i, e in wraps:
                    c.prove('the error is the one that is reported', subject, prem, eq(err_arg(r), e.args[4]),
                            'the error that is reported is not the one that occurred')
            c.prove('a success reports nothing', subject, prem + [and_(*ENVOK)], FALSE if rp else TRUE,
                    'open reports an error although nothing failed')
        elif not any(e.args[0] == 'panicked' for e in ev):
            c.prove('a success reports nothing', subject, prem, FALSE if rp else TRUE, 'a callback that succeeds reports an error')
    for r in rp:
        for prem0, o, e in good:
            same_handle(c, 'on the user\'s stderr', subject, prem0 + prem, r.args[1], e, 'an error is not reported on stderr under the plugin\'s name', w)
        if r.args[1] not in handles:
            handles[r.args[1]] = 'ignoring' if 'ignoring' in subject else 'heeding'
        o = mk('ok', 'report', sum(1 for e in s.events[:s.events.index(r)] if e.args[0] in ('report', 'loop')), *r.args[1:])
        c.ensure('printing does not change the status', not any(t.occurs(x, o) for x in list(s.path) + [s.ret]), subject,
                 'whether the report could be printed changes the status', w)
