"""C15-C19, C28: what the library's callbacks do with an arbitrary author's plugin."""
from .lib import *

OPEN_OK, OPEN_DENY, LOG_OK, LOG_DENY = I(1), I(0xffffffff), I(1), I(0)
LOGS = ['log_ttyin', 'log_ttyout', 'log_stdin', 'log_stdout', 'log_stderr']
EVENTS = LOGS + ['change_winsize']
ENVOK = SESSION[:-1]


def holders(L):
    """States that can precede a callback: (what, state, index of the author's open or None)."""
    r = [('before open', None, None)]
    for s in L.opens:
        if s.kind != 'return':
            continue
        a = author([(i, e) for i, e in enumerate(s.events) if e.args[0] == 'author'], 'open')
        if not a:
            r.append(('without the plugin', s, None))
            continue
        for what, cond in (('opened', author_ok(s, a[0][0])), ('refused', not_(author_ok(s, a[0][0])))):
            z = L.holds(s, cond)
            if z is not None and logic.prove(list(z.path), FALSE)[0] != 'proved':
                r.append((what, z, a[0][0] if what == 'opened' else None))
    return r


def panicked(events):
    return any(e.args[0] == 'panicked' for e in events)


def sessions(L):
    """holders, and what further callbacks make of them."""
    hs = holders(L)
    for what, st, k in list(hs):
        if k is not None:
            hs += [(what + ', after other callbacks', z, k) for z in L.later([st])]
    return hs


def each(L, slots):
    """(slot, what precedes it, preceding state, final state, new events, author events) of every history."""
    for what, st, k in sessions(L):
        for slot in slots:
            if slot not in L.slots or L.slots[slot] is None:
                continue
            for s, ev, au in L.call(slot, st):
                yield slot, what, k, s, ev, au


def statuses(c, prog, desc):
    """The library's and the plugin's own errors are only ever denials."""
    n = 0
    for f in prog.fns:
        j = f.j
        if not j.get('local') or not (j.get('trait') or '').endswith('convert::From') or j.get('method') != 'from' or f.body is None:
            continue
        ret = prog.types[j['sig'][-1]].get('def', '').rsplit('::', 1)[-1]
        arg = prog.types[j['sig'][0]]
        if ret not in ('OpenStatus', 'LogStatus') or not arg.get('def', '').endswith('::Error') or 'probe' in f.name:
            continue
        ip = engine(prog, session.Boundary())
        deny = next((i for i, v_ in enumerate(prog.types[j['sig'][-1]]['variants']) if v_['name'] == 'Deny'), None)
        for s in ip.run(f, [sym('error')]):
            if s.kind == 'undecided':
                c.unknown('errors are denials', f.name, s.notes[-1] if s.notes else '?')
                continue
            n += 1
            if s.kind != 'return':
                c.broken('errors are denials', f.name, 'converting an error to a status can panic', {f.name})
                continue
            c.prove('errors are denials', f.name, list(s.path), eq(t.discr(s.ret, 3 + (ret == 'OpenStatus')), I(deny)),
                    'an error of the library or the plugin becomes a status other than Deny', {f.name})
    c.count('error conversions', n)


def c15(c):
    # the approval plugin itself: only success and denial
    P = Plugin(c)
    for s in P.decided():
        if s.kind == 'return':
            c.prove('open answers 1 or -1', 'sudo_pair open', list(s.path), or_(eq(s.ret, OPEN_OK), eq(s.ret, OPEN_DENY)),
                    'opening answers with a status that is neither success nor a denial')
    starts = [('before open', None)] + [('after open', s) for s in P.decided() if s.kind == 'return']
    P.paired_later()
    starts += [('after callbacks', s) for a, z in zip((P.paired(), P.exempt_states()), P._later) for s in z[len(a):]]
    seen = set()
    for what, st in starts:
        key = None if st is None else (tuple(st.path), tuple(sorted((k, v_) for k, v_ in st.mem.items() if k.op == 'static')) if 0 else id(st))
        if key in seen:
            continue
        seen.add(key)
        for slot in EVENTS:
            for s, ev in P.callback(slot, st):
                if s.kind != 'return':
                    continue
                c.prove('callbacks answer 1 or 0', 'sudo_pair %s' % slot, list(s.path),
                        or_(eq(s.ret, LOG_OK), eq(s.ret, LOG_DENY)),
                        'a callback answers with a status that is neither success nor a denial')
                if any(e.args[0] == 'report' for e in ev):
                    c.prove('an error is never success', 'sudo_pair %s' % slot, list(s.path), eq(s.ret, LOG_DENY),
                            'a callback that failed does not end the session')
    # every plugin
    for desc in PLUGINS + ('defaulting',):
        L = Library(c, desc)
        own = desc == 'defaulting'
        for s in L.opens:
            if s.kind != 'return':
                continue
            au = [(i, e) for i, e in enumerate(s.events) if e.args[0] == 'author']
            op, cv = author(au, 'open'), author(au, 'convert')
            prem = list(s.path)
            bad = prem + [not_(and_(*ENVOK))]
            if own:
                c.prove('open denies what it cannot parse', desc, bad, eq(s.ret, OPEN_DENY),
                        'open does not deny although the version or the environment was unacceptable')
                if op:
                    c.prove('open denies the plugin\'s errors', desc, prem + [not_(author_ok(s, op[0][0]))],
                            eq(s.ret, OPEN_DENY), 'open does not deny although the plugin\'s open failed')
            else:
                if cv:
                    i = cv[-1][0]
                    c.prove('open answers the author\'s status', desc, prem, eq(s.ret, status_term(L.p, s, i)),
                            'open does not answer with the status the plugin\'s error converts to', L.where(s.events[i]))
                else:
                    c.prove('open denies what it cannot parse', desc, bad, eq(s.ret, OPEN_DENY),
                            'open neither converts the error nor denies')
                    if op:
                        c.prove('open answers the author\'s status', desc, prem + [not_(author_ok(s, op[0][0]))],
                                eq(s.ret, OPEN_DENY), 'the plugin\'s open failed and its error\'s status is not the answer')
            if op:
                c.prove('success is 1', desc + ' open', prem + [author_ok(s, op[0][0])], eq(s.ret, OPEN_OK),
                        'a successful open is not reported as success')
        for slot, what, k, s, ev, au in each(L, EVENTS):
            if s.kind != 'return':
                continue
            hd, cv = author(au, slot), author(au, 'convert')
            prem = list(s.path)
            if k is None:
                c.prove('without a plugin callbacks deny', '%s %s' % (desc, slot), prem, eq(s.ret, LOG_DENY),
                        'a callback that finds no plugin does not end the session')
            for i, e in hd:
                c.prove('success is 1', '%s %s' % (desc, slot), prem + [author_ok(s, i)], eq(s.ret, LOG_OK),
                        'a successful callback is not reported as success')
                want = status_term(L.p, s, cv[-1][0]) if cv and not own else LOG_DENY
                c.prove('a failed callback answers its error\'s status', '%s %s' % (desc, slot),
                        prem + [not_(author_ok(s, i))], eq(s.ret, want),
                        'a callback whose handler failed does not answer with the status of the error', L.where(e))
            if not hd and not k:
                continue
            if not hd:
                c.prove('callbacks answer 1 or 0', '%s %s' % (desc, slot), prem, or_(eq(s.ret, LOG_OK), eq(s.ret, LOG_DENY)),
                        'a callback answers with a status that is neither success nor a denial')
        statuses(c, L.p, desc) if desc == 'heeding' else None
    statuses(c, P.p, 'sudo_pair')


def c16(c):
    import re
    n = 0
    runs = [Plugin(c)] + [Library(c, d, panics=True) for d in PLUGINS + ('defaulting',)]
    for L in runs:
        lib = isinstance(L, Library)
        name = 'plugin' if lib else 'sudo_pair'
        starts = [('before open', None)] + [('after open', s) for s in L.decided() if s.kind == 'return']
        starts += [('after callbacks', s) for s in L.later(L.started())]
        for s in L.decided():
            n += boundary(c, L, name, 'open', s, s.events)
        for what, st in starts:
            ends = []
            for slot in EVENTS + ['show_version', 'close']:
                for s, ev in (L.callback(slot, st)):
                    n += boundary(c, L, name, slot, s, ev)
                    if slot == 'close' and s.kind == 'return':
                        ends.append(s)
            if not lib:
                continue
            for st2 in ends[:4]:
                for slot in EVENTS + ['show_version', 'close']:
                    for s, ev in L.callback(slot, st2):
                        n += boundary(c, L, name, slot, s, ev)
    c.count('callback histories', n)
    c.count('callback histories in which something panicked', PANICS[0])
    for path in ('Cargo.toml', 'sudo_pair/Cargo.toml', 'sudo_plugin/Cargo.toml', 'sudo_plugin-sys/Cargo.toml'):
        p = os.path.join('/repo', path)
        if os.path.exists(p):
            src = open(p).read()
            c.ensure('panics unwind', not re.search(r'^\s*panic\s*=\s*[\'"]abort[\'"]', src, re.M), path,
                     'the build profile turns panics into aborts, which no boundary can stop')


PANICS = [0]


def boundary(c, L, name, slot, s, ev):
    if s.kind == 'undecided':
        return 0
    sub = '%s %s' % (name, slot)
    p = [e for e in ev if e.args[0] == 'panicked']
    w = L.where(*p[-1:])
    if not c.ensure('nothing unwinds out of a callback', s.kind == 'return', sub,
                    '%s can %s: a panic (%s) leaves it' % (slot, s.kind or '?', p[-1].args[1] if p else 'unknown'), w):
        return 1
    if p:
        PANICS[0] += 1
        if slot == 'close':
            c.held('a panic denies')
        else:
            want = OPEN_DENY if slot in ('open', 'show_version') else LOG_DENY
            c.prove('a panic denies', sub, list(s.path), eq(s.ret, want),
                    '%s does not deny after a panic (%s)' % (slot, p[-1].args[1]), w)
    return 1


HINT = {k: 'iolog_' + k[4:] for k in LOGS}
DATA = mk('raw', sym('buf'), sym('len'))


def value(x):
    """Data behind a pointer to a temporary or a value."""
    while x.op in ('ptr', 'tmp') and x.args[0] is not None and isinstance(x.args[0], t.T):
        if x.op == 'ptr' and len(x.args) > 1 and x.args[1]:
            return x
        x = x.args[0]
    return x


def c17(c):
    n = 0
    for desc in PLUGINS:
        L = Library(c, desc)
        for what, st, k in sessions(L):
            if k is None:
                continue
            me = plugin_of(st, k)
            for slot in EVENTS:
                for s, ev, au in L.call(slot, st):
                    if s.kind != 'return':
                        continue
                    n += 1
                    sub = '%s %s' % (desc, slot)
                    prem = ENVOK + list(s.path)
                    hd = [(i, e) for i, e in au if e.args[1] not in ('convert', 'wrap')]
                    if not hd:
                        off = [not_(eq(v.C(HINT[slot]), FALSE))] if desc == 'heeding' and slot in HINT else []
                        c.prove('handlers are skipped only when the hint is off', sub, prem + off, FALSE,
                                '%s does not reach the plugin although nothing allows skipping it' % slot)
                        c.prove('a skipped handler is success', sub, prem, eq(s.ret, LOG_OK),
                                '%s does not report success although the stream is not to be logged' % slot)
                        continue
                    w = L.where(hd[0][1])
                    if not c.ensure('exactly once', len(hd) == 1 and not looped(ev), sub,
                                    '%s calls more than one handler' % slot, w):
                        continue
                    i, e = hd[0]
                    if desc == 'heeding' and slot in HINT:
                        c.prove('handlers are not called when the hint is off', sub, prem,
                                not_(eq(v.C(HINT[slot]), FALSE)),
                                '%s runs the handler although sudo\'s hint for that stream is off' % slot, w)
                    if not c.ensure('the matching handler', e.args[1] == slot, sub,
                                    '%s is handled by `%s`' % (slot, e.args[1]), w):
                        continue
                    a = e.args[4:]
                    c.ensure('the stored plugin', same_plugin(L, s, a[0], me), sub,
                             '%s is handled by something other than the plugin that was opened' % slot, w)
                    if slot == 'change_winsize':
                        c.prove('the exact data', sub, prem, and_(eq(a[1], sym('arg0')), eq(a[2], sym('arg1'))),
                                '%s is not given the lines and columns sudo passed, in that order' % slot, w)
                    else:
                        c.prove('the exact data', sub, prem, eq(value(a[1]), DATA),
                                '%s is not given exactly the bytes sudo passed' % slot, w)
                    cv = author(au, 'convert')
                    c.prove('the verdict is passed on', sub, prem + [author_ok(s, i)], eq(s.ret, LOG_OK),
                            'the handler\'s success is not passed on to sudo', w)
                    bad = prem + [not_(author_ok(s, i))]
                    if cv:
                        c.prove('the verdict is passed on', sub, bad, eq(s.ret, status_term(L.p, s, cv[-1][0])),
                                'the handler\'s failure is not passed on to sudo with its status', w)
                    else:
                        c.prove('the verdict is passed on', sub, bad, FALSE,
                                'the handler\'s failure is not passed on to sudo with its status', w)
            for s, ev, au in L.call('show_version', st):
                n += 1
                hd = [(i, e) for i, e in au]
                sub = '%s show_version' % desc
                if not c.ensure('exactly once', len(hd) == 1 and hd[0][1].args[1] == 'show_version', sub,
                                'show_version does not call its handler exactly once'):
                    continue
                e = hd[0][1]
                c.prove('the exact data', sub, list(s.path), eq(e.args[5], not_(eq(sym('arg0'), I(0)))),
                        'show_version is not told whether sudo asked for verbose output', L.where(e))
                c.prove('the verdict is passed on', sub, list(s.path), eq(s.ret, OPEN_OK),
                        'show_version does not answer with success', L.where(e))
    c.count('callback histories with a plugin', n)
    if not n:
        c.unknown('vacuity', 'callbacks', 'no state with a plugin')


def same_plugin(L, s, a, me):
    try:
        x = deep(L.ip, s, a)
        if x.op == 'ptr' and x.args[0].op == 'static':
            x = L.ip.load(s, x.args[0], x.args[1])
    except Exception:
        return False
    return value(x) is me or x is me


def c18(c):
    n = 0
    for desc in PLUGINS + ('defaulting',):
        L = Library(c, desc)
        for s in L.decided():
            n += 1
            prem = list(s.path)
            au = [(i, e) for i, e in enumerate(s.events) if e.args[0] == 'author']
            op = author(au, 'open')
            other = [(i, e) for i, e in au if e.args[1] not in ('open', 'wrap', 'convert')]
            c.ensure('open runs no other handler', not other, desc, 'open runs a handler of the plugin other than its open')
            if op:
                w = L.where(op[0][1])
                c.prove('plugin code only after the checks', desc, prem, and_(*SESSION),
                        'the plugin\'s open runs although the API version or the environment is not acceptable '
                        '(or there is no command)', w)
                c.ensure('at most once', len(op) == 1 and not looped(s.events), desc, 'the plugin\'s open runs more than once', w)
                continue
            c.prove('commands reach the plugin', desc, prem + SESSION, FALSE,
                    'an invocation with a command does not run the plugin\'s open')
            if s.kind != 'return':
                continue
            noc = prem + ENVOK + [not_(v.HAS_COMMAND)]
            c.prove('a version query succeeds', desc, noc, eq(s.ret, OPEN_OK), 'an invocation without a command is not answered with success')
            bad = prem + [not_(and_(*ENVOK))]
            rep = idx(s, 'report')
            if rep:
                c.prove('a refusal is about the checks', desc, prem, not_(and_(*ENVOK)),
                        'open reports an error although version and environment are acceptable', L.where(s.events[rep[0]]))
                c.ensure('refusal is reported on stderr', on_stderr(s.events[rep[0]]), desc,
                         'the error is not reported on stderr', L.where(s.events[rep[0]]))
            else:
                c.prove('a refusal is reported', desc, bad, FALSE,
                        'open refuses an unacceptable version or environment without reporting the error')
            says(c, L, desc, s, prem, [e.args[4] for i, e in author(au, 'wrap')] if desc != 'defaulting' else
                 [L.ip.load(s, *L.ip.deref(s, s.events[i].args[2])) for i in rep])
            if desc == 'defaulting':
                c.prove('unacceptable environments are refused', desc, bad, eq(s.ret, OPEN_DENY),
                        'open does not refuse an unacceptable version or environment')
            else:
                cv = author(au, 'convert')
                if cv:
                    c.prove('unacceptable environments are refused', desc, bad, eq(s.ret, status_term(L.p, s, cv[-1][0])),
                            'open does not refuse an unacceptable version or environment with the status of the error')
                else:
                    c.prove('unacceptable environments are refused', desc, bad, FALSE,
                            'open does not refuse an unacceptable version or environment')
    c.count('histories of open', n)


def says(c, L, desc, s, prem, errs):
    """The error tells which check failed."""
    from .rules_options import variant, payload
    rule = 'the error tells which check failed'
    k, fields, n = variant(L.p, 'UnsupportedApiVersion')
    ver = sym('version')
    low = lambda x: t.cast_int(32, False, 16, x)
    got = (low(t.arith('shr', 32, ver, I(16))), low(t.arith('and', 32, ver, I(0xffff))))
    for e in errs:
        while e.op == 'ptr' and e.args[0].op == 'tmp' and not e.args[1]:
            e = e.args[0].args[0]
        pv, rq = payload(e, L.p, k, fields, 'provided'), payload(e, L.p, k, fields, 'required')
        pair = lambda x, a, b: and_(eq(models.field(x, 0, 'major'), a), eq(models.field(x, 1, 'minor'), b))
        c.prove(rule, 'API version', prem + [not_(v.version_ok())],
                and_(eq(t.discr(e, n), I(k)), pair(pv, *got), pair(rq, I(1), I(9))),
                'an unsupported API version is not reported as such, with the version sudo has and the one that is needed')
        lists = ('Settings', 'UserInfo', 'CommandInfo')
        c.prove(rule, 'option lists', prem + [v.version_ok(), not_(and_(*[v.parsed(x) for x in lists]))],
                or_(*[and_(not_(v.parsed(x)), eq(e, mk('parse_error', x))) for x in lists]),
                'a list of options that can not be read is not reported as what is wrong with it')


def on_stderr(e):
    """Is the facility of a report the error one?"""
    fac = e.args[1]
    return fac.op == 'agg' and any(isinstance(a, t.T) and a.op == 'agg' and a.args[0] == 1 for a in fac.args[1:])


def c19(c):
    n = 0
    for desc in PLUGINS + ('defaulting',):
        L = Library(c, desc)
        dflt = desc == 'defaulting'
        for what, st, k in holders(L):
            if st is not None:
                for i, e in enumerate(st.events):
                    if e.args[0] == 'author' and e.args[1] == 'open':
                        n += 1
                        w = L.where(e)
                        q = e.args[4]
                        c.ensure('the environment is stored before open runs',
                                 q.op == 'ptr' and q.args[0].op == 'static' and e.args[3] is TRUE, desc,
                                 'the plugin\'s open is not given the stored environment', w)
            for slot in EVENTS + ['show_version', 'close']:
                for s, ev, au in L.call(slot, st):
                    n += 1
                    hd = [(i, e) for i, e in au if e.args[1] not in ('convert', 'wrap')]
                    if k is None and slot in EVENTS:
                        sub = '%s %s %s' % (desc, slot, what)
                        c.ensure('no plugin, no handler', not hd, sub, '%s runs plugin code although no plugin is stored' % slot,
                                 L.where(*[e for _, e in hd]))
                        if s.kind == 'return':
                            c.prove('no plugin, denial', sub, list(s.path), eq(s.ret, LOG_DENY),
                                    '%s does not deny although no plugin is stored' % slot)
                    if k is None and slot == 'close':
                        c.ensure('no plugin, no handler', not hd, '%s close %s' % (desc, what),
                                 'close runs plugin code although no plugin is stored', L.where(*[e for _, e in hd]))
                    if slot == 'close':
                        after_close(c, L, desc, what, st, k, s, hd)
                    elif k is not None:
                        # the plugin stays
                        for i, e in hd:
                            c.ensure('the environment is there while the plugin is', e.args[3] is TRUE, '%s %s' % (desc, slot),
                                     '%s runs the handler without the environment the plugin was opened with' % slot, L.where(e))
                        sub = '%s close after %s' % (desc, slot)
                        for z, ev2, au2 in L.call('close', s) if s.kind == 'return' else ():
                            one_close(c, L, sub, st, k, z, [(i, e) for i, e in au2 if e.args[1] not in ('convert', 'wrap')])
    c.count('histories', n)
    if not n:
        c.unknown('vacuity', 'callbacks', 'no histories')


def one_close(c, L, sub, st, k, s, hd):
    if sub.startswith('defaulting') and not hd:
        return                                       # its close is the library's, which does nothing
    w = L.where(*[e for _, e in hd])
    if not c.ensure('closed exactly once', len(hd) == 1 and hd[0][1].args[1] == 'close', sub,
                    'close does not close the plugin exactly once', w):
        return
    e = hd[0][1]
    c.ensure('the opened plugin is closed', value(e.args[4]) is plugin_of(st, k), sub,
             'what is closed is not the plugin that was opened', w)
    c.prove('close is told the exit status and error', sub, list(s.path),
            and_(eq(e.args[5], sym('arg0')), eq(e.args[6], sym('arg1'))),
            'the plugin is not closed with the exit status and error sudo passed', w)
    c.ensure('the environment outlives the plugin', e.args[3] is TRUE, sub,
             'the environment is released before the plugin is closed', w)


def after_close(c, L, desc, what, st, k, s, hd):
    sub = '%s close %s' % (desc, what)
    if k is not None:
        one_close(c, L, sub, st, k, s, hd)
    if s.kind != 'return' or (k is None and st is None):
        return
    for slot in EVENTS + ['close', 'show_version']:
        for z, ev, au in L.call(slot, s):
            h = [(i, e) for i, e in au if e.args[1] not in ('convert', 'wrap')]
            sub = '%s %s after close' % (desc, slot)
            if slot == 'show_version' and k is None:
                continue
            c.ensure('nothing runs after close', not h, sub, '%s runs plugin code after the plugin was closed' % slot,
                     L.where(*[e for _, e in h]))
            if z.kind == 'return' and slot in EVENTS:
                c.prove('denied after close', sub, list(z.path), eq(z.ret, LOG_DENY),
                        '%s does not deny after the plugin was closed' % slot)
            if z.kind == 'return' and slot == 'show_version':
                c.prove('the environment is released on close', sub, list(z.path), eq(z.ret, OPEN_DENY),
                        'the environment is still there after the plugin was closed')
