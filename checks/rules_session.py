"""C01-C07, C09-C12: what a session does between open and close."""
from .sess import *


def first(s, *names):
    i = idx(s, *names)
    return i[0] if i else None


def c01(c):
    P = Plugin(c)
    n = 0
    for s, may in P.allowed():
        prem = SESSION + list(s.path) + may + [not_(v.exempt())]
        if not streams(s):
            # nobody connected: must not be possible for a session that needs a pair
            c.prove('allowed sessions without a pair are exempt', 'open', prem, FALSE,
                    'open allows a session that is not exempt although nobody connected to the approval socket')
            continue
        n += 1
        ai, st = streams(s)[0]
        w = P.where(s.events[ai])
        c.prove('allowed implies the connection was accepted', 'accept', prem, ok_of(s, ai),
                'open allows the session although accepting the connection failed', w)
        lst = s.events[ai].args[1]
        binds = [i for i in idx(s, 'bind') if i < ai and lst.op == 'listener'
                 and lst.args[0] == number_of(s, i) and lst.args[1] is s.events[i].args[1]]
        if c.ensure('the connection comes from the socket of this session', bool(binds), 'accept',
                    'the accepted connection does not come from the socket created for this session', w):
            c.prove('allowed implies the socket was created', 'bind', prem, ok_of(s, binds[0]),
                    'open allows the session although creating the socket failed', P.where(s.events[binds[0]]))
        for i in idx(s, 'select'):
            c.prove('allowed implies the wait succeeded', 'select', prem, ok_of(s, i),
                    'open allows the session although waiting for a connection failed', P.where(s.events[i]))
        rd = [r for r in reads(s.events) if r[2] is st]
        if not c.ensure('allowed implies the pair was asked', bool(rd), 'read',
                        'open allows the session without reading an answer from the pair', w):
            continue
        ri = rd[0][0]
        w = P.where(s.events[ri])
        sent = [i for i, d, _ in to_pair(s.events) if d is st and i < ri]
        c.ensure('the pair is prompted before it is asked', bool(sent), 'write',
                 'the answer is read although no prompt was sent to the pair', w)
        for i in sent:
            c.prove('allowed implies the prompt was delivered', 'write', prem, ok_of(s, i),
                    'open allows the session although sending the prompt failed', P.where(s.events[i]))
        if looped(s.events):
            c.unknown('first answer', 'read', 'loop around the dialogue')
            continue
        got, byte = got_first_byte(s, ri)
        c.prove('allowed implies the first byte is y or Y', 'read', prem,
                and_(got, or_(eq(byte, I(ord('y'))), eq(byte, I(ord('Y'))))),
                'open allows the session although the first byte the pair sent is not y or Y', w)
    c.count('histories that start a paired session', n)
    if n == 0:
        c.unknown('vacuity', 'open', 'no history starts a paired session')


def c02(c):
    P = Plugin(c)
    ex = v.exempt()
    for s in P.decided():
        sock = idx(s, 'bind', 'accept', 'select', 'remove', 'chown', 'chmod')
        may = [a for x, a in P.allowed() if x is s]
        if may and not streams(s):
            c.prove('allowed without a pair implies exempt', 'open', SESSION + list(s.path) + may[0], ex,
                    'open lets a session start without a pair although none of the six conditions exempts it')
        if not may or sock:
            c.prove('exempt sessions are allowed and touch no socket', 'open', SESSION + list(s.path), not_(ex),
                    'a session that one of the six conditions exempts is ' +
                    ('made to wait for a pair' if sock else 'refused'), P.where(*[s.events[i] for i in sock[:1]]))
        elif may[0]:
            c.prove('exempt sessions are allowed and touch no socket', 'open', SESSION + list(s.path) + [ex], may[0][0],
                    'a session that one of the six conditions exempts is refused')
    c.count('histories of open', len(P.decided()))


PROMPTS = {'write_all', 'write', 'sock_write'}


def c03(c):
    P = Plugin(c)
    bad = [not_(v.exempt()), USERCHANGE, v.NAMED_GROUP]
    for s in P.decided():
        prem = SESSION + list(s.path) + bad
        may = [a for x, a in P.allowed() if x is s]
        ev = [e for e in s.events if e.args[0] in PROMPTS | FSMUT | {'select', 'accept', 'umask'}]
        if may:
            c.prove('user and explicit group together are refused', 'open', prem + may[0], FALSE,
                    'open allows a session that changes user and names a group explicitly')
        if ev:
            c.prove('refused before anything is shown or created', 'open', prem, FALSE,
                    'a session that changes user and names a group gets as far as `%s` before it is refused'
                    % ev[0].args[0], P.where(ev[0]))
        if not may and not ev:
            c.held('user and explicit group together are refused')


def c04(c):
    P = Plugin(c)
    want_u = ite(USERCHANGE, v.C('runas_euid'), I(0xffffffff))
    want_g = ite(v.NAMED_GROUP, v.C('runas_egid'), I(0xffffffff))
    want_m = ite(USERCHANGE, I(0o200), I(0o020))
    n = 0
    for s in P.decided():
        wait = first(s, 'select', 'accept')
        bs = idx(s, 'bind')
        prem = SESSION + list(s.path) + [not_(v.exempt())]
        for b in bs:
            um = [e.args[1] for e in s.events[:b] if e.args[0] == 'umask']
            c.prove('created without permission bits', 'bind', prem,
                    eq(t.arith('and', 32, um[-1], I(0o777)), I(0o777)) if um else FALSE,
                    'the approval socket is created while the umask leaves permission bits', P.where(s.events[b]))
        if wait is None:
            continue
        n += 1
        w = P.where(s.events[wait])
        bs = [b for b in bs if b < wait]
        if not c.ensure('created before the wait', bool(bs), 'select', 'waits for a pair without having created a socket', w):
            continue
        b = bs[-1]
        path = s.events[b].args[1]
        ch = [i for i in idx(s, 'chown') if b < i < wait and s.events[i].args[1] is path]
        cm = [i for i in idx(s, 'chmod') if b < i < wait and s.events[i].args[1] is path]
        if not c.ensure('owner set before the wait', bool(ch), 'chown',
                        'waits for a pair without having set the owner of the socket', w) or \
           not c.ensure('mode set before the wait', bool(cm), 'chmod',
                        'waits for a pair without having set the mode of the socket', w):
            continue
        c.ensure('ownership before permissions', ch[-1] < cm[0], 'chmod',
                 'permission bits are granted before the ownership of the socket is changed', P.where(s.events[cm[0]]))
        for i in (ch[-1], cm[-1]):
            c.prove('failures refuse', s.events[i].args[0], prem, ok_of(s, i),
                    'waits for a pair although %s on the socket failed' % s.events[i].args[0], P.where(s.events[i]))
        e = s.events[ch[-1]]
        c.prove('owner', 'chown', prem, eq(e.args[2], want_u),
                'the owner given to the approval socket is not the target user (or unchanged)', P.where(e))
        c.prove('group', 'chown', prem, eq(e.args[3], want_g),
                'the group given to the approval socket is not the explicitly named one (or unchanged)', P.where(e))
        e = s.events[cm[-1]]
        c.prove('mode', 'chmod', prem, and_(eq(e.args[2], want_m), or_(USERCHANGE, v.NAMED_GROUP)),
                'the mode of the approval socket is not exactly 0200 for a user or 0020 for a group', P.where(e))
    c.count('histories that wait for a pair', n)
    if not n:
        c.unknown('vacuity', 'open', 'no history waits for a pair')


def mds(lits):
    """Every look at the file system in a set of conditions: {(name, stamp, path)}"""
    r = set()

    def go(y, seen=set()):
        if isinstance(y, t.T):
            if y.op == 'md' or (y.op == 'ok' and y.args[0] in ('stat', 'lstat', 'metadata')):
                r.add((y.args[0], y.args[1], y.args[2]))
            for a in y.args:
                go(a)
        elif isinstance(y, tuple):
            for a in y:
                go(a)
    for l in lits:
        go(l)
    return r


def parent(p):
    if p.op == 'pjoin':
        return p.args[0]
    return mk('parent', p)


def vetted(name, n, d):
    m = mk('md', name, n, d)
    mode = t.fld(m, 'st_mode')
    return and_(mk('ok', name, n, d),
                eq(t.arith('and', 32, mode, I(0o170000)), I(0o040000)),
                or_(eq(t.fld(m, 'st_uid'), sym('geteuid')), eq(t.fld(m, 'st_uid'), v.U('euid'))),
                eq(t.arith('and', 32, mode, I(0o022)), I(0)))


def c05(c):
    P = Plugin(c)
    n = 0
    for s in P.decided():
        i = first(s, 'bind', 'remove', 'chown', 'chmod', 'select', 'accept', 'fsmut')
        if i is None:
            continue
        n += 1
        e = s.events[i]
        path = next((x.args[1] for x in s.events if x.args[0] in ('bind', 'remove')), None)
        if path is None:
            c.unknown('directory vetted', e.args[0], 'no socket path')
            continue
        looks = [(a, k, d) for a, k, d in mds(s.path) if k <= i and same_dir(d, parent(path))]
        c.prove('directory vetted before the first effect', e.args[0], SESSION + list(s.path),
                or_(*[vetted(*x) for x in looks]),
                '`%s` happens although the socket directory was not found to be a directory owned by the effective '
                'user and writable by nobody else' % e.args[0], P.where(e))
    c.count('histories that touch the socket directory', n)
    if not n:
        c.unknown('vacuity', 'open', 'no history touches the socket directory')


def same_dir(a, b):
    return a is b


def c06(c):
    P = Plugin(c)
    n = 0
    for s in P.decided():
        w = P.where(*[s.events[i] for i in idx(s, 'umask')][-1:])
        if idx(s, 'umask') or UMASK in s.mem:
            c.prove('umask restored', 'umask', list(s.path), eq(s.mem.get(UMASK, sym('umask0')), sym('umask0')),
                    'open returns with a umask other than the one it found', w)
        for b in idx(s, 'bind'):
            n += 1
            path = s.events[b].args[1]
            if any(i > b and s.events[i].args[1] is path for i in idx(s, 'remove')):
                c.held('socket unlinked', 'remove follows bind')
                continue
            goals = []
            for name, k, d in mds(s.path):
                if k > b and d is path:
                    goals += [not_(mk('ok', name, k, d)), not_(mk('is_socket', mk('md', name, k, d)))]
            goals += gone(s.path, path, b)
            c.prove('socket unlinked', 'bind', list(s.path) + [ok_of(s, b)], or_(*goals),
                    'open returns without having unlinked the approval socket it created', P.where(s.events[b]))
    c.count('histories that create a socket', n)
    if not n:
        c.unknown('vacuity', 'open', 'no history creates a socket')


def gone(lits, path, after):
    """Negative answers to "does the path exist?" asked after event `after`."""
    r = []

    def go(y):
        if isinstance(y, t.T):
            if y.op == 'bool' and len(y.args) == 3 and y.args[2] is path and isinstance(y.args[1], int) and y.args[1] > after:
                r.append(not_(y))
            for a in y.args:
                go(a)
        elif isinstance(y, tuple):
            for a in y:
                go(a)
    for l in lits:
        go(l)
    return r


def session_path():
    return t.pjoin(v.SOCKET_DIR, t.cat(t.dec(v.U('uid')), v.lit('.'), t.sdec(32, v.U('pid')), v.lit('.sock')))


def all_histories(P):
    """Every history of open, then of every callback that can follow a successful one, with where its new events begin."""
    for s in P.decided():
        yield 'open', s, 0
    for st in P.paired_later() + P.exempt_later():
        for slot in CALLBACKS + ['close', 'show_version']:
            for s, ev in P.callback(slot, st):
                yield slot, s, len(s.events) - len(ev)


def c07(c):
    P = Plugin(c)
    bound = {s.events[i].args[1] for s in P.decided() for i in idx(s, 'bind')}
    n = 0
    for slot, s, k in all_histories(P):
        last = {}
        for i, e in enumerate(s.events):
            if i < k and e.args[0] not in ('bind', 'remove'):
                continue
            w = P.where(e)
            if e.args[0] == 'open' and i >= k:
                n += 1
                fl = e.args[2]
                if fl.op != 'flags':
                    c.unknown('files are opened, never created or truncated', slot, fl)
                    continue
                bad = sorted(set(fl.args) & {'create', 'create_new', 'truncate'})
                c.ensure('files are opened, never created or truncated', not bad, slot,
                         '%s opens a file in a way that can create or truncate it (%s)' % (slot, ', '.join(bad)), w)
                continue
            m = mutation(e)
            if m is None:
                continue
            path, verb = m
            if i < k:
                last[path] = i
                continue
            n += 1
            if not c.ensure('only known effects', path is not None, verb,
                            '%s changes the file system through `%s`' % (slot, verb), w):
                continue
            if path in bound:
                c.held('only the session path is touched')
            else:
                c.prove('only the session path is touched', verb, SESSION + list(s.path), eq(path, session_path()),
                        '%s applies `%s` to something other than the approval socket\'s path' % (slot, verb), w)
            if verb == 'remove':
                j = last.get(path)
                goals = [and_(mk('ok', a, b, d), mk('is_socket', mk('md', a, b, d)))
                         for a, b, d in mds(s.path) if d is path and b <= i and (j is None or b > j)]
                if j is not None and s.events[j].args[0] in ('bind', 'chown', 'chmod'):
                    b = [x for x in idx(s, 'bind') if x <= j and s.events[x].args[1] is path]
                    r = [x for x in idx(s, 'remove') if b and b[-1] < x < i and s.events[x].args[1] is path]
                    if b and not r:
                        goals.append(ok_of(s, b[-1]))
                c.prove('only sockets are removed', 'remove', SESSION + list(s.path), or_(*goals),
                        'a file is removed without having been found to be a socket', w)
            last[path] = i
    c.count('file-system operations looked at', n)
    if not n:
        c.unknown('vacuity', 'open', 'no file-system operation found')


def c08(c):
    P = Plugin(c)
    n = 0
    for s in P.decided():
        for i in idx(s, 'bind'):
            n += 1
            c.prove('the socket is <socket_dir>/<uid>.<pid>.sock', 'bind', SESSION + list(s.path),
                    eq(s.events[i].args[1], session_path()),
                    'the approval socket is not created at <socket_dir>/<uid>.<pid>.sock', P.where(s.events[i]))
    c.count('sockets created', n)
    if not n:
        c.unknown('vacuity', 'open', 'no history creates a socket')
    from . import script
    script.c08(c)


OUTPUT = ['log_ttyout', 'log_stdout', 'log_stderr']
CHUNK = mk('raw', sym('buf'), sym('len'))


def delivered(c, P, rule, slot, s, ev, data, what):
    """ret 1 implies the data went to the pair exactly once; anything else is the denial."""
    prem = SESSION + list(s.path)
    if s.kind != 'return':
        return
    c.prove(rule, slot, prem, or_(eq(s.ret, I(1)), eq(s.ret, I(0))),
            '%s answers with something other than 1 or 0' % slot)
    one = eq(s.ret, I(1))
    if one is FALSE:
        c.held(rule, '%s denies' % slot)
        return
    ws = to_pair(ev)
    base = len(s.events) - len(ev)
    if looped(ev):
        c.unknown(rule, slot, 'loop')
        return
    if not c.ensure(rule, bool(ws), slot, '%s reports success without sending %s to the pair' % (slot, what)):
        return
    w = P.where(*[ev[i] for i, _, _ in ws])
    st = streams(s)
    goals = [eq(t.cat(*[d for _, _, d in ws]), data)]
    for i, d, x in ws:
        goals.append(ok_of(s, base + i))
        if ev[i].args[0] != 'write_all':
            goals.append(eq(mk('count', ev[i].args[0], number_of(s, base + i)), t.length(x)))
        if not any(d is y for _, y in st):
            c.broken(rule, slot, '%s goes to another connection' % what, w)
    for g in goals:
        c.prove(rule, slot, prem + [one], g,
                '%s reports success although %s did not reach the pair unmodified, complete and exactly once' % (slot, what), w,
                [{data: t.lit(b'x' * k)} for k in (0, 1, 300, 5000, 70000)] if data.op not in ('cat', 'lit') else ())


def trait_impl(p, ty, trait, method):
    """The function that implements a trait method for a type, if it is local."""
    for f in p.fns:
        if f.body is not None and f.j.get('trait', '') and f.j['trait'].endswith(trait) and f.j.get('method') == method \
                and f.j.get('self') == ty and f.j.get('local'):
            return f
    return None


def start_of(x, data):
    """x is the data, or some of it from its start (what is left is written by the next call)."""
    if x.op == 'ite':
        return t.ite(x.args[0], start_of(x.args[1], data), start_of(x.args[2], data))
    if x.op == 'slice' and x.args[0] is data and x.args[1] is I(0) and x.args[2] is not None:
        return or_(t.lt('u64', I(0), x.args[2]), eq(t.length(data), I(0)))
    return eq(x, data)


def write_rule(c, P, ty, rule):
    """One call of write on the connection type sends exactly its argument once and reports what was sent."""
    p = P.p
    name = p.types[ty].get('def', '')
    f = trait_impl(p, ty, 'Write', 'write')
    if f is None:
        if name != 'std::os::unix::net::stream::UnixStream':
            c.unknown(rule, name, 'no write to analyse')
        return
    ip = engine(p)
    n = 0
    for s in ip.run(f, [sym('self'), sym('data')]):
        if s.kind == 'undecided':
            c.unknown(rule, f.name, s.notes[-1])
            continue
        if s.kind != 'return':
            continue
        n += 1
        ws = [(i, e) for i, e in enumerate(s.events) if e.args[0] in ('sock_write', 'write', 'write_all')]
        good = eq(t.discr(s.ret, 2), I(0))
        w = set().union(*[ip.sites.get(e, set()) for _, e in ws])
        if good is FALSE:
            c.held(rule)
            continue
        if not c.ensure(rule, len(ws) == 1 and ws[0][1].args[0] in ('sock_write', 'write_all'), f.name,
                        'a write to the pair reports success after %d writes to the connection' % len(ws), w):
            continue
        i, e = ws[0]
        data = mk('deref', sym('data'))
        if e.args[0] == 'write_all':
            goal = and_(ok_of(s, i), eq(e.args[-1], data), eq(okval(s.ret), t.length(data)))
        else:
            goal = and_(ok_of(s, i), start_of(e.args[2], data), eq(okval(s.ret), mk('count', 'sock_write', number_of(s, i))))
        c.prove(rule, f.name, list(s.path) + [good], goal,
                'a write to the pair does not send exactly the bytes it is given, or misreports how many it sent', w)
    c.fns.update(g.name for g in ip.fns_seen if g.j.get('local'))
    c.count('histories of write on the connection', n)


def okval(r):
    """The Ok payload of a result."""
    if r.op == 'agg':
        return r.args[1] if r.args[0] == 0 else mk('uninit')
    if r.op == 'ite':
        a, b = okval(r.args[1]), okval(r.args[2])
        if a.op == 'uninit':
            return b
        return a if b.op == 'uninit' else ite(r.args[0], a, b)
    return t.fld(r, 'Ok.0')


def pair_types(P, sts):
    r = set()
    for ty in P.ip.models.write_all_types:
        if P.p.types[ty].get('def', '').startswith(('sudo_pair::', 'std::os::unix::net')):
            r.add(ty)
    return r


def c09(c):
    P = Plugin(c)
    sts = P.paired_later()
    for st in sts:
        for slot in OUTPUT:
            for s, ev in P.callback(slot, st):
                delivered(c, P, 'output is delivered before success', slot, s, ev, CHUNK, 'the chunk')
    c.count('states with a connected pair', len(sts))
    if not sts:
        c.unknown('vacuity', 'open', 'no history starts a paired session')
    for ty in pair_types(P, sts):
        write_rule(c, P, ty, 'one write sends its bytes once')


def c10(c):
    P = Plugin(c)
    sts = P.paired_later()
    for st in sts:
        for s, ev in P.callback('log_stdin', st):
            if s.kind == 'return':
                c.prove('stdin is refused in a paired session', 'log_stdin', SESSION + list(s.path), eq(s.ret, I(0)),
                        'data piped into a session that is not exempt is let through')
    for st in P.exempt_later():
        for s, ev in P.callback('log_stdin', st):
            if s.kind == 'return':
                c.prove('stdin passes in an exempt session', 'log_stdin', SESSION + list(s.path) + [v.exempt()],
                        eq(s.ret, I(1)), 'data piped into an exempt session is refused')
    c.count('states with a connected pair', len(sts))
    if not sts:
        c.unknown('vacuity', 'open', 'no history starts a paired session')


RESTART = 0x10000000
DISP = mk('sigdisp', I(2))


def disposition(p, s, upto):
    """The SIGINT disposition in force before an event, supposing that putting the original one back works, and those
    suppositions."""
    d, restored = DISP, []
    known = {l: TRUE for l in s.path if l.op != 'not'}
    known.update({l.args[0]: FALSE for l in s.path if l.op == 'not'})
    for i, e in enumerate(s.events[:upto]):
        if e.args[0] == 'sigaction' and e.args[1] is I(2) and e.args[2] is not UNIT:
            new = t.subst(e.args[2], {**known, **{r: TRUE for r in restored}})
            if all(eq(sigfield(p, new, f), t.fld(DISP, f)) is TRUE for f in SIGFIELDS):
                restored.append(ok_of(s, i))
                d = DISP
            else:
                d = ite(ok_of(s, i), new, d)
    return d, restored


SIGFIELDS = ('sa_flags', 'sa_sigaction', 'sa_mask', 'sa_restorer')


def sigfield(p, d, key):
    """A field of a sigaction value."""
    if d.op == 'ite':
        return ite(d.args[0], sigfield(p, d.args[1], key), sigfield(p, d.args[2], key))
    if d.op == 'agg':
        for x in p.types:
            if x.get('def', '').startswith('libc::') and x['def'].endswith('::sigaction') and x['k'] == 'adt':
                names = [f[0] for f in x['variants'][0]['fields']]
                return d.args[1 + names.index(key)]
    return t.fld(d, key)


def interruptible(c, p, where, s, i, rule, extra=()):
    d, r = disposition(p, s, i)
    e = s.events[i]
    prem = list(s.path) + list(extra) + r
    c.prove(rule, e.args[0], prem, eq(t.arith('and', 32, sigfield(p, d, 'sa_flags'), I(RESTART)), I(0)),
            '`%s` on the pair connection runs while SIGINT restarts system calls' % e.args[0], where(e))
    c.prove(rule, e.args[0], prem, eq(sigfield(p, d, 'sa_sigaction'), t.fld(DISP, 'sa_sigaction')),
            '`%s` on the pair connection runs with another handler for SIGINT' % e.args[0], where(e))


def restored(c, p, where, s, rule):
    d, r = disposition(p, s, len(s.events))
    if d is DISP:
        if inside_events(s, 'sigaction'):
            c.held(rule)
        return
    sites = where(*[e for e in s.events if e.args[0] == 'sigaction'])
    for f in SIGFIELDS:
        c.prove(rule, 'sigaction', list(s.path) + r, eq(sigfield(p, d, f), t.fld(DISP, f)),
                'SIGINT is left with a disposition other than the one found', sites)


def inside_events(s, name):
    return any(e.args[0] == name for e in s.events)


def c11(c):
    P = Plugin(c)
    n = 0
    for s in P.decided():
        sel, acc, rd = idx(s, 'select'), idx(s, 'accept'), reads(s.events)
        n += len(sel) + len(acc) + len(rd)
        if looped(s.events):
            c.unknown('no wait is retried', 'open', 'loop around a wait')
            continue
        for what, l in (('select', sel), ('accept', acc), ('read', [r[0] for r in rd])):
            if l:
                c.ensure('no wait is retried', len(l) == 1, what, 'open waits for the pair with `%s` more than once' % what,
                         P.where(*[s.events[i] for i in l]))
        for i in acc:
            lst = s.events[i].args[1]
            ready = [j for j in sel if j < i and s.events[j].args[2].op == 'fdset' and
                     t.in_(mk('fd', lst), s.events[j].args[2].args[0]) is TRUE]
            if c.ensure('accept does not wait', bool(ready), 'accept',
                        'open waits for a connection in `accept`, which Ctrl-C does not interrupt', P.where(s.events[i])):
                c.prove('accept does not wait', 'accept', list(s.path), ok_of(s, ready[-1]),
                        'open goes on to `accept`, which Ctrl-C does not interrupt, although the wait was interrupted',
                        P.where(s.events[i]))
        for i, kind, st, ln in rd:
            w = P.where(s.events[i])
            if c.ensure('no wait is retried', kind == 'read', 'read', 'the pair\'s answer is read with `%s`, which goes on '
                        'waiting after Ctrl-C' % kind, w):
                interruptible(c, P.p, P.where, s, i, 'the wait for the answer is interruptible')
        if s.kind == 'return':
            restored(c, P.p, P.where, s, 'the disposition is restored')
    # reads and writes on the connection by themselves
    for st in P.paired()[:1]:
        for slot in OUTPUT:
            P.callback(slot, st)
    types = pair_types(P, None)
    for ty in types:
        if P.p.types[ty]['def'].startswith('std::'):
            c.broken('operations on the connection are interruptible', 'write', 'the pair connection is written to directly, '
                     'with system calls restarted after SIGINT')
            continue
        for trait, m in (('Read', 'read'), ('Write', 'write'), ('Write', 'flush')):
            f = trait_impl(P.p, ty, trait, m)
            if f is None:
                continue
            ip = engine(P.p)
            args = [sym('self'), sym('data')][:len(f.j['sig']) - 1]

            def where(*es):
                return set().union(*[ip.sites.get(e, set()) for e in es])
            for s in ip.run(f, args):
                if s.kind == 'undecided':
                    c.unknown('operations on the connection are interruptible', f.name, s.notes[-1])
                    continue
                for i in idx(s, 'sock_read', 'sock_write'):
                    n += 1
                    interruptible(c, P.p, where, s, i, 'operations on the connection are interruptible')
                for i in idx(s, 'read_retried', 'write_all'):
                    c.broken('operations on the connection are interruptible', f.name,
                             '`%s` retries after an interruption' % s.events[i].args[0], where(s.events[i]))
                if s.kind == 'return':
                    restored(c, P.p, where, s, 'the disposition is restored')
            c.fns.update(g.name for g in ip.fns_seen if g.j.get('local'))
    c.count('waits looked at', n)
    if not n or not types:
        c.unknown('vacuity', 'open', 'no wait found')


def shutdowns(s, st, frm=0):
    return [i for i, e in enumerate(s.events) if i >= frm and e.args[0] == 'shutdown' and stream_of(e.args[1]) is st]


BOTH = 2


def c12(c):
    P = Plugin(c)
    n = 0
    for s in P.decided():
        for ai, st in streams(s):
            sd = [i for i in shutdowns(s, st) if i > ai]
            full = [i for i in sd if s.events[i].args[2] is t.agg(BOTH)]
            if full:
                c.held('a failed open disconnects the pair')
            else:
                keep = eq(s.ret, I(1)) if s.kind == 'return' else FALSE
                n += 1
                c.prove('a failed open disconnects the pair', 'open', SESSION + list(s.path) + [ok_of(s, ai)], keep,
                        'open gives up the session without shutting down the connection to the pair in both directions',
                        P.where(s.events[ai]))
            if sd and s.kind == 'return' and eq(s.ret, I(1)) is not FALSE:
                c.prove('a connection stays open during the session', 'open', list(s.path), not_(eq(s.ret, I(1))),
                        'open starts the session but has disconnected the pair', P.where(s.events[sd[0]]))
    for s0 in P.paired_later():
        st = streams(s0)[0][1]
        for s, ev in P.callback('close', s0):
            if s.kind != 'return':
                continue
            n += 1
            sd = [i for i in shutdowns(s, st, len(s.events) - len(ev)) if s.events[i].args[2] is t.agg(BOTH)]
            c.ensure('close disconnects the pair', bool(sd), 'close',
                     'close does not shut down the connection to the pair in both directions')
        for slot in CALLBACKS + ['show_version']:
            for s, ev in P.callback(slot, s0):
                sd = shutdowns(s, st, len(s.events) - len(ev))
                if sd and s.kind == 'return':
                    c.prove('a connection stays open during the session', slot, list(s.path), not_(eq(s.ret, I(1))),
                            '%s disconnects the pair and still reports success' % slot, P.where(s.events[sd[0]]))
                else:
                    c.held('a connection stays open during the session')
    c.count('ends of connections looked at', n)
    if not n:
        c.unknown('vacuity', 'open', 'no connection found')


def c34(c):
    P = Plugin(c)
    want = t.cat(v.lit('\x1b[8;'), t.dec(sym('arg0')), v.lit(';'), t.dec(sym('arg1')), v.lit('t'))
    sts = P.paired_later()
    for st in sts:
        for s, ev in P.callback('change_winsize', st):
            delivered(c, P, 'a new size is delivered before success', 'change_winsize', s, ev, want,
                      'the escape sequence with the new size')
    for st in P.exempt_later():
        for s, ev in P.callback('change_winsize', st):
            out = [ev[i] for i, *_ in writes(ev)] + [e for e in ev if mutation(e)]
            c.ensure('nothing happens without a pair', not out, 'change_winsize',
                     'change_winsize writes something in a session without a pair', P.where(*out))
            if s.kind == 'return':
                c.prove('succeeds without a pair', 'change_winsize', SESSION + list(s.path), eq(s.ret, I(1)),
                        'change_winsize fails in a session without a pair')
            else:
                c.broken('succeeds without a pair', 'change_winsize', 'change_winsize does not return without a pair')
    c.count('states with a connected pair', len(sts))
    if not sts:
        c.unknown('vacuity', 'open', 'no history starts a paired session')
    for ty in pair_types(P, sts):
        write_rule(c, P, ty, 'one write sends its bytes once')


def prompt_data(P, s, d):
    """Is this an expanded prompt template?"""
    return d.op == 'expand'


def c35(c):
    P = Plugin(c)
    n = 0
    for s in P.decided():
        sent = to_pair(s.events)
        rd = [r for r in reads(s.events) if r[2] is not None]
        pre = [x for x in sent if not rd or x[0] < rd[0][0]]
        post = [x for x in sent if rd and x[0] > rd[0][0]]
        for i, st, d in pre:
            n += 1
            w = P.where(s.events[i])
            c.ensure('only the prompt precedes the answer', d.op == 'expand' and 'pair_prompt_path' in t.show(d), 'write',
                     'something other than the expanded pair prompt is sent to the pair before its answer', w)
        if post:
            n += 1
            ri = rd[0][0]
            got, byte = got_first_byte(s, ri)
            data = t.cat(*[d for _, _, d in post])
            w = P.where(*[s.events[i] for i, _, _ in post])
            echo = t.cat(t.unit(ite(got, byte, I(ord('n')))), t.lit(b'\n'))
            c.prove('only the answer and a newline follow it', 'write', SESSION + list(s.path), prefix(data, echo),
                    'something other than the pair\'s answer and a newline is sent to it after the answer', w)
        if not streams(s):
            c.held('nothing is sent without a pair')
    for st in P.paired_later():
        for slot in ('log_ttyin', 'log_stdin'):
            for s, ev in P.callback(slot, st):
                n += 1
                snt = to_pair(ev)
                c.ensure('input is never sent', not snt, slot, '%s sends data to the pair' % slot,
                         P.where(*[ev[i] for i, _, _ in snt]))
        for slot, want in [(x, CHUNK) for x in OUTPUT] + [('change_winsize', None), ('close', None), ('show_version', None)]:
            for s, ev in P.callback(slot, st):
                snt = to_pair(ev)
                if not snt:
                    c.held('only output and window sizes are sent')
                    continue
                n += 1
                w = P.where(*[ev[i] for i, _, _ in snt])
                if slot == 'change_winsize':
                    want = t.cat(v.lit('\x1b[8;'), t.dec(sym('arg0')), v.lit(';'), t.dec(sym('arg1')), v.lit('t'))
                if not c.ensure('only output and window sizes are sent', want is not None, slot,
                                '%s sends data to the pair' % slot, w):
                    continue
                c.prove('only output and window sizes are sent', slot, SESSION + list(s.path),
                        prefix(t.cat(*[d for _, _, d in snt]), want),
                        '%s sends the pair something other than what it is about' % slot, w)
    for st in P.exempt_later():
        for slot in CALLBACKS + ['close']:
            for s, ev in P.callback(slot, st):
                n += 1
                out = [ev[i] for i, *_ in writes(ev)]
                c.ensure('an exempt session sends nothing', not out, slot,
                         '%s writes data somewhere in an exempt session' % slot, P.where(*out))
    c.count('writes and callbacks looked at', n)
    if not P.paired():
        c.unknown('vacuity', 'open', 'no history starts a paired session')


def prefix(a, b):
    """a is a prefix of b (b's parts are short and few, or a is b)."""
    if a is b:
        return TRUE
    k = t.seq_len_const(a)
    m = t.seq_len_const(b)
    if k is not None and m is not None and k < m:
        return eq(a, t.slice_(b, I(0), I(k)))
    return or_(eq(a, b), eq(a, t.EMPTY))


# operations of open that can fail for reasons outside the session; everything else a refusal could hinge on must be
# something the six properties of refusal name
def op_atoms(lits, name):
    r = set()

    def go(y):
        if isinstance(y, t.T):
            if y.op == name:
                r.add(y)
            for a in y.args:
                go(a)
        elif isinstance(y, tuple):
            for a in y:
                go(a)
    for l in lits:
        go(l)
    return r


def c39(c):
    P = Plugin(c)
    one = or_(USERCHANGE, v.NAMED_GROUP)
    both = and_(USERCHANGE, v.NAMED_GROUP)
    n = 0
    for s in P.decided():
        if s.kind != 'return':
            continue
        # nothing outside the session goes wrong ...
        prem = SESSION + list(s.path) + [not_(v.exempt()), one, not_(both)]
        prem += sorted(op_atoms(s.path, 'ok'), key=str)
        prem += [not_(x) for x in sorted(op_atoms(s.path, 'nul'), key=str)]
        dirs = {parent(session_path())} | {parent(s.events[i].args[1]) for i in idx(s, 'bind', 'remove')}
        paths = {session_path()} | {s.events[i].args[1] for i in idx(s, 'bind', 'remove')}
        for x in mds(s.path):
            if x[2] in dirs:
                # the strictest directory the documentation recommends: its owner is both the effective user and root's
                m = mk('md', *x)
                prem += [vetted(*x), eq(t.fld(m, 'st_uid'), sym('geteuid')), eq(t.fld(m, 'st_uid'), v.U('euid')),
                         eq(t.arith('and', 32, t.fld(m, 'st_mode'), I(0o777)), I(0o700))]
            elif x[2] in paths:
                prem.append(mk('is_socket', mk('md', *x)))
        for i in idx(s, 'bind', 'accept', 'select'):
            prem.append(ok_of(s, i))
        for y in op_atoms(s.path, 'fd'):
            prem.append(t.lt('u64', y, I(1024)))
        # a wait that does not look at the socket never ends
        for i in idx(s, 'select'):
            e = s.events[i]
            fds = list(op_atoms([e.args[1], e.args[2]], 'fd'))
            if e.args[2].op != 'fdset' or len(fds) != 1 or fds[0].args[0].op != 'listener':
                continue
            if c.ensure('the wait covers the socket', t.in_(fds[0], e.args[2].args[0]) is TRUE, 'select',
                        'open waits for descriptors that the approval socket is not among', P.where(e)):
                k = e.args[1]
                if k.op == 'add' and fds[0] in k.args and k.args[2].op == 'int':
                    k = t.sval(k.args[2].args[0], 32)
                elif k is fds[0]:
                    k = 0
                elif k.op == 'int':
                    k = k.args[0] - 1023
                else:
                    continue
                c.ensure('the wait covers the socket', k > 0, 'select',
                         'the wait looks at too few descriptors to include the approval socket', P.where(e))
        # ... and everybody who is asked says yes
        for ri, how, st, _ in reads(s.events):
            got, byte = got_first_byte(s, ri)
            prem += [got, or_(eq(byte, I(ord('y'))), eq(byte, I(ord('Y'))))]
        n += 1
        e = [x for x in s.events if x.args[0] not in ('report',)][-1:]
        c.prove('an approved session starts', e[0].args[0] if e else 'open', prem, eq(s.ret, I(1)),
                'open refuses a session in which no operation failed and the pair, if asked, said yes', P.where(*e))
    c.count('histories of open', n)
    if not n:
        c.unknown('vacuity', 'open', 'no history of open')
