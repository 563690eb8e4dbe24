"""C20-C25: what sudo's option lists become."""
import time

from .lib import *

LIST = mk('optmap', sym('list'))
MAP = t.fld(LIST, '0')


def vpay(v, i, n, key):
    """Field n of variant i."""
    if v.op == 'agg':
        return v.args[1 + n] if v.args[0] == i and len(v.args) > 1 + n else t.UNINIT
    if v.op == 'ite':
        a, b = vpay(v.args[1], i, n, key), vpay(v.args[2], i, n, key)
        return b if a is t.UNINIT else a if b is t.UNINIT else ite(v.args[0], a, b)
    return v if v is t.UNINIT else t.fld(v, key)


def ok0(v):
    return vpay(v, 0, 0, 'Ok.0')


def err0(v):
    return vpay(v, 1, 0, 'Err.0')


class Options(session.Boundary):
    """Network addresses are parsed by code that is analysed on its own (C24)."""

    def __call__(self, c):
        j = c.fn.j
        if j.get('local') and j.get('method') == 'from_sudo_option' and j.get('self') is not None and \
                c.I.p.types[j['self']].get('def', '').endswith('::NetAddr'):
            s = c.val(0)
            return ite(t.parsed('NetAddr', s), models.ok(t.pval('NetAddr', s)), models.err(mk('perr', 'NetAddr', s)))
        return NotImplemented


def kind(p, tid):
    """(container, element) of an option's type."""
    x = p.types[tid]
    d = x.get('def', '')
    if x['k'] in ('uint', 'int', 'bool'):
        return 'one', 'bool' if x['k'] == 'bool' else x['s']
    if d in ('alloc::string::String', 'std::path::PathBuf'):
        return 'one', 'text'
    if d.endswith('::NetAddr'):
        return 'one', 'NetAddr'
    if d == 'alloc::vec::Vec':
        return 'list', kind(p, x['args'][0])[1]
    if d.endswith('HashSet'):
        return 'set', kind(p, x['args'][0])[1]
    if d == 'core::option::Option':
        return 'option', kind(p, x['args'][0])
    raise Undecided('option type %s' % x['s'])


def parse(what, v):
    """(it parses, its value) of text v as an element type."""
    if what == 'text':
        return TRUE, v
    if what == 'bool':
        return or_(eq(v, t.lit(b'true')), eq(v, t.lit(b'false'))), eq(v, t.lit(b'true'))
    return t.parsed(what, v), t.pval(what, v)


def parse_as(k, v):
    how, what = k
    if how == 'one':
        return parse(what, v)
    s = t.split(v, t.lit(b' ' if what == 'NetAddr' else b','))
    g, x = parse(what, t.x(0))
    vs = t.star(s, t.unit(x), t.x(0))
    return not_(t.exists(s, not_(g), t.x(0))), (mk('set', vs) if how == 'set' else vs)


def lookup(k, key, m=MAP):
    """(present, parses, value) of an option."""
    key = t.lit(key.encode()) if isinstance(key, str) else key
    v_ = mk('mapval', m, key)
    g, x = parse_as(k, v_)
    return and_(mk('has', m, key), t.valid(v_)), g, x


def same(a, b, n=None):
    """Equality of two values, looking into options."""
    if n == 'option':
        da, db = t.discr(a, 2), t.discr(b, 2)
        return and_(eq(da, db), or_(eq(da, I(0)), eq(models.some0(a), models.some0(b))))
    return eq(a, b)


TEXTS = [b'', b'7', b'7,8', b'7,x', b'x', b',', b'7,', b',7', b' 7', b'7 ', b'7, 8', b'7 8', b'7,7', b'-1', b'+7', b'4294967296', b'true', b'True',
         b'false', b'/a', b'/a,/b', b'a b', b'10.0.0.1/255.0.0.0', b'10.0.0.1/255.0.0.0 10.0.0.2/255.0.0.0',
         b'10.0.0.1/255.0.0.0,10.0.0.2/255.0.0.0', b'10.0.0.1/255.0.0.0  10.0.0.2/255.0.0.0', b'10.0.0.1', b'\xff', b'0', b'00', b'022',
         b'300', b'70000', b'18446744073709551616', b'#7', b'7;8', b'7:8']


LONG_TEXTS = [b','.join(b'%d' % (k % 120) for k in range(n)) for n in (12, 20, 40, 70, 140, 300)] + \
    [b' '.join(b'10.0.0.%d/255.0.0.0' % (k % 250) for k in range(n)) for n in (12, 20, 40, 70)] + \
    [b'x' * 300, b'x' * 5000, b'/' + b'x' * 70000]


def samples(m, key):
    """What an option can be."""
    return [{mk('mapval', m, key): t.lit(b)} for b in TEXTS]

NETS = [b'10.0.0.1/255.0.0.0', b'10.0.0.1', b'', b'/', b'10.0.0.1/', b'/255.0.0.0', b'10.0.0.1/255.0.0.0/1', b'::1/ffff::',
        b'10.0.0.1//255.0.0.0', b'10.0.0.1 /255.0.0.0', b'10.0.0.1:255.0.0.0', b'1.0.0.1/0255.0.0.0']


def run_parser(c, name):
    p = program('probe', 'probe')
    fs = [f for f in p.fns if f.j.get('local') and f.j.get('method') == 'try_from' and f.j.get('self') is not None
          and p.types[f.j['self']].get('def', '').endswith('::' + name) and f.body is not None]
    if not fs:
        raise session.Missing('conversion of an option list to %s' % name)
    ip = engine(p, Options())
    out = ip.run(fs[0], [LIST])
    c.fns.update(f.name for f in ip.fns_seen if f.j.get('local'))
    return p, fs[0], out, p.types[fs[0].j['self']]['variants'][0]['fields']


def variant(p, name):
    """(index, field names) of a variant of the library's error."""
    x = next(x for x in p.types if x.get('def') == 'sudo_plugin::errors::Error')
    for i, v_ in enumerate(x['variants']):
        if v_['name'] == name:
            return i, [f[0] for f in v_['fields']], len(x['variants'])
    raise session.Missing('error %s' % name)


def parser(c, name, keys, required, special=()):
    p, fn, out, fields = run_parser(c, name)
    where = {fn.name}
    names = {f[0] for f in fields}
    table = {f: k for f, k in keys.items()}
    for f in table:
        if f not in names:
            raise session.Missing('%s.%s' % (name, f))
    mi, mf, nv = variant(p, 'OptionMissing')
    ii, if_, _ = variant(p, 'OptionInvalid')
    goods = []
    for f, ty in fields:
        if f in required:
            pr, g, _ = lookup(kind(p, ty), table[f][0])
            goods.append((table[f][0], pr, g))
    allgood = and_(*[and_(a, b) for _, a, b in goods])
    n = 0
    before = len(c.opens)
    wants = []
    for s in out:
        if s.kind == 'undecided':
            c.unknown('analysis', fn.name, s.notes[-1] if s.notes else '?')
            continue
        prem = list(s.path)
        if s.kind != 'return':
            c.prove('never panics', name, prem, FALSE, 'parsing %s can panic' % name, where)
            continue
        isok = eq(t.discr(s.ret, 2), I(0))
        c.prove('required options', name, prem + [isok], allgood,
                '%s is accepted although a required option is missing or invalid' % name, where)
        c.prove('required options', name, prem + [allgood], isok,
                '%s is refused although every required option is there' % name, where)
        e = err0(s.ret)
        d = t.discr(e, nv)
        why = []
        for k, pr, g in goods:
            key = t.lit(k.encode())
            why.append(and_(eq(d, I(mi)), not_(pr), eq(payload(e, p, mi, mf, 'key'), key)))
            if g is not TRUE:
                why.append(and_(eq(d, I(ii)), pr, not_(g), eq(payload(e, p, ii, if_, 'key'), key),
                                eq(payload(e, p, ii, if_, 'value'), mk('mapval', MAP, key))))
        if goods:
            c.prove('errors name the option', name, prem + [not_(isok)], or_(*why),
                    'the error for a missing or invalid option does not say which it is', where)
        r = ok0(s.ret)
        for i, (f, ty) in enumerate(fields):
            n += 1
            got = models.field(r, i, f)
            if f == 'raw':
                c.prove('the list itself', name + '.raw', prem + [allgood], eq(got, LIST), '%s.raw is not the list sudo passed' % name, where)
                continue
            if f not in table:
                c.unknown('documented key', '%s.%s' % (name, f), 'field without a documented key')
                continue
            k = kind(p, ty)
            opt = k[0] == 'option'
            key, default = table[f][0], table[f][1] if len(table[f]) > 1 else None
            over = table[f][2] if len(table[f]) > 2 else None
            if over:
                v_ = mk('mapval', MAP, t.lit(key.encode()))
                pr, g, x = and_(mk('has', MAP, t.lit(key.encode())), mk('valid', v_)), mk('parsed', over, v_), mk('pval', over, v_)
            else:
                pr, g, x = lookup(k[1] if opt else k, key)
            sub = '%s.%s' % (name, f)
            if opt:
                want = ite(and_(pr, g), models.some(x), models.NONE)
            elif f in required:
                want = x
            else:
                d_ = default(p) if callable(default) else default
                if d_ is None:
                    d_ = FALSE if k == ('one', 'bool') else t.EMPTY if k[0] == 'list' or k[1] == 'text' else None
                if d_ is None:
                    c.unknown('documented key', sub, 'no documented default')
                    continue
                want = ite(and_(pr, g), x, d_)
            wants.append((i, f, key, want, 'option' if opt else None))
            c.prove('documented key', sub, prem + [allgood], same(got, want, 'option' if opt else None),
                    '%s.%s is not the value of the option `%s`%s' % (name, f, key, '' if f in required else ' or its default'), where,
                    samples(MAP, t.lit(key.encode())))
    c.count('fields', n)
    if not n:
        c.unknown('vacuity', name, 'no history parses the list')
    if len(c.opens) > before and not c.violations:
        lists = {f for f, ty in fields if f != 'raw' and kind(p, ty)[0] in ('list', 'set')}
        refute_parser(c, name, p, fn, allgood, [g[0] for g in goods], wants,
                      [f for f, _ in fields if f in table and (f in lists or any('%s.%s |' % (name, f) in o for o in c.opens[before:]))],
                      table, where)


GIVEN = dict(progname='sudo', plugin_path='/p', plugin_dir='/d', cwd='/c', host='h', user='u')


def refute_parser(c, name, p, fn, allgood, required, wants, fields, table, where):
    """What could not be decided for every list, with constant lists propagated through the parser: the required
    options, and one more in each of its forms."""
    end = time.time() + 150
    for f in fields:
        for b in TEXTS + LONG_TEXTS:
            if time.time() > end:
                return
            given = {k: GIVEN.get(k, '7').encode() for k in required}
            given[table[f][0]] = b
            lst = models.agg(None, mk('map', t.cat(*[t.unit(models.agg(None, t.lit(k.encode()), t.lit(v_))) for k, v_ in sorted(given.items())])))
            inst = {mk('mapval', MAP, t.lit(k.encode())): t.lit(v_) for k, v_ in given.items()}
            inst.update({mk('has', MAP, t.lit(k.encode())): TRUE for k in given})
            inst.update({mk('has', MAP, t.lit(table[x][0].encode())): FALSE for x in table if table[x][0] not in given})
            go = lambda x: t.subst(x, inst, fix=True)
            good = go(allgood)
            if good not in (TRUE, FALSE):
                continue
            ip = engine(p, Options())
            ip.maxpeel = 320
            for s in ip.run(fn, [lst]):
                if s.kind != 'return':
                    continue
                prem = list(s.path)
                isok = eq(t.discr(s.ret, 2), I(0))
                claims = [('is accepted or refused', eq(isok, good))]
                if good is TRUE:
                    claims += [('becomes .%s' % x, same(models.field(ok0(s.ret), i, x), go(want), opt)) for i, x, key, want, opt in wants]
                for what, claim in claims:
                    if logic.prove(prem, not_(claim))[0] == 'proved' and logic.prove(prem, FALSE)[0] == 'violated':
                        c.broken('constant lists', '%s %s' % (name, what), 'the option %s=%s %s otherwise than documented' % (
                            table[f][0], b.decode('latin1')[:60], what), where, repr(given)[:1000])
                        return


def payload(e, p, i, names, f):
    x = next(x for x in p.types if x.get('def') == 'sudo_plugin::errors::Error')
    return vpay(e, i, names.index(f), '%s.%s' % (x['variants'][i]['name'], f))


SETTINGS = dict(
    plugin_dir=('plugin_dir',), plugin_path=('plugin_path',), progname=('progname',), bsd_auth_type=('bsdauth_type',),
    close_from=('closefrom',), debug_flags=('debug_flags',), debug_level=('debug_level',), ignore_ticket=('ignore_ticket',),
    implied_shell=('implied_shell',), login_class=('login_class',), login_shell=('login_shell',), max_groups=('max_groups',),
    network_addrs=('network_addrs',), noninteractive=('noninteractive',), preserve_environment=('preserve_environment',),
    preserve_groups=('preserve_groups',), prompt=('prompt',), remote_host=('remote_host',), run_shell=('run_shell',),
    runas_group=('runas_group',), runas_user=('runas_user',), selinux_role=('selinux_role',), selinux_type=('selinux_type',),
    set_home=('set_home',), sudoedit=('sudoedit',), timeout=('timeout',))

USERINFO = dict(
    cols=('cols', I(80)), cwd=('cwd',), egid=('egid',), euid=('euid',), gid=('gid',), groups=('groups',), host=('host',),
    lines=('lines', I(24)), pgid=('pgid',), pid=('pid',), ppid=('ppid',), sid=('sid', I(0)), tcpgid=('tcpgid', I(0xffffffff)),
    tty=('tty',), uid=('uid',), umask=('umask',), user=('user',))


def number(key, default):
    pr, g, x = lookup(('one', 'u32'), key)
    return ite(and_(pr, g), x, default)


RGID, RUID = number('runas_gid', sym('getegid')), number('runas_uid', sym('geteuid'))
COMMANDINFO = dict(
    chroot=('chroot',), close_from=('closefrom',), command=('command',), cwd=('cwd',), exec_background=('exec_background',),
    exec_fd=('execfd',), iolog_compress=('iolog_compress',), iolog_group=('iolog_group',), iolog_mode=('iolog_mode',),
    iolog_path=('iolog_path',), iolog_stdin=('iolog_stdin',), iolog_stdout=('iolog_stdout',), iolog_stderr=('iolog_stderr',),
    iolog_ttyin=('iolog_ttyin',), iolog_ttyout=('iolog_ttyout',), iolog_user=('iolog_user',), login_class=('login_class',),
    nice=('nice',), noexec=('noexec',), preserve_fds=('preserve_fds',), preserve_groups=('preserve_groups',),
    runas_gid=('runas_gid', sym('getegid')), runas_uid=('runas_uid', sym('geteuid')), runas_egid=('runas_egid', RGID),
    runas_euid=('runas_euid', RUID), runas_groups=('runas_groups',), selinux_role=('selinux_role',),
    selinux_type=('selinux_type',), set_utmp=('set_utmp',), sudoedit=('sudoedit',),
    sudoedit_checkdir=('sudoedit_checkdir', TRUE), sudoedit_follow=('sudoedit_follow',), timeout=('timeout',),
    umask=('umask', I(0o7777), 'u32/8'), umask_override=('umask_override',), use_pty=('use_pty',), utmp_user=('utmp_user',))


def c20(c):
    parser(c, 'Settings', SETTINGS, {'plugin_dir', 'plugin_path', 'progname'})


def c21(c):
    parser(c, 'UserInfo', USERINFO,
           {'cwd', 'egid', 'euid', 'gid', 'groups', 'host', 'pgid', 'pid', 'ppid', 'uid', 'user'})


def c22(c):
    parser(c, 'CommandInfo', COMMANDINFO, set())


def c23(c):
    p = program('probe', 'probe')
    fs = [f for f in p.fns if f.defn.endswith('option_map::OptionMap::from_raw') and f.body is not None]
    if not fs:
        raise session.Missing('OptionMap::from_raw')
    ip = engine(p)
    LP = sym('list')
    where = {fs[0].name}
    n = 0
    for s in ip.run(fs[0], [LP]):
        if s.kind == 'undecided':
            c.unknown('analysis', fs[0].name, s.notes[-1] if s.notes else '?')
            continue
        if s.kind != 'return':
            c.prove('never panics', 'from_raw', list(s.path), FALSE, 'reading an option list can panic', where)
            continue
        prem = list(s.path)
        m = models.field(s.ret, 0, '0')
        null = eq(LP, I(0))
        cases = [((null,), t.subst(m, {null: TRUE}, fix=True)), ((not_(null),), t.subst(m, {null: FALSE}, fix=True))]
        for k, (extra, mm) in enumerate(cases):
            if logic.prove(prem + list(extra), FALSE)[0] == 'proved':
                continue
            n += 1
            if k == 0:
                c.prove('a null list is empty', 'from_raw', prem + list(extra), eq(mm, mk('map', t.EMPTY)),
                        'a null list is not read as an empty one', where)
                continue
            src = mk('nt', LP)
            entry = sym('entry')
            want = entry_of(entry)
            done = False
            if mm.op == 'map' and mm.args[0].op == 'star' and mm.args[0].args[0] is src:
                body = body_of(mm.args[0], entry)
                if body.op == 'unit' and body.args[0].op == 'agg' and body.args[0].args[0] is None:
                    kv = body.args[0].args[1:]
                    done = all(logic.prove(prem + [not_(null)], eq(x, y))[0] == 'proved' for x, y in zip(kv, want))
            if done:
                c.held('every entry once, in order', 'star over the entries up to the terminator')
                c.held('the key precedes the first =', 'from_raw')
                c.held('the value is all that follows', 'from_raw')
                continue
            w = differs(mm, prem, src)
            if w:
                c.broken('every entry, byte for byte', 'from_raw', 'an option list is not read as documented', where, w)
            else:
                c.unknown('every entry, byte for byte', 'from_raw', t.show(mm)[:300])
    c.count('cases', n)
    if not n:
        c.unknown('vacuity', 'from_raw', 'no case')
    if c.opens and not c.violations:
        refute_list(c, p, fs[0], LP, where)


def refute_list(c, p, f, LP, where):
    """What could not be decided for every list, with constant lists propagated through the reader."""
    end = time.time() + 60
    for l in LISTS + LONG:
        if time.time() > end:
            return
        ip = engine(p)
        ip.maxpeel = len(l) + 3
        es = [mk('cptr', t.lit(b)) for b in l] + [I(0)]
        ip.given = {mk('deref', mk('poff', LP, I(k)) if k else LP): e for k, e in enumerate(es)}
        want = {}
        for b in l:
            k, eq_, v_ = b.partition(b'=')
            want[k] = v_ if eq_ else b
        for s in ip.run(f, [LP]):
            prem = [t.subst(x, {eq(LP, I(0)): FALSE}, fix=True) for x in s.path]
            if s.kind == 'undecided' or any(x is not TRUE for x in prem):
                continue
            m = t.subst(models.field(s.ret, 0, '0'), {eq(LP, I(0)): FALSE}, fix=True) if s.kind == 'return' else None
            got = concrete(m) if m is not None else 'a panic'
            if got is not None and got != want:
                c.broken('constant lists', 'from_raw', 'an option list is not read as documented', where,
                         'a list of %d entries: %s' % (len(l), repr(l)[:200]))
                return


def entry_of(e):
    """What is documented for an entry."""
    text = mk('cstr', e)
    sep = t.in_(I(ord('=')), text)
    pos = t.pos(text, eq(t.x(0), I(ord('='))), t.x(0))
    return (ite(sep, t.slice_(text, I(0), pos), text), ite(sep, t.slice_(text, t.arith('add', 64, pos, I(1)), None), text))


LISTS = ([b'a=b'], [b'a=b=c'], [b'a'], [b'a=1', b'a=2'], [b'a=', b'b=1'], [b'=a', b'c=d'], [b'', b'a=b'], [b'='], [b'a=b', b'a'],
         [b'a\x80=\xff'], [b'a = b '], [b'#a=b'], [b'A=B', b'a=b'], [b'"a"=\'b\''], [b'a=1', b'b=2', b'c=3', b'a=4'], [b'==', b'a==b'])

LONG = ([b'a=' + b'b' * 300], [b'k' * 300 + b'=v'], [b'a=' + b'b' * 5000], [b'k' * 5000], [b'a=' + b'b' * 70000],
        [b'k%d=%d' % (k, k) for k in range(70)], [b'k%d=%d' % (k, k) for k in range(300)], [b'k%d=%d' % (k, k) for k in range(1100)])


def concrete(m):
    """A map term without unknowns as a dictionary."""
    if m.op != 'map':
        return None
    r = {}
    for p in t.seq_parts(m.args[0]):
        if p.op != 'unit' or p.args[0].op != 'agg' or len(p.args[0].args) != 3:
            return None
        how, k, v_ = p.args[0].args
        if k.op != 'lit' or v_.op != 'lit':
            return None
        if how == 'keep' and k.args[0] in r:
            continue
        r[k.args[0]] = v_.args[0]
    return r


def differs(m, prem, src):
    """A list for which the term m is not the documented map."""
    for l in LISTS:
        es = [sym('entry%d' % i) for i in range(len(l))]
        val = {mk('cstr', e): t.lit(b) for e, b in zip(es, l)}
        inst = {src: t.cat(*[t.unit(e) for e in es])}
        # what the list itself holds: its entries, then a null
        lp = src.args[0]
        inst[eq(lp, I(0))] = FALSE
        for k in range(len(l) + 1):
            q = lp if not k else mk('poff', lp, I(8 * k))
            inst[eq(mk('deref', q), I(0))] = I(int(k == len(l)))
        go = lambda x: t.subst(t.subst(x, inst), val)
        got = go(m)
        if any(go(p_) is not TRUE for p_ in prem):
            continue
        got = concrete(got)
        want = {}
        for b in l:
            k, eq_, v_ = b.partition(b'=')
            want[k] = v_ if eq_ else b
        if got is not None and got != want:
            return 'the list %r is read as %r' % (l, got)
    return None


def body_of(star, element):
    """The body of a star for one element."""
    return t.subst(star.args[1], {star.args[2]: element})


def refute_lookup(c, p, f, k, sub, w, nv, mi, ii):
    """What could not be decided for every value, with the constants of TEXTS propagated through the lookup."""
    kk = t.lit(b'k')
    end = time.time() + 100
    for b in TEXTS + LONG_TEXTS:
        if time.time() > end:
            return
        ip = engine(p, Options())
        ip.maxpeel = 320
        m = mk('map', t.unit(models.agg(None, kk, t.lit(b))))
        try:
            b.decode()
            g, x = parse_as(k, t.lit(b))
        except UnicodeDecodeError:
            g = x = None
        for s in ip.run(f, [t.tmp(models.agg(None, m)), t.tmp(kk)]):
            if s.kind != 'return':
                continue
            isok = eq(t.discr(s.ret, 2), I(0))
            d = t.discr(err0(s.ret), nv)
            if g is None:
                want = and_(not_(isok), eq(d, I(mi)))
            elif g is TRUE:
                want = and_(isok, eq(ok0(s.ret), x))
            elif g is FALSE:
                want = and_(not_(isok), eq(d, I(ii)))
            else:
                continue
            prem = list(s.path)
            if logic.prove(prem, not_(want))[0] == 'proved' and logic.prove(prem, FALSE)[0] == 'violated':
                c.broken('constant values', sub, 'looking up the value %r as %s does not give what is documented' % (b.decode('latin1')[:60], sub),
                         w, 'the option is k=%s' % b.decode('latin1')[:1000])
                return


def c24(c):
    p = program('probe', 'probe')
    mi, mf, nv = variant(p, 'OptionMissing')
    ii, if_, _ = variant(p, 'OptionInvalid')
    S_, K = sym('self'), sym('key')
    m, key = t.fld(mk('deref', S_), '0'), mk('deref', K)
    n = 0
    seen = set()
    for f in p.fns:
        if not f.defn.endswith('option_map::OptionMap::get') or f.body is None or not f.j.get('local'):
            continue
        rt = p.types[f.j['sig'][-1]]
        ty = rt['args'][0]
        try:
            k = kind(p, ty)
        except Undecided as e:
            c.unknown('analysis', f.name, e)
            continue
        ip = engine(p, Options())
        pr, g, x = lookup(k, key, m)
        sub = p.tname(ty).rsplit('::', 1)[-1] if '<' not in p.tname(ty) else p.tname(ty)
        w = {f.name}
        before = len(c.opens)
        for s in ip.run(f, [S_, K]):
            c.fns.update(z.name for z in ip.fns_seen if z.j.get('local'))
            if s.kind == 'undecided':
                c.unknown('analysis', f.name, s.notes[-1] if s.notes else '?')
                continue
            n += 1
            prem = list(s.path)
            if s.kind != 'return':
                c.prove('never panics', sub, prem, FALSE, 'looking up an option as %s can panic (%s)' % (sub, s.notes[-1:]), w)
                continue
            isok = eq(t.discr(s.ret, 2), I(0))
            e = err0(s.ret)
            d = t.discr(e, nv)
            c.prove('a value that parses is the result', sub, prem + [pr, g], and_(isok, eq(ok0(s.ret), x)),
                    'an option that parses as %s is not looked up as its value' % sub, w, samples(m, key))
            c.prove('a missing option is a missing-option error', sub, prem + [not_(pr)],
                    and_(not_(isok), eq(d, I(mi)), eq(payload(e, p, mi, mf, 'key'), key)),
                    'looking up an absent (or not UTF-8) option as %s is not a missing-option error naming it' % sub, w, samples(m, key))
            if g is not TRUE:
                c.prove('an invalid option is an invalid-option error', sub, prem + [pr, not_(g)],
                        and_(not_(isok), eq(d, I(ii)), eq(payload(e, p, ii, if_, 'key'), key),
                             eq(payload(e, p, ii, if_, 'value'), mk('mapval', m, key))),
                        'looking up an option that does not parse as %s is not an invalid-option error naming it' % sub, w, samples(m, key))
        if len(c.opens) > before:
            refute_lookup(c, p, f, k, sub, w, nv, mi, ii)
    c.count('lookups analysed', n)
    # network addresses
    fs = [f for f in p.fns if f.j.get('local') and f.j.get('method') == 'from_sudo_option' and f.j.get('self') is not None
          and p.types[f.j['self']].get('def', '').endswith('::NetAddr') and f.body is not None]
    if not fs:
        raise session.Missing('parsing of network addresses')
    T = sym('text')
    text = mk('deref', T)
    sep = t.in_(I(ord('/')), text)
    pos = mk('pos', text, eq(t.x(0), I(ord('/'))), t.x(0))
    IP = 'core::net::ip_addr::IpAddr'
    a, b = t.slice_(text, I(0), pos), t.slice_(text, t.arith('add', 64, pos, I(1)), None)
    texts = [{text: t.lit(b)} for b in NETS]
    ip = engine(p)
    for s in ip.run(fs[0], [T]):
        if s.kind == 'undecided':
            c.unknown('analysis', fs[0].name, s.notes[-1] if s.notes else '?')
            continue
        w = {fs[0].name}
        prem = list(s.path)
        if s.kind != 'return':
            c.prove('never panics', 'NetAddr', prem, FALSE, 'parsing a network address can panic', w)
            continue
        isok = eq(t.discr(s.ret, 2), I(0))
        v_ = ok0(s.ret)
        good = and_(sep, mk('parsed', IP, a), mk('parsed', IP, b))
        c.prove('addresses are split at the first /', 'NetAddr', prem + [good],
                and_(isok, eq(models.field(v_, 0, 'addr'), mk('pval', IP, a)), eq(models.field(v_, 1, 'mask'), mk('pval', IP, b))),
                'a network address is not split into what precedes and what follows its first /', w, texts)
        c.prove('anything else is invalid', 'NetAddr', prem + [not_(good), not_(mk('parsed', IP, t.EMPTY))], not_(isok),
                'text that is not address/netmask is accepted as a network address', w, texts)


def many_gids(c, p, f):
    """What could not be decided for every list of groups, with constant lists propagated."""
    ty = lambda d: next(i for i, x in enumerate(p.types) if x.get('def', '').endswith(d))
    for n in (0, 1, 2, 17, 33, 70, 300, 1100):
        gs = [5000 + 3 * k for k in range(n)]
        seq = t.cat(*[t.unit(I(x)) for x in gs])
        for given in (models.NONE, models.some(seq)):
            ci = session.struct_of(p, ty('command_info::CommandInfo'), 'command_info', runas_groups=given, runas_egid=I(7),
                                   preserve_groups=I(int(given is models.NONE)))
            ui = session.struct_of(p, ty('user_info::UserInfo'), 'user_info', groups=seq)
            env = session.struct_of(p, ty('io_env::IoEnv'), 'env', command_info=ci, user_info=ui)
            ip = engine(p, session.Boundary())
            ip.maxpeel = n + 3
            for s in ip.run(f, [t.tmp(env)]):
                if s.kind != 'return':
                    continue
                for x in sorted(set(gs[:2] + gs[-2:] + [7, 6])):
                    want = I(1) if x in gs or x == 7 else I(0)
                    if logic.prove(list(s.path), not_(eq(member(I(x), s.ret), want)))[0] == 'proved' and \
                            logic.prove(list(s.path), FALSE)[0] == 'violated':
                        c.broken('constant lists', 'runas_gids', 'the gids of a command with %d groups are not computed as documented' % n,
                                 {f.name}, 'groups %r, egid 7: %d' % (gs[:20], x))
                        return


def c25(c):
    p = program('probe', 'probe')
    fs = [f for f in p.fns if f.defn.endswith('io_env::IoEnv::runas_gids') and f.body is not None]
    if not fs:
        raise session.Missing('IoEnv::runas_gids')
    E = sym('env')
    ip = engine(p, session.Boundary())
    env = mk('deref', E)
    ci, ui = t.fld(env, 'command_info'), t.fld(env, 'user_info')
    rg = t.fld(ci, 'runas_groups')
    given = ite(v.isnone(rg), t.fld(ui, 'groups'), v.some(rg))
    eg = t.fld(ci, 'runas_egid')
    n = 0
    g = sym('gid')
    for s in ip.run(fs[0], [E]):
        if s.kind == 'undecided':
            c.unknown('analysis', fs[0].name, s.notes[-1] if s.notes else '?')
            continue
        w = {fs[0].name}
        if s.kind != 'return':
            c.prove('never panics', 'runas_gids', list(s.path), FALSE, 'computing the gids can panic', w)
            continue
        n += 1
        r = s.ret
        got = member(g, r)
        want = or_(eq(g, eg), ite(v.isnone(rg), t.in_(g, t.fld(ui, 'groups')), t.in_(g, v.some(rg))))
        c.prove('nothing is missing', 'runas_gids', list(s.path) + [want], got,
                'a gid the command would run with is missing from the set', w)
        c.prove('nothing else is in it', 'runas_gids', list(s.path) + [got], want,
                'the set contains a gid the command would not run with', w)
    if not n:
        c.unknown('vacuity', 'runas_gids', 'no result')
    if c.opens and not c.violations:
        many_gids(c, p, fs[0])
    # ... and it is what decides
    from . import rules_session
    P = Plugin(c)
    ex = v.exempt()
    for s in P.decided():
        may = [a_ for x, a_ in P.allowed() if x is s]
        if may and not streams(s):
            c.prove('it decides whether a pair is needed', 'open', SESSION + list(s.path) + may[0], ex,
                    'open lets a session start without a pair although a gid it would run with is enforced')


def member(x, s):
    if s.op == 'ite':
        return or_(and_(s.args[0], member(x, s.args[1])), and_(not_(s.args[0]), member(x, s.args[2])))
    if s.op == 'set':
        return t.in_(x, s.args[0])
    return t.in_(x, s)


# -- the plugin's own options

PLUGIN = {
    'binary_path': (('one', 'text'), t.lit(b'/usr/bin/sudo_approve')),
    'user_prompt_path': (('one', 'text'), t.lit(b'/etc/sudo_pair.prompt.user')),
    'pair_prompt_path': (('one', 'text'), t.lit(b'/etc/sudo_pair.prompt.pair')),
    'socket_dir': (('one', 'text'), t.lit(b'/var/run/sudo_pair')),
    'gids_enforced': (('list', 'u32'), t.unit(I(0))),
    'gids_exempted': (('list', 'u32'), t.EMPTY),
}


def pointee(p, tid):
    x = p.types[tid]
    while x['k'] == 'ref':
        x = p.types[x['elem']]
    return x


def collectors(p):
    """The functions that make the plugin's options from an option list."""
    out = []
    for f in p.fns:
        if not f.j.get('local') or f.body is None or not f.j.get('sig') or len(f.j['sig']) < 2:
            continue
        ret = p.types[f.j['sig'][-1]]
        if ret.get('variants') and len(ret['variants']) == 1 and {x[0] for x in ret['variants'][0]['fields']} >= set(PLUGIN):
            args = [pointee(p, x).get('def', '') for x in f.j['sig'][:-1]]
            if len(args) == 1 and args[0].endswith('::OptionMap'):
                out.append((f, ret))
    return out


def default_dir(p):
    """The socket directory when the plugin is given no options, as text."""
    for f, ret in collectors(p):
        ip = engine(p, session.Boundary())
        raw = mk('optmap', sym('list'))
        for s in ip.run(f, [t.tmp(raw) if p.types[f.j['sig'][0]]['k'] == 'ref' else raw]):
            if s.kind != 'return':
                continue
            for i, (name, tid, *_) in enumerate(ret['variants'][0]['fields']):
                if name == 'socket_dir':
                    got = s.ret.args[1 + i] if s.ret.op == 'agg' else t.fld(s.ret, name)
                    here = lookup(PLUGIN[name][0], name)[0]
                    got = t.subst(got, {here: FALSE}, fix=True)
                    if got.op == 'lit' or got.op == 'bytes':
                        return got
    return None


def c14(c):
    """The six options, at the function that collects them and where they end up."""
    from .sess import Plugin
    P = Plugin(c)
    p = P.p
    collect = collectors(p)
    if not collect:
        c.unknown('options', 'collecting', 'no function makes the plugin\'s options from an option list')
    for f, ret in collect:
        ip = engine(p, session.Boundary())
        byref = p.types[f.j['sig'][0]]['k'] == 'ref'
        raw = mk('optmap', sym('list'))
        for s in ip.run(f, [t.tmp(raw) if byref else raw]):
            if s.kind != 'return':
                c.unknown('options', f.name, s.notes[-1] if s.notes else s.kind)
                continue
            for i, (name, tid, *_) in enumerate(ret['variants'][0]['fields']):
                if name not in PLUGIN:
                    continue
                got = s.ret.args[1 + i] if s.ret.op == 'agg' else t.fld(s.ret, name)
                k, default = PLUGIN[name]
                here, good, x = lookup(k, name)
                if k[0] == 'list':
                    how = kind(p, tid)[0]
                    x, default = (mk('set', y) if how == 'set' else y for y in (x, default))
                c.prove('options', name, list(s.path), eq(got, ite(and_(here, good), x, default)),
                        'the option %s becomes %s' % (name, t.show(got)[:300]), {f.name}, samples=across(got, name))
        c.fns.update(g.name for g in ip.fns_seen if g.j.get('local'))
    uses(c, P)


def across(got, name):
    """Values for an option, with values for the others its result depends on."""
    others = set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
        elif isinstance(y, t.T):
            if y.op == 'mapval' and y.args[0] is MAP and y.args[1] is not t.lit(name.encode()):
                others.add(y)
            go(y.args)
    go(got)
    r = samples(MAP, t.lit(name.encode()))
    for y in sorted(others, key=lambda y: y.id):
        r = r + [{**m, y: t.lit(b)} for m in r for b in (b'7', b'x', b'')][:200]
    return r


def uses(c, P):
    """Where the options end up in a session."""
    from .sess import idx, SESSION
    from . import rules_prompt as rp
    v = rp.v
    specs = {}
    n = 0
    for s in P.decided():
        prem = SESSION + list(s.path)
        for i in idx(s, 'bind'):
            path = s.events[i].args[1]
            n += 1
            if path.op != 'pjoin':
                c.unknown('uses', 'socket_dir', 'socket path %s' % t.show(path)[:100])
            else:
                c.prove('uses', 'socket_dir', prem, eq(path.args[0], v.SOCKET_DIR),
                        'the socket is created in %s' % t.show(path.args[0])[:200], P.where(s.events[i]))
        for i in idx(s, 'open'):
            path = s.events[i].args[1]
            if not t.occurs(path, rp.TTY):
                c.prove('uses', 'prompt paths', prem, or_(*[eq(path, w) for w, _ in rp.PROMPTS.values()]),
                        'a prompt is read from %s' % t.show(path)[:200], P.where(s.events[i]))
        for i, dev, h, d in rp.prompts(s):
            which = 'pair' if dev == 'pair' else 'user'
            if d.op != 'expand':
                continue
            specs.setdefault(d.args[0], P.where(s.events[i]))
            T = d.args[1]
            for j in idx(s, 'open'):
                f = rp.cond_open(s, j)[1]
                if j < i and t.occurs(T, f):
                    c.prove('uses', which + '_prompt_path', prem, eq(s.events[j].args[1], rp.PROMPTS[which][0]),
                            'the %s prompt is read from %s' % (which, t.show(s.events[j].args[1])[:200]), P.where(s.events[j]))
        may = [a for x, a in P.allowed() if x is s]
        sock = idx(s, 'bind', 'accept', 'select', 'remove', 'chown', 'chmod')
        if not may or sock:
            c.prove('uses', 'binary_path', prem, not_(eq(v.C('command'), v.BINARY)),
                    'running the configured approval command itself needs approval', P.where(*[s.events[i] for i in sock[:1]]))
            c.prove('uses', 'gids_exempted', prem, not_(t.intersects(v.U('groups'), v.EXEMPTED)),
                    'a member of an exempted group needs approval', P.where(*[s.events[i] for i in sock[:1]]))
    if not n:
        raise session.Missing('a socket')
    tb = rp.Table(c, P.p)
    for sp, w in specs.items():
        for s in tb.run(rp.interp.new_state(), t.tmp(sp), t.lit(b'%B')):
            if s.kind == 'return':
                c.prove('uses', 'binary_path in prompts', list(s.path), eq(s.ret, v.BINARY),
                        '%%B in a prompt becomes %s' % t.show(s.ret)[:200], w)
