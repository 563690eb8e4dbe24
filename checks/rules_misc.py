"""C30, C36: descriptors, version arithmetic, the example plugin."""
from .lib import *
from . import header

SYS = ('repo', 'sudo_plugin_sys')
KINDS = {'policy_plugin': 'SUDO_POLICY_PLUGIN', 'io_plugin': 'SUDO_IO_PLUGIN', 'audit_plugin': 'SUDO_AUDIT_PLUGIN',
         'approval_plugin': 'SUDO_APPROVAL_PLUGIN'}


# -- bits

def intval(x):
    return x.args[0] if x.op == 'int' else None

def bits(x, width):
    """The 64 bits of an integer term, least significant first: 0, 1, (symbol, i), or None. width: {symbol: bits}"""
    Z = [0] * 64
    if x in width:
        return [(x, i) if i < width[x] else 0 for i in range(64)]
    c = intval(x)
    if c is not None:
        return [c >> i & 1 for i in range(64)]
    o = x.op
    if o in ('bor', 'band', 'xor', 'add', 'mul', 'div', 'rem', 'shl', 'shr', 'trunc') and isinstance(x.args[0], int):
        w = x.args[0]
        a = [bits(y, width) for y in x.args[1:] if isinstance(y, t.T)]
        k = next((intval(y) for y in reversed(x.args[1:]) if intval(y) is not None), None)
        if o in ('mul', 'div', 'rem'):
            if not k or k & (k - 1) or o != 'mul' and intval(x.args[2]) is None:
                return [None] * 64
            v = next(b for y, b in zip(x.args[1:], a) if intval(y) is None)[:w]
            n = k.bit_length() - 1
            v = [0] * n + v[:w - n] if o == 'mul' else v[n:] + [0] * n if o == 'div' else v[:n] + [0] * (w - n)
        elif o in ('shl', 'shr'):
            n = intval(x.args[2])
            if n is None:
                return [None] * 64
            n %= w
            v = a[0][:w]
            v = [0] * n + v[:w - n] if o == 'shl' else v[n:] + [0] * n
        elif o == 'trunc':
            v = a[0][:w]
        elif o in ('band', 'bor', 'xor'):
            v = a[0][:w]
            for b in a[1:]:
                v = [bit(o, p, q) for p, q in zip(v, b[:w])]
        elif o == 'add' and len(a) > 1:
            v = a[0][:w]
            for b in a[1:]:
                if all(p == 0 or q == 0 for p, q in zip(v, b[:w])):
                    v = [q if p == 0 else p for p, q in zip(v, b[:w])]
                else:
                    return [None] * 64
        else:
            return [None] * 64
        return (v + Z)[:64]
    return [None] * 64


def bit(o, p, q):
    if o == 'band':
        return 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q and p is not None else None
    if o == 'bor':
        return 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q and p is not None else None
    return q if p == 0 else p if q == 0 else 0 if p == q and p is not None else None


def same_bits(c, rule, subject, got, want, width, w, message):
    """Bit by bit: the result is made of the required bits of the inputs."""
    g, h = bits(got, width), bits(want, width)
    bad = [i for i in range(64) if g[i] is not None and h[i] is not None and g[i] != h[i]]
    if got is want or not bad and None not in g:
        c.held(rule, '%s = %s' % (subject, t.show(got)[:120]))
        return
    for vals in ((1, 9), (1, 17), (0, 0), (0xffff, 0xfffe), (2, 0x8000), (0x0102, 0x0304)):
        ks = sorted(width, key=t.show)
        m = {}
        for i, k in enumerate(ks):
            m[k] = I(vals[i % 2] if width[k] == 16 else vals[0] << 16 | vals[1])
        a, b = t.subst(got, m, fix=True), t.subst(want, m, fix=True)
        if intval(a) is not None and intval(b) is not None and intval(a) != intval(b):
            c.broken(rule, subject, message, w, ', '.join('%s = %d' % (t.show(k), intval(v)) for k, v in m.items()) +
                     ': %d instead of %d' % (intval(a), intval(b)))
            return
    if bad:
        c.broken(rule, subject, message, w, 'bit %d comes from %r instead of %r' % (bad[0], g[bad[0]], h[bad[0]]))
    else:
        c.unknown(rule, subject, t.show(got)[:300])


def local(p, suffix, n):
    return next((f for f in p.fns if f.j.get('local') and f.body is not None and f.defn.endswith(suffix)
                 and len(f.j['sig']) == n + 1), None)


def only(c, p, f, args, rule):
    """The single result of a function, or None."""
    ip = engine(p)
    out = ip.run(f, args)
    c.fns.update(g.name for g in ip.fns_seen if g.j.get('local'))
    r = []
    for s in out:
        if s.kind == 'undecided':
            c.unknown('analysis', f.name, s.notes[-1] if s.notes else '?')
            return None
        if s.kind != 'return':
            c.prove('never panics', f.name, list(s.path), FALSE, '%s can panic' % f.name, {f.name})
            continue
        r.append((and_(*s.path), s.ret))
    if not r:
        return None
    v = r[-1][1]
    for cond, x in r[:-1]:
        v = ite(cond, x, v)
    return v


def c30(c):
    p = program(*SYS)
    h = header.constants()
    major, minor = sym('major'), sym('minor')
    W2 = {major: 16, minor: 16}
    word = sym('version')
    W1 = {word: 32}
    mkv, gmaj, gmin = (local(p, x, n) for x, n in (('::sudo_api_mkversion', 2), ('::sudo_api_version_get_major', 1),
                                                   ('::sudo_api_version_get_minor', 1)))
    if None in (mkv, gmaj, gmin):
        c.unknown('version arithmetic', 'sudo_api_*', 'not found')
    else:
        packed = mk('bor', 32, minor, mk('shl', 32, major, I(16)))
        got = only(c, p, mkv, [major, minor], 'packing')
        if got is not None:
            same_bits(c, 'packing puts major above minor', 'sudo_api_mkversion', got, packed, W2, {mkv.name},
                      'a packed version does not have its major version in the upper and its minor in the lower 16 bits')
        for f, want, what in ((gmaj, mk('shr', 32, word, I(16)), 'major'), (gmin, mk('band', 32, word, I(0xffff)), 'minor')):
            got = only(c, p, f, [word], 'unpacking')
            if got is not None:
                same_bits(c, 'unpacking is the inverse', what, got, want, W1, {f.name},
                          'the %s part is not unpacked from where it was packed' % what)
    # the library's own version type
    q = program('repo', 'sudo_plugin')
    vt = next((i for i, x in enumerate(q.types) if x.get('def', '').endswith('sudo_plugin::version::Version')), None)
    if vt is None:
        c.unknown('round trip', 'Version', 'not found')
    else:
        names = [f[0] for f in q.types[vt]['variants'][0]['fields']]
        makes, packs = [], []
        for f in q.fns:
            sg = f.j.get('sig') or []
            if not f.j.get('local') or f.body is None or len(sg) != 2:
                continue
            a, r = q.types[sg[0]], q.types[sg[1]]
            if a['s'] == 'u32' and sg[1] == vt:
                makes.append(f)
            if sg[0] == vt and r['s'] == 'u32':
                packs.append(f)
        if not makes or not packs or sorted(names) != ['major', 'minor']:
            c.unknown('round trip', 'Version', 'no conversions')
        else:
            sh = sym('version')
            for f in makes:
                got = only(c, q, f, [sh], 'round trip')
                if got is not None and got.op == 'agg':
                    for i, n in enumerate(names):
                        same_bits(c, 'the version type holds both parts', '%s %s' % (f.name, n), models.field(got, i, n),
                                  mk('shr', 32, sh, I(16)) if n == 'major' else mk('band', 32, sh, I(0xffff)), {sh: 32}, {f.name},
                                  'a version received from sudo is not what sudo packed')
                else:
                    c.unknown('the version type holds both parts', f.name, t.show(got)[:200] if got is not None else 'no result')
            for f in packs:
                got = only(c, q, f, [agg(None, *[major if n == 'major' else minor for n in names])], 'round trip')
                if got is not None:
                    same_bits(c, 'the version type packs both parts', f.name, got, mk('bor', 32, minor, mk('shl', 32, major, I(16))),
                              W2, {f.name}, 'the library packs a version differently than sudo')
    # empty descriptors
    if h is None:
        c.unknown('descriptors', 'sudo_plugin.h', 'the header cannot be read')
        return
    want_version = h['SUDO_API_VERSION_MAJOR'] << 16 | h['SUDO_API_VERSION_MINOR']
    for kind, const in sorted(KINDS.items()):
        ty = next((x for x in p.types if x.get('def', '').endswith('::sys::' + kind)), None)
        f = local(p, kind + '>::empty', 0) or local(p, '::%s::empty' % kind, 0)
        if f is None or ty is None:
            c.unknown('an empty descriptor', kind, 'not found')
            continue
        got = only(c, p, f, [], 'an empty descriptor')
        if got is None:
            continue
        descriptor(c, f.name, {fl[0]: models.field(got, i, fl[0]) for i, fl in enumerate(ty['variants'][0]['fields'])},
                   h[const], want_version, {f.name}, empty=True)
    # the descriptors this project exports
    for crate in ('sudo_pair', 'deny_everything'):
        try:
            r = program('repo', crate)
        except facts.BuildFailure:
            continue
        for kind, const in sorted(KINDS.items()):
            for n, d in session.descriptors(r, kind).items():
                descriptor(c, n, {k: I(v) if isinstance(v, int) else v for k, v in d.items() if k in ('type_', 'version')},
                           h[const], want_version, {n})
    c.count('header constants', len(h))


def descriptor(c, name, d, kind, version, w, empty=False):
    for k, want, what in (('type_', kind, 'type number'), ('version', version, 'API version')):
        x = d.get(k)
        if x is None:
            c.unknown('its %s' % what, name, 'not a constant')
        else:
            c.prove('its %s' % what, name, [], eq(x, I(want)), 'a descriptor carries the wrong %s' % what, w)
    if empty:
        for k, x in d.items():
            if k not in ('type_', 'version'):
                c.prove('no callbacks', '%s %s' % (name, k), [], eq(t.discr(x, 2), I(0)), 'an empty descriptor has a callback', w)


# -- the example plugin

def c36(c):
    p = program('repo', 'deny_everything')
    ds = session.descriptors(p, 'approval_plugin')
    if not ds:
        raise session.Missing('the example plugin\'s descriptor')
    OLD = t.lt('u32', sym('open0'), I(1 << 16 | 17))
    for name, d in sorted(ds.items()):
        ip = engine(p)

        def run(f, tag, state=None):
            S0 = None
            if state is not None:
                S0 = state.copy()
                S0.ret = S0.kind = None
                S0.stack = ()
            out = ip.run(f, [sym('%s%d' % (tag, i)) for i in range(len(f.j['sig']) - 1)], S0)
            for s in out:
                if s.kind == 'undecided':
                    c.unknown('analysis', f.name, s.notes[-1] if s.notes else '?')
            c.count('final histories', len(out))
            return [s for s in out if s.kind != 'undecided']
        chk = d.get('check')
        if not isinstance(chk, interp.Fn):
            c.broken('every check is rejected', name, 'the example plugin has no check function', {name})
            continue
        w = {chk.name}
        opened = []
        if isinstance(d.get('open'), interp.Fn):
            opened = [s for s in run(d['open'], 'open') if s.kind == 'return']
        before = [('fresh', None)] + [('opened', s) for s in opened]
        if isinstance(d.get('show_version'), interp.Fn):
            for s in opened:
                before += [('opened', z) for z in run(d['show_version'], 'show', s) if z.kind == 'return']
        for rnd in range(2):
            nxt = []
            for how, st in before:
                for s in run(chk, 'check%d_' % rnd, st):
                    free = {mk('res', 'call', i): sym('printed%d' % i) for i in range(sum(1 for e in s.events if e.args[0] == 'call'))}
                    prem = [t.subst(x, free) for x in s.path]
                    ret = t.subst(s.ret, free) if s.ret is not None else None
                    if logic.prove(prem, FALSE)[0] == 'proved':
                        continue
                    if s.kind != 'return':
                        c.prove('every check is rejected', name, prem, FALSE, 'a check can end without an answer', w)
                        continue
                    c.prove('every check is rejected', name, prem, eq(ret, I(0)), 'a check is not rejected', w)
                    errstr = mk('deref', sym('check%d_3' % rnd))
                    wrote = s.mem.get(errstr)
                    if how == 'opened' and len(chk.j['sig']) == 5:
                        if wrote is None or wrote is errstr:
                            c.held('the error message is written only for 1.17', name)
                        else:
                            c.prove('the error message is written only for 1.17', name, prem + [OLD], eq(wrote, errstr),
                                    'the error message is written although sudo\'s API is older than 1.17', w)
                    nxt.append((how, s))
            before = nxt
        c.fns.update(f.name for f in ip.fns_seen if f.j.get('local'))


# -- the bindings

def kind_of(t_):
    return {'int': 'a %s%d-byte integer', 'ptr': 'a pointer', 'void': 'nothing', 'struct': 'a struct'}.get(t_[0], t_[0]) % \
        (('signed ' if t_[2] else 'unsigned ', t_[1]) if t_[0] == 'int' else ())


def abi_differs(a, b, where='it'):
    """How a C type and a Rust type differ as ABI kinds, or None."""
    if a[0] == 'ptr' and b[0] == 'ptr':
        x, y = a[1], b[1]
        if x is None or y is None:
            return None
        if y[4] not in ('C', 'C-unwind', 'system', 'system-unwind', 'cdecl', 'cdecl-unwind'):
            return '%s has the calling convention %s' % (where, y[4])
        d = abi_differs(x[1], y[1], 'its result')
        if d:
            return d
        if not x[4]:
            return None
        if len(x[2]) != len(y[2]):
            return '%s has %d parameters instead of %d' % (where, len(y[2]), len(x[2]))
        if x[3] != y[3]:
            return '%s is %svariadic' % (where, '' if y[3] else 'not ')
        for i, (p, q) in enumerate(zip(x[2], y[2])):
            d = abi_differs(p, q, 'parameter %d' % (i + 1))
            if d:
                return d
        return None
    if a[0] != b[0] or a[0] in ('int', 'struct') and a != b:
        return '%s is %s instead of %s' % (where, kind_of(b), kind_of(a))
    return None


def c29(c):
    found = header.bindings()
    if not found:
        c.unknown('bindings', 'sudo_plugin-sys/src/bindings', 'none found')
    for arch, (path, text) in found.items():
        rel = os.path.relpath(path, facts.REPO)
        w = {rel}
        if arch not in header.TARGETS:
            c.unknown('bindings', rel, 'unknown architecture')
            continue
        try:
            structs, calls = header.c_side(header.TARGETS[arch])
            consts = header.constants(header.TARGETS[arch])
            r = header.Rust(text, arch)
        except (header.Unreadable, OSError, KeyError, ValueError, IndexError) as e:
            c.unknown('bindings', rel, repr(e))
            continue
        for o in r.odd:
            c.unknown('bindings', rel, o)
        c.fns.add(rel)
        if not structs or not consts:
            c.unknown('bindings', 'sudo_plugin.h', 'no structs or constants found')
            continue
        for n, (size, align, fs) in sorted(structs.items()):
            sub = '%s struct %s' % (arch, n)
            if n not in r.structs:
                if n.startswith(('sudo', 'io_', 'policy', 'audit', 'approval')):
                    c.broken('every struct is bound', sub, '%s is not in the bindings' % n, w)
                continue
            if not r.is_c(n):
                c.broken('same layout', sub, '%s is not repr(C)' % n, w)
                continue
            try:
                rs, ra, rf = r.layout(n)
            except header.Unreadable as e:
                c.unknown('same layout', sub, repr(e))
                continue
            c.ensure('same size', rs == size, sub, 'its size is %d instead of %d' % (rs, size), w)
            c.ensure('same alignment', ra == align, sub, 'its alignment is %d instead of %d' % (ra, align), w)
            cn, rn = [f[0].rstrip('_') for f in fs], [f[0].rstrip('_') for f in rf]
            if not c.ensure('same fields in the same order', cn == rn, sub, 'its fields are %s instead of %s' % (
                    ', '.join(x for x, y in zip(rn + ['-'] * 9, cn + ['-'] * 9) if x != y),
                    ', '.join(y for x, y in zip(rn + ['-'] * 9, cn + ['-'] * 9) if x != y)), w):
                continue
            for (f, off, ct), (_, ro, rt) in zip(fs, rf):
                c.ensure('same offset', off == ro, '%s.%s' % (sub, f), 'its offset is %d instead of %d' % (ro, off), w)
                d = abi_differs(ct, rt)
                c.ensure('same kind', d is None, '%s.%s' % (sub, f), d or '', w)
        for n, ct in sorted(calls.items()):
            sub = '%s %s' % (arch, n)
            if n not in r.types:
                c.unknown('every callback type is bound', sub, 'not in the bindings')
                continue
            try:
                d = abi_differs(ct, r.resolve(r.types[n]))
            except header.Unreadable as e:
                c.unknown('same kind', sub, repr(e))
                continue
            c.ensure('same kind', d is None, sub, d or '', w)
        for n, v in sorted(consts.items()):
            if n in r.consts:
                got = r.consts[n][0]
                if got is None:
                    c.unknown('same value', '%s %s' % (arch, n), 'not a literal')
                else:
                    c.ensure('same value', got == v, '%s %s' % (arch, n), '%s is %d instead of %d' % (n, got, v), w)
        for n in sorted(r.consts):
            if n not in consts:
                c.unknown('same value', '%s %s' % (arch, n), 'not in the header')
        c.count('structs', len(structs))
        c.count('callback types', len(calls))
        c.count('constants', len(r.consts))
