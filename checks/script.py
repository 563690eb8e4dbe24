"""The provided approval script: what it connects to and when (C08, C33)."""
import os
import facts
from engine import shell, shexec
from engine.shexec import Sym, show

U, P = 1, 2


def scripts():
    """[(name, text)] of the approval scripts the repository provides."""
    out = []
    for d, ds, fs in os.walk(os.path.join(facts.REPO, 'sample')):
        for f in sorted(fs):
            p = os.path.join(d, f)
            try:
                s = open(p).read()
            except (OSError, UnicodeDecodeError):
                continue
            if f == 'sudo_approve' or s.startswith('#!') and 'unix-connect' in s.lower():
                out.append((os.path.relpath(p, facts.REPO), s))
    return out


def explored(c, rule):
    """[(script name, [(path, status)])], or nothing where the script cannot be followed."""
    found = scripts()
    if not found:
        c.unknown(rule, 'sample/bin/sudo_approve', 'no approval script')
    for name, s in found:
        try:
            ps = list(shexec.paths(shell.parse(s)))
        except (shell.Unparsed, shexec.Unknown, RecursionError, IndexError, ValueError, TypeError) as e:
            c.unknown(rule, name, '%s: %s' % (type(e).__name__, e))
            continue
        c.count('paths of the script', len(ps))
        c.fns.add(name)
        for r, st in ps:
            if r.unsure:
                c.unknown(rule, name, 'not followed to the end: %s' % r.unsure[0])
        yield name, ps


def forms(n):
    """The ways an argument that is a plain number appears: (as typed, as the shell's number, as a decimal number)."""
    raw = Sym('arg', n, 'digits')
    return raw, Sym('num', raw, 'canon'), Sym('dec', (raw,), 'canon')


def same(v, n):
    """Is this string argument n?  The form, or None."""
    if len(v) == 1 and isinstance(v[0], Sym):
        for f in forms(n):
            if v[0] == f or v[0] == Sym('num', (f,), 'canon'):
                return f
    return None


def reals(known):
    """The approver's real uid, as far as this path has settled which one it is."""
    k = known.get(('set', 'SUDO_UID'))
    env = Sym('env', 'SUDO_UID', 'canon')
    return [env] if k is True else [shexec.APPROVER] if k is False else [shexec.APPROVER, env]


def unequal(known, a, b):
    pair = tuple(sorted((a, b), key=repr))
    if known.get(('numeq',) + pair) is False or known.get(('lt', a, b)) or known.get(('lt', b, a)):
        return True
    return known.get(('streq',) + tuple(sorted(((a,), (b,)), key=repr))) is False


def differs(known, form):
    """Does the path entail that the session's uid, in this form, is not the approver's?"""
    raw, num, dec = forms(U)
    ways = (raw, num, dec) if form in (raw, None) else (form,)
    return all(any(unequal(known, w, r) for w in ways) for r in reals(known))


def when(known):
    out = []
    for k, v in known.items():
        if k[0] == 'nargs':
            out.append('%d arguments' % v)
        elif k[0] == 'class':
            out.append('argument %d %s' % (k[1], {'digits': 'is a number', 'nondigit': 'is not a number',
                                                 'empty': 'is empty'}[v]))
        elif k[0] == 'set':
            out.append('%s %sset' % (k[1], '' if v else 'not '))
        elif k[0] in ('numeq', 'streq', 'lt'):
            out.append('%s %s %s' % (show(k[1]), {True: '<' if k[0] == 'lt' else '=', False: '>=' if k[0] == 'lt' else '!='}[v],
                                     show(k[2])))
        elif k[0] == 'test':
            out.append('%s%s %s' % ('' if v else '! ', k[1], ' '.join(show(x) for x in k[2:])))
    return '; '.join(out)


def c08(c):
    """The address the script connects to."""
    from . import rules_options
    from .sess import Plugin
    rule = 'the script connects to <default socket_dir>/<uid>.<pid>.sock'
    d = rules_options.default_dir(Plugin(c).p)
    d = d.args[0].decode('utf-8', 'replace') if d is not None else None
    if d is None:
        c.unknown(rule, 'default directory', 'not a constant')
        return
    for name, ps in explored(c, rule):
        n = 0
        for r, st in ps:
            for kind, what, known in r.events:
                if kind == 'unknown':
                    c.unknown(rule, name, 'a program that may connect: %s' % what)
                if kind != 'connect':
                    continue
                n += 1
                if any(known.get(('class', i), 'digits') != 'digits' for i in (U, P)):
                    continue
                if what is None:
                    c.unknown(rule, name, 'the address is not recognised')
                    continue
                what = tuple(Sym('num', p.data[0], p.cls) if isinstance(p, Sym) and p.kind == 'num' and
                             isinstance(p.data, tuple) and not isinstance(p.data, Sym) and len(p.data) == 1 else p
                             for p in what)
                ok = False
                for u in forms(U):
                    for p in forms(P):
                        ok = ok or tidy(what) == tidy((d + '/', u, '.', p, '.sock'))
                if ok:
                    c.held(rule, '%s connects to %s' % (name, show(what)))
                elif all(isinstance(p, str) or p.kind in ('arg', 'num', 'dec', 'env', 'shell', 'approver') for p in what):
                    c.broken(rule, name, '%s connects to %s, where the plugin by default listens at %s/<uid>.<pid>.sock'
                             % (name, show(what), d), {name}, when(known))
                else:
                    c.unknown(rule, name, 'connects to %s' % show(what))
        if not n:
            c.unknown(rule, name, 'never connects')


def tidy(v):
    out = []
    for p in shexec.norm(v):
        if isinstance(p, str):
            while '//' in p:
                p = p.replace('//', '/')
            p = p.replace('/./', '/')
        out.append(p)
    return tuple(out)


def c33(c):
    here = 'acts only for another user\'s session'
    args = 're-runs itself for the same session'
    fail = 'fails for one\'s own session'
    text = 'evaluates no unchecked text'
    for name, ps in explored(c, here):
        acts = 0
        for r, st in ps:
            for kind, what, known in r.events:
                if kind == 'unknown':
                    c.unknown(here, name, 'a program that may connect: %s' % what)
                elif kind in ('arith', 'eval'):
                    # numbers are compared as soon as both are known; text can do anything while it is being looked at
                    c.broken(text, '%s evaluates %s' % (name, what),
                             '%s evaluates %s as %s, which can run commands, before it knows whose session it is' % (
                                 name, what, 'arithmetic' if kind == 'arith' else 'a command'), {name}, when(known)) \
                        if not differs(known, None) else c.held(text)
                elif kind == 'connect':
                    acts += 1
                    form = None
                    if what is not None:
                        form = next((f for f in forms(U) if f in what), None)
                    if differs(known, form):
                        c.held(here, '%s connects to %s when %s' % (name, show(what or ()), when(known)))
                    else:
                        c.broken(here, '%s connects' % name,
                                 '%s connects to %s without having found that the session is another user\'s' % (
                                     name, show(what or ())), {name}, when(known))
                elif kind == 'rerun':
                    acts += 1
                    form = same(what[0], U) if what else None
                    if differs(known, form):
                        c.held(here, '%s re-runs itself when %s' % (name, when(known)))
                    else:
                        c.broken(here, '%s re-runs itself' % name,
                                 '%s re-runs itself without having found that the session is another user\'s' % name,
                                 {name}, when(known))
                    good = len(what) == 2 and same(what[0], U) and same(what[1], P)
                    if good:
                        c.held(args, '%s re-runs itself with %s' % (name, ' '.join(show(w) for w in what)))
                    elif all(isinstance(p, str) or p.kind in ('arg', 'num', 'dec', 'env', 'shell', 'approver')
                             for w in what for p in w):
                        c.broken(args, '%s re-runs itself' % name, '%s re-runs itself with %s' % (
                            name, ' '.join(show(w) for w in what) or 'no arguments'), {name}, when(known))
                    else:
                        c.unknown(args, name, 'with %s' % ' '.join(show(w) for w in what))
            k = r.known
            if r.final is None:
                continue
            if k.get(('nargs',), 2) == 2 and k.get(('class', U), 'digits') == 'digits' and \
                    k.get(('class', P), 'digits') == 'digits' and not differs(k, None):
                if not r.final:
                    c.held(fail, '%s fails when %s' % (name, when(k)))
                else:
                    c.broken(fail, name, '%s succeeds without having found that the session is another user\'s' % name,
                             {name}, when(k))
        c.count('connections and re-runs', acts)
        if not acts:
            c.unknown(here, name, 'never connects')
