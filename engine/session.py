"""The plugin as sudo drives it: open, then callbacks, then close."""
from . import interp, models, terms as t
from .terms import mk, I, TRUE, FALSE, UNIT, UNINIT, agg, sym, and_, or_, not_, ite, eq
from .interp import Undecided, Panic, Push
from .models import ok, err, deep

SLOTS = ['open', 'close', 'show_version', 'log_ttyin', 'log_ttyout', 'log_stdin', 'log_stdout', 'log_stderr',
         'register_hooks', 'deregister_hooks', 'change_winsize', 'log_suspend', 'event_alloc']

OPEN_ARGS = ['version', 'conversation', 'printf', 'settings', 'user_info', 'command_info', 'argc', 'argv',
             'user_env', 'plugin_options', 'errstr']


class Missing(Exception):
    """Something the rules are about does not exist any more."""


def descriptors(prog, tname='io_plugin'):
    """Exported statics of the descriptor type: {name: {field: fn or None}}"""
    out = {}
    for n, s in prog.statics.items():
        x = prog.types[s['ty']]
        if x.get('def', '').endswith('::' + tname) and s.get('no_mangle') and s.get('init'):
            names = [f[0] for f in x['variants'][0]['fields']]
            d = {}
            for k, v in zip(names, s['init'][2]):
                if v[0] == 'i':
                    d[k] = v[1]
                elif v[0] == 'agg' and v[1] == 1 and v[2][0][0] == 'fn':
                    d[k] = prog.fns[v[2][0][1]]
                else:
                    d[k] = None
            out[n] = d
    return out


def array(name):
    return mk('poff', sym(name), I(0))


def struct_of(prog, tid, name, **known):
    """An arbitrary value of a struct, with some fields given."""
    x = prog.types[tid]
    s = sym(name)
    return agg(None, *[known.get(f[0], t.fld(s, f[0])) for f in x['variants'][0]['fields']])


class Boundary:
    """Calls that are analysed on their own, as uninterpreted results here."""

    def __init__(self, **on):
        self.on = on
        self.hits = {}

    def __call__(self, c):
        j = c.fn.j
        if not j.get('local'):
            return NotImplemented
        m = j.get('method') or c.fn.defn.rsplit('::', 1)[-1]
        tr = j.get('trait') or ''
        p = c.I.p
        if tr.endswith('TryFrom') and m == 'try_from' and self.on.get('parse', True):
            so = p.types[j['self']]
            name = so.get('def', '').rsplit('::', 1)[-1]
            if name in ('Settings', 'UserInfo', 'CommandInfo'):
                self.hit(name)
                good = mk('bool', 'parsed', name, c.args[0])
                v = struct_of(p, j['self'], name, raw=c.args[0])
                return ite(good, ok(v), err(mk('parse_error', name)))
        d = c.fn.defn
        if d.endswith('option_map::OptionMap::from_raw') and self.on.get('parse', True):
            self.hit('from_raw')
            return mk('optmap', c.args[0])
        if d.endswith('template::Spec::expand') and self.on.get('expand', True):
            self.hit('expand')
            s = c.load(c.args[0])
            tl = c.val(1)
            return mk('expand', deep(c.I, c.S, s), tl)
        if d.endswith('io_env::IoEnv::invocation') and self.on.get('invocation', True):
            self.hit('invocation')
            return mk('invocation', deep(c.I, c.S, c.load(c.args[0])))
        if d.endswith('PrintFacility::write_error') and self.on.get('report', True):
            self.hit('report')
            e = deep(c.I, c.S, c.args[1])
            c.I.reported.setdefault(e, set()).update(c.I.unsized.get(c.args[1], ()))
            o, n = models.attempt(c.I, c.S, 'report', deep(c.I, c.S, c.load(c.args[0])), e)
            return ite(o, ok(UNIT), err(models.io_err('report', n)))
        return NotImplemented

    def hit(self, k):
        self.hits[k] = self.hits.get(k, 0) + 1


def open_args():
    r = []
    for n in OPEN_ARGS:
        if n in ('settings', 'user_info', 'command_info', 'argv', 'user_env', 'plugin_options'):
            r.append(array(n))
        else:
            r.append(sym(n))
    return r
