"""The vocabulary rules use to write conditions over the inputs of the plugin."""
from . import terms as t
from .terms import mk, I, TRUE, FALSE, sym, and_, or_, not_, ite, eq, x as var
from .session import array

X = var(0)


def lit(s):
    return t.lit(s.encode() if isinstance(s, str) else s)


def optmap(name):
    """The pairs of an option list, as an uninterpreted map."""
    return t.fld(mk('optmap', array(name)), '0')


OPT, SET, UI, CI = optmap('plugin_options'), optmap('settings'), optmap('user_info'), optmap('command_info')


def has(m, k):
    return mk('has', m, lit(k))


def val(m, k):
    return mk('mapval', m, lit(k))


def valid(v):
    return mk('valid', v)


def U(k):
    return t.fld(sym('UserInfo'), k)


def C(k):
    return t.fld(sym('CommandInfo'), k)


def S(k):
    return t.fld(sym('Settings'), k)


def parsed(name):
    return mk('bool', 'parsed', name, mk('optmap', array({'Settings': 'settings', 'UserInfo': 'user_info',
                                                         'CommandInfo': 'command_info'}[name])))


def text(m, k, d):
    """A textual option with a default."""
    return ite(and_(has(m, k), valid(val(m, k))), val(m, k), lit(d))


def split(v, sep):
    return mk('split', v, lit(sep))


def intlist(v, ty):
    """(all elements parse, the sequence of their values) of a comma-separated list."""
    s = split(v, ',')
    return not_(t.exists(s, not_(mk('parsed', ty, X)), X)), t.star(s, t.unit(mk('pval', ty, X)), X)


def gids(k, default):
    """A gid-list option of the plugin as a sequence."""
    good, vs = intlist(val(OPT, k), 'u32')
    return ite(and_(has(OPT, k), valid(val(OPT, k)), good), vs, default)


def isnone(v):
    return eq(t.discr(v, 2), I(0))


def some(v):
    return t.fld(v, 'Some.0')


BINARY = text(OPT, 'binary_path', '/usr/bin/sudo_approve')
SOCKET_DIR = text(OPT, 'socket_dir', '/var/run/sudo_pair')
ENFORCED = gids('gids_enforced', t.lit(b'\0'))
EXEMPTED = gids('gids_exempted', t.EMPTY)
NAMED_GROUP = has(SET, 'runas_group')
HAS_COMMAND = has(CI, 'command')


def runas_gids_intersect(s):
    g = C('runas_groups')
    base = ite(isnone(g), t.intersects(U('groups'), s), t.intersects(some(g), s))
    return or_(base, t.in_(C('runas_egid'), s))


def exempt():
    """The six documented conditions."""
    return or_(
        eq(U('uid'), U('euid')),
        and_(eq(U('uid'), C('runas_euid')), eq(U('gid'), C('runas_egid'))),
        eq(C('command'), BINARY),
        and_(*[eq(C(k), FALSE) for k in ('iolog_ttyout', 'iolog_stdout', 'iolog_stderr')]),
        t.intersects(U('groups'), EXEMPTED),
        not_(runas_gids_intersect(ENFORCED)))


VERSION_OK = None


def version_ok():
    """major > 1, or major = 1 and minor >= 9."""
    v = sym('version')
    major = t.arith('shr', 32, v, I(16))
    major = t.cast_int(32, False, 16, major)
    minor = t.cast_int(32, False, 16, t.arith('and', 32, v, I(0xffff)))
    return or_(t.lt('u16', I(1), major), and_(eq(major, I(1)), not_(t.lt('u16', minor, I(9)))))
