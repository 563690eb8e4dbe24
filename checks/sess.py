"""The approval plugin as a whole: open, then callbacks, then close."""
from .common import *
from engine import vocab as v
from engine.terms import mk, I, sym, and_, or_, not_, ite, eq, agg, UNIT
from engine.session import array

DENY, USAGE = I(0xffffffff), I(0xfffffffe)
CALLBACKS = ['log_ttyin', 'log_ttyout', 'log_stdin', 'log_stdout', 'log_stderr', 'change_winsize']
FSMUT = {'bind', 'remove', 'chown', 'chmod', 'fsmut'}
UMASK, SIGINT = models.UMASK, mk('static', '#sigaction', I(2))
BUF = mk('poff', sym('buf'), I(0))
STREAM_OP = 'stream'


class Plugin:
    def __init__(self, c, unit='repo', crate='sudo_pair', desc='sudo_pair', **boundary):
        self.c = c
        self.p = program(unit, crate)
        ds = session.descriptors(self.p)
        ds = {k.rsplit('::', 1)[-1]: f for k, f in ds.items()}
        if desc not in ds:
            raise session.Missing('exported plugin descriptor `%s`' % desc)
        self.slots = ds[desc]
        self.b = session.Boundary(**boundary)
        self.ip = engine(self.p, self.b)
        self._open = None
        self._later = None
        self.cb = {}

    def fn(self, slot):
        f = self.slots.get(slot)
        if f is None or isinstance(f, int):
            raise session.Missing('callback `%s` of the plugin descriptor' % slot)
        return f

    def run(self, fn, args, state=None):
        if state is not None:
            S0 = state.copy()
            S0.ret = S0.kind = None
            S0.stack = ()
        else:
            S0 = None
        out = self.ip.run(fn, args, S0)
        self.c.fns.update(f.name for f in self.ip.fns_seen if f.j.get('local'))
        self.c.count('final histories', len(out))
        for s in out:
            if s.kind == 'undecided':
                self.c.unknown('analysis', fn.name, s.notes[-1] if s.notes else '?')
        return out

    @property
    def opens(self):
        if self._open is None:
            self._open = self.run(self.fn('open'), session.open_args())
        return self._open

    def decided(self):
        return [s for s in self.opens if s.kind != 'undecided']

    # sudo lets the command run unless open returns -1 or -2
    def allowed(self):
        r = []
        for s in self.decided():
            if s.kind != 'return':
                continue
            may = and_(not_(eq(s.ret, DENY)), not_(eq(s.ret, USAGE)))
            if may is FALSE:
                continue
            r.append((s, [may] if may is not TRUE else []))
        return r

    def started(self):
        """States in which a plugin is stored after a successful open."""
        r = []
        for s in self.decided():
            if s.kind != 'return':
                continue
            one = eq(s.ret, I(1))
            if one is FALSE:
                continue
            if one is not TRUE:
                s = s.copy()
                try:
                    s.assume(one)
                except interp.Infeasible:
                    continue
            r.append(s)
        return r

    def paired(self):
        return [s for s in self.started() if streams(s)]

    def exempt_states(self):
        return [s for s in self.started() if not streams(s)]

    def callback(self, slot, state, tag=''):
        """The histories of a callback; `tag` tells the arguments of earlier callbacks from those of the last one."""
        f = self.fn(slot)
        n = len(f.j['sig']) - 1
        args = [sym('arg%d%s' % (i, tag)) for i in range(n)]
        if slot.startswith('log_') and slot != 'log_suspend':
            if n < 2:
                raise session.Missing('buffer and length of `%s`' % slot)
            args[0] = mk('poff', sym('buf' + tag), I(0))
            args[1] = sym('len' + tag)
        pre = len(state.events) if state is not None else 0
        out = [s for s in self.run(f, args, state) if s.kind != 'undecided']
        return [(s, s.events[pre:]) for s in out]

    def where(self, *events):
        r = set()
        for e in events:
            r |= self.ip.sites.get(e, set())
        return r

    # a session: what further callbacks can make of the memory a successful open leaves

    def paired_later(self):
        if self._later is None:
            self._later = self.paired(), self.exempt_states()
            self._later = tuple(x + self.later(x) for x in self._later)
        return self._later[0]

    def exempt_later(self):
        self.paired_later()
        return self._later[1]

    def later(self, states, depth=2, limit=40):
        """States after one or two callbacks that left something changed in memory. None: memory is the same before and
        after every callback, so (by induction) the given states stand for the whole session."""
        out = []
        if len(states) > 3:
            states = [states[0], states[len(states) // 2], states[-1]]
        for st in states:
            seen, front = {kept(st): 2}, [st]
            for d in range(1, depth + 1):
                new = []
                for x in front:
                    for slot in CALLBACKS + ['show_version']:
                        if not callable_slot(self.slots.get(slot)):
                            continue
                        for s, ev in self.callback(slot, x, '@%d' % d):
                            k = kept(s)
                            if s.kind != 'return' or seen.get(k, 0) >= 2:
                                continue
                            seen[k] = seen.get(k, 0) + 1
                            new.append(s)
                            if d == 1:
                                g = self.many(st, s, slot)
                                if g is not None and kept(g) not in seen:
                                    seen[kept(g)] = 2
                                    out.append(g)
                out += new
                front = new[:8]
                if len(out) > limit:
                    break
        self.c.count('further states of a session', len(out[:limit]))
        return out[:limit]

    def many(self, st, s, slot):
        """If all that a callback changes is a number that it counts up: the state after any number of such callbacks."""
        ds = []
        a, b = dict(kept(st)), dict(kept(s))
        if set(a) != set(b):
            return None
        for r in a:
            if a[r] is not b[r]:
                differences(a[r], b[r], ds)
        if len(ds) != 1 or ds[0][0].op != 'int' or ds[0][1].op != 'int' or ds[0][1].args[0] != ds[0][0].args[0] + 1:
            return None
        root = next(r for r in a if a[r] is not b[r])
        n = sym('calls')
        start = ds[0][0]
        G = s.copy()
        G.mem[root] = replaced(a[root], b[root], n)
        paths = []
        for z, ev in self.callback(slot, G, '@2'):
            w = z.mem.get(root)
            e = []
            if z.kind != 'return' or w is None:
                continue
            differences(G.mem[root], w, e)
            if len(e) == 1 and e[0][1] is t.arith('add', 64, n, I(1)):
                paths.append([l for l in z.path if t.occurs(l, n)])
        ks = set()
        for l in sum(paths, []):
            t.anyop(l, lambda y: y.op == 'int' and ks.add(y.args[0]))
        for c in sorted({start.args[0]} | {max(start.args[0], k + d) for k in ks for d in (-1, 0, 1)}):
            vs = [[t.subst(l, {n: I(c)}) for l in ls] for ls in paths]
            if any(all(x is TRUE for x in ls) for ls in vs):
                continue
            if all(any(x is FALSE for x in ls) for ls in vs):
                if c == start.args[0]:
                    return None
                G.assume(not_(t.lt('u64', I(c), n)))
                break
            return None
        G.assume(not_(t.lt('u64', n, start)))
        return G


def callable_slot(f):
    return f is not None and not isinstance(f, int)


def kept(s):
    """What of the memory later callbacks can see: a frozen set of (root, value)."""
    r, todo = {}, [x for x in s.mem if x.op == 'static' and not str(x.args[0]).startswith('#')]
    while todo:
        x = todo.pop()
        if x in r or x not in s.mem:
            continue
        r[x] = s.mem[x]
        t.anyop(s.mem[x], lambda y: y in s.mem and y not in r and todo.append(y))
    return frozenset(r.items())


def differences(a, b, out):
    """The smallest differing parts of two values."""
    if a is b:
        return
    if a.op == b.op == 'agg' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        for x, y in zip(a.args[1:], b.args[1:]):
            differences(x, y, out)
    elif a.op == b.op == 'ite' and a.args[0] is b.args[0]:
        differences(a.args[1], b.args[1], out)
        differences(a.args[2], b.args[2], out)
    else:
        out.append((a, b))


def replaced(a, b, n):
    """b with the parts that differ from a replaced by n."""
    if a is b:
        return b
    if a.op == b.op == 'agg' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return agg(b.args[0], *[replaced(x, y, n) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(b.args[0], replaced(a.args[1], b.args[1], n), replaced(a.args[2], b.args[2], n))
    return n


SESSION = [v.version_ok(), v.parsed('Settings'), v.parsed('UserInfo'), v.parsed('CommandInfo'), v.HAS_COMMAND]
USERCHANGE = not_(eq(v.U('uid'), v.C('runas_euid')))


def ok_of(s, i):
    """The success atom of event i."""
    e = s.events[i]
    n = sum(1 for x in s.events[:i] if x.args[0] in (e.args[0], 'loop'))
    return mk('ok', e.args[0], n, *e.args[1:])


def number_of(s, i):
    e = s.events[i]
    return sum(1 for x in s.events[:i] if x.args[0] in (e.args[0], 'loop'))


def idx(s, *names):
    return [i for i, e in enumerate(s.events) if e.args[0] in names]


def stream_of(x):
    """The connected stream a handle value contains."""
    found = []

    def go(y):
        if isinstance(y, t.T):
            if y.op == 'stream':
                found.append(y)
                return
            if y.op == 'agg' or y.op == 'h' or y.op == 'ite':
                for a in y.args:
                    go(a)
            elif y.op == 'ptr':
                go(y.args[0])
            elif y.op == 'tmp':
                go(y.args[0])
        elif isinstance(y, tuple):
            for a in y:
                go(a)
    go(x)
    return found[0] if found else None


def streams(s):
    """Streams accepted in a history: [(index of accept, stream term)]."""
    r = []
    for i in idx(s, 'accept'):
        r.append((i, mk('stream', number_of(s, i), s.events[i].args[1])))
    return r


def writes(events):
    """[(position, device type or None, handle, data)] of every write event."""
    r = []
    for i, e in enumerate(events):
        if e.args[0] == 'write_all':
            r.append((i, e.args[1], e.args[2], e.args[3]))
        elif e.args[0] == 'sock_write':
            r.append((i, 'UnixStream', e.args[1], e.args[2]))
        elif e.args[0] == 'write':
            h = e.args[1]
            r.append((i, h.args[0], h.args[1], e.args[2]))
    return r


def to_pair(events):
    """[(position, stream, data)] of writes to a pair."""
    return [(i, stream_of(h), d) for i, ty, h, d in writes(events) if stream_of(h) is not None]


def reads(events):
    """[(position, kind, stream)] of reads from a pair."""
    r = []
    for i, e in enumerate(events):
        if e.args[0] == 'sock_read':
            r.append((i, 'read', stream_of(e.args[1]), e.args[2]))
        elif e.args[0] == 'read' and stream_of(e.args[1]) is not None:
            r.append((i, 'read', stream_of(e.args[1]), e.args[2]))
        elif e.args[0] == 'read_retried':
            r.append((i, e.args[1], stream_of(e.args[3]), e.args[4]))
    return r


def looped(events):
    return any(e.args[0] == 'loop' for e in events)


def got_first_byte(s, i):
    """(condition, term): the read at event i delivered at least one byte; the byte."""
    e = s.events[i]
    n = number_of(s, i)
    if e.args[0] == 'read_retried':
        how = e.args[1]
        return ok_of(s, i), t.at(mk('rbuf', 'exact' if how == 'read_exact' else how, n), I(0))
    name, ln = e.args[0], e.args[2]
    if ln is I(1):
        g = mk('bool', 'gotbyte', name, n)
    else:
        g = t.lt('u64', I(0), mk('count', name, n))
    return and_(ok_of(s, i), g), t.at(mk('rbuf', name, n), I(0))


# functions without a model of their own that change the file system
MUTATORS = ('rename', 'copy', 'hard_link', 'soft_link', 'symlink', 'create_dir', 'create_dir_all', 'remove_dir',
            'remove_dir_all', 'set_len', 'set_permissions', 'set_times', 'mkdir', 'mkdirat', 'rmdir', 'link', 'linkat',
            'symlinkat', 'renameat', 'renameat2', 'unlinkat', 'truncate', 'ftruncate', 'mkfifo', 'mknod', 'fchmodat',
            'fchownat', 'creat', 'lchown', 'open', 'openat', 'utime', 'utimes', 'utimensat', 'fchown', 'fchmod',
            'create_new', 'create_buffered')


def mutation(e):
    """What a file-system event changes: (path, verb), or None."""
    n = e.args[0]
    if n in ('bind', 'remove', 'chown', 'chmod'):
        return e.args[1], n
    if n == 'sys' and str(e.args[1]).rsplit('::', 1)[-1] in MUTATORS and \
            str(e.args[1]).startswith(('std::fs', 'libc::', 'std::os::unix::fs')):
        return None, str(e.args[1])
    return None


def inside(x, op):
    """Is there a part of this kind in a value?"""
    return t.anyop(x, lambda y: y.op == op)
