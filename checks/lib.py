"""The library under plugins whose every method is unknown code (crate probe)."""
from .sess import *

PLUGINS = ('heeding', 'ignoring')


class Author(session.Boundary):
    """Calls into the plugin author's code: any result, or a panic."""

    def __init__(self, panics=False, **on):
        super().__init__(**on)
        self.panics = panics

    def __call__(self, c):
        j = c.fn.j
        tr = (j.get('trait') or '').rsplit('::', 1)[-1]
        if j.get('local') and '::State' not in c.fn.name and c.fn.defn.startswith(('<probe::', 'probe::<impl')) \
                and tr in ('IoPlugin', 'From', 'Display', 'Debug', 'Error'):
            return self.author(c, j, tr, j['method'])
        return super().__call__(c)

    def author(self, c, j, tr, m):
        p = c.I.p
        rt = p.types[j['sig'][-1]]
        if tr in ('Display', 'Debug', 'Error'):
            raise Undecided('formats an author\'s error')
        name = m if tr == 'IoPlugin' else 'convert' if 'AnyError' in p.tname(j['sig'][0]) else 'wrap'
        args = []
        for a in c.args:
            args.append(deep(c.I, c.S, a) if m != 'open' else a)
        n = sum(1 for e in c.S.events if e.args[0] == 'author')
        env = self.env(c)
        c.I.emit(c.S, 'author', name, rt.get('def', '').rsplit('::', 1)[-1] if name == 'convert' else '', env, *args)
        if self.panics and c.decide(mk('bool', 'panics', name, n)):
            raise Panic('the author\'s `%s` panicked' % name)
        if name == 'wrap':
            return mk('author_error', n)
        if name == 'convert':
            k = len(rt['variants'])
            sym_ = mk('status', n)
            r = agg(k - 1)
            for i in range(k - 2, -1, -1):
                r = ite(eq(mk('choice', n, k), I(i)), agg(i), r)
            return r
        if p.types[j['sig'][-1]]['k'] == 'tuple':
            return UNIT
        good = mk('bool', 'author_ok', name, n)
        v = agg(None, mk('plugin', n)) if m == 'open' else UNIT
        return ite(good, models.ok(v), models.err(mk('author_error', n)))

    def env(self, c):
        """Is the environment the plugin was opened with still there?"""
        for e in c.S.events:
            if e.args[0] == 'author' and e.args[1] == 'open':
                q = e.args[4]
                if q.op != 'ptr' or q.args[0].op != 'static':
                    return mk('elsewhere')
                try:
                    x = c.I.load(c.S, q.args[0], q.args[1])
                except Exception:
                    return FALSE
                return TRUE if x.op == 'agg' else FALSE
        return TRUE


class Library(Plugin):
    def __init__(self, c, desc, panics=False, **on):
        super().__init__(c, 'probe', 'probe', desc)
        self.b = Author(panics, **on)
        self.ip = engine(self.p, self.b)

    def call(self, slot, state, args=None):
        """[(final state, its new events, new author events with their indices)]"""
        if slot == 'open':
            out = [(s, s.events[len(state.events) if state else 0:]) for s in
                   self.run(self.fn('open'), session.open_args(), state) if s.kind != 'undecided']
        else:
            out = self.callback(slot, state)
        r = []
        for s, ev in out:
            k = len(s.events) - len(ev)
            r.append((s, ev, [(k + i, e) for i, e in enumerate(ev) if e.args[0] == 'author']))
        return r

    def holds(self, s, cond):
        """A copy of a state with an assumption, or None."""
        if cond is TRUE:
            return s
        if cond is FALSE:
            return None
        s = s.copy()
        try:
            s.assume(cond)
        except interp.Infeasible:
            return None
        return s


def author(evs, *names):
    return [(i, e) for i, e in evs if e.args[1] in names]


def author_ok(s, i):
    e = s.events[i]
    return mk('bool', 'author_ok', e.args[1], nth(s, i))


def nth(s, i):
    return sum(1 for e in s.events[:i] if e.args[0] == 'author')


def plugin_of(s, i):
    """The plugin value the author's open at event i returned."""
    return agg(None, mk('plugin', nth(s, i)))


def status_term(p, s, i):
    """The i32 sudo is given for the status the author's conversion at event i chose."""
    e = s.events[i]
    ty = next(x for x in p.types if x.get('def', '') == 'sudo_plugin::core::' + e.args[2])
    vs = [v['discr'] for v in ty['variants']]
    n, k = nth(s, i), len(vs)
    r = I(vs[-1])
    for j in range(k - 2, -1, -1):
        r = ite(eq(mk('choice', n, k), I(j)), I(vs[j]), r)
    return r
