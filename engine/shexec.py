"""Abstract execution of a bash script, path by path.

Strings are tuples of literal text and symbols.  What the script cannot know (its arguments and environment, the
answers of other programs, the file system) is decided anew on every path; nothing is run."""
import re
import time
from collections import namedtuple
from . import shell, relang

Sym = namedtuple('Sym', 'kind data cls')
APPROVER = Sym('approver', None, 'canon')
ZERO = Sym('zero', None, 'text')
CONNECT = {'socat', 'nc', 'ncat', 'netcat', 'nc.openbsd'}
RERUN = {'sudo', 'doas'}


class Exit(Exception):
    def __init__(self, status):
        self.status = status


class Return(Exit):
    pass


class Loop(Exception):
    def __init__(self, kind, n):
        self.kind, self.n = kind, n


class Unknown(Exception):
    """The script does something the executor has no meaning for."""


class Cut(Exception):
    """This path is not followed further."""


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return tuple(out)


def text(v):
    """The literal text of a value, or None."""
    if not v:
        return ''
    return v[0] if len(v) == 1 and isinstance(v[0], str) else None


def lang(v):
    r = relang.EPS
    for p in reversed(v):
        r = relang.cat(relang.lit(p) if isinstance(p, str) else relang.LANG[p.cls], r)
    return r


def show(v):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Sym):
        v = (v,)
    out = ''
    for p in v:
        if isinstance(p, str):
            out += p
        elif p.kind == 'arg':
            out += '<argument %s>' % p.data
        elif p.kind == 'env':
            out += '<$%s>' % p.data
        elif p.kind == 'num':
            out += '<number %s>' % show(p.data)
        elif p.kind == 'approver':
            out += '<id -u>'
        elif p.kind == 'zero':
            out += '<$0>'
        elif p.kind == 'out':
            out += '<output of %s>' % ' '.join(show(x) for x in p.data[0])
        else:
            out += '<%s>' % p.kind
    return out


def untrusted(x):
    """Does the value contain text an approver chose freely?"""
    if isinstance(x, Sym):
        if x.kind in ('arg', 'env'):
            return x.cls in ('nondigit', 'text')
        if x.kind == 'out':
            return False
        return untrusted(x.data)
    if isinstance(x, (tuple, list)):
        return any(untrusted(y) for y in x)
    return False


class State:
    def __init__(self):
        self.scopes = [{}]
        self.attrs = [{}]
        self.funcs = {}
        self.args = []
        self.opts = set()
        self.status = 0
        self.exported = set()

    def copy(self):
        s = State()
        s.scopes = [dict(x) for x in self.scopes]
        s.attrs = [dict(x) for x in self.attrs]
        s.funcs = dict(self.funcs)
        s.args = self.args
        s.opts = set(self.opts)
        s.status = self.status
        return s


OPTS = {'e': 'errexit', 'u': 'nounset', 'x': 'xtrace', 'f': 'noglob', 'n': 'noexec'}


class Run:
    """One path through the script, following the given decisions first."""

    def __init__(self, ast, script, deadline):
        self.ast = ast
        self.script = script        # options chosen at earlier decisions
        self.taken = []             # (key, options, index)
        self.known = {}
        self.events = []            # (kind, details, known before)
        self.deadline = deadline
        self.cond = 0
        self.out = []               # stack of output buffers
        self.stdin = [()]
        self.traps = {}
        self.n = 0
        self.depth = 0
        self.steps = 0
        self.s = State()
        self.unsure = []

    # -- decisions

    def decide(self, key, options):
        if key in self.known:
            return self.known[key]
        i = len(self.taken)
        k = self.script[i] if i < len(self.script) else 0
        self.taken.append((key, options, k))
        self.known[key] = options[k]
        return options[k]

    def nargs(self):
        return self.decide(('nargs',), [2, 1, 0, 3])

    def top_args(self):
        return [self.arg(i + 1) for i in range(self.nargs())]

    def arg(self, i):
        c = self.decide(('class', i), ['digits', 'nondigit', 'empty'])
        return () if c == 'empty' else (Sym('arg', i, c),)

    def env(self, name):
        """The value inherited from the environment, or None."""
        if name in ('UID', 'EUID'):
            return (APPROVER,)
        if name in ('PPID', 'RANDOM', 'SECONDS', 'LINENO', 'BASHPID', 'EPOCHSECONDS'):
            return (Sym('shell', name, 'canon'),)
        if name == 'BASH_SOURCE':
            return (ZERO,)
        if name in ('HOSTNAME', 'BASH_VERSION', 'OSTYPE', 'BASH', 'PWD'):
            return (Sym('shell', name, 'text'),)
        if name == 'IFS':
            return (' \t\n',)
        if name == 'SUDO_UID':
            return (Sym('env', name, 'canon'),) if self.decide(('set', name), [False, True]) else None
        return (Sym('env', name, 'text'),) if self.decide(('set', name), [False, True]) else None

    # -- variables

    def lookup(self, name):
        for sc in reversed(self.s.scopes):
            if name in sc:
                return sc[name]
        return self.env(name)

    def attributes(self, name):
        for a in reversed(self.s.attrs):
            if name in a:
                return a[name]
        return frozenset()

    def assign(self, name, val, op='=', local=False, attrs=None):
        have = self.attributes(name) if not (local and name not in self.s.attrs[-1]) else frozenset()
        if 'r' in have:
            raise Exit(1)
        at = have | (attrs or frozenset())
        if isinstance(val, list):
            if op == '+=':
                old = self.lookup(name)
                val = (old if isinstance(old, list) else [old] if old else []) + val
        elif val is not None:
            if 'i' in at:
                if op == '+=':
                    val = self.numstr(self.arith2('+', self.num(self.lookup(name) or ()), self.num(val)))
                else:
                    val = self.numstr(self.num(val))
            elif op == '+=':
                val = norm((self.lookup(name) or ()) + val)
        if name == 'IFS' and val is not None:
            self.unsure.append('IFS')
        if local:
            i = len(self.s.scopes) - 1
        else:
            i = 0
            for j in range(len(self.s.scopes) - 1, -1, -1):
                if name in self.s.scopes[j]:
                    i = j
                    break
        self.s.attrs[i][name] = at
        if val is not None or name not in self.s.scopes[i]:
            self.s.scopes[i][name] = val

    # -- arithmetic

    def numstr(self, n):
        return (str(n),) if isinstance(n, int) else (n,)

    def num(self, v):
        """The value of a string in arithmetic context: an int or a symbol."""
        if isinstance(v, (int, Sym)):
            return v
        v = norm(v)
        if len(v) == 1 and isinstance(v[0], Sym):
            s = v[0]
            if s.cls == 'canon':
                return s
            if s.kind in ('zero',) or untrusted(s):
                self.event('arith', show(v))
            return Sym('num', s, 'canon')
        if all(isinstance(p, str) or p.cls in ('digits', 'canon') for p in v) and any(not isinstance(p, str) for p in v) \
                and all(not isinstance(p, str) or p.isdigit() for p in v):
            return Sym('num', v, 'canon')
        return self.arith_eval(v)

    def arith_eval(self, v):
        toks = []
        for p in v:
            if isinstance(p, Sym):
                if p.kind == 'zero' or untrusted(p):
                    self.event('arith', show(v))
                toks.append(p)
                continue
            for m in re.finditer(r'\s+|\d+#[0-9a-zA-Z@_]*|0[xX][0-9a-fA-F]+|\d+|[A-Za-z_]\w*|\*\*|<<=?|>>=?|<=|>=|==|!=|&&|\|\||'
                                 r'\+\+|--|[-+*/%&|^]=|.', p):
                if not m.group().isspace():
                    toks.append(m.group())
        toks = self.glue(toks)
        if not toks:
            return 0
        self.tk, self.tp = toks, 0
        save = (self.tk, self.tp)
        r = self.expr(0)
        if self.tp < len(self.tk):
            raise Unknown('arithmetic %s' % show(v))
        del save
        return r

    @staticmethod
    def glue(toks):
        """8# followed by a symbol is one operand; so are digits next to a symbol."""
        out = []
        for t in toks:
            if out and isinstance(t, Sym) and isinstance(out[-1], str) and re.fullmatch(r'\d+#\w*', out[-1]):
                out[-1] = Sym('dec', (t,), 'canon') if out[-1] == '10#' and t.cls in ('digits', 'canon') else \
                    Sym('num', (out[-1], t), 'canon')
            elif isinstance(t, Sym):
                out.append(t if t.cls == 'canon' else Sym('num', t, 'canon'))
            else:
                out.append(t)
        return out

    PREC = [('||',), ('&&',), ('|',), ('^',), ('&',), ('==', '!='), ('<', '>', '<=', '>='), ('<<', '>>'), ('+', '-'),
            ('*', '/', '%')]

    def tok(self):
        return self.tk[self.tp] if self.tp < len(self.tk) else None

    def expr(self, level):
        if level == 0:
            t = self.tok()
            if isinstance(t, str) and re.fullmatch(r'[A-Za-z_]\w*', t) and self.tp + 1 < len(self.tk) and \
                    self.tk[self.tp + 1] in ('=', '+=', '-='):
                op = self.tk[self.tp + 1]
                self.tp += 2
                r = self.expr(0)
                if op != '=':
                    r = self.arith2(op[0], self.nested(self.lookup(t) or ()), r)
                self.assign(t, self.numstr(r))
                return r
        if level == len(self.PREC):
            return self.unary()
        a = self.expr(level + 1)
        while isinstance(self.tok(), str) and self.tok() in self.PREC[level]:
            op = self.tok()
            self.tp += 1
            if op in ('&&', '||'):
                ta = self.truth(a)
                b = self.expr(level + 1)
                if op == '&&':
                    a = int(ta and self.truth(b))
                else:
                    a = int(ta or self.truth(b))
                continue
            b = self.expr(level + 1)
            a = self.arith2(op, a, b)
        if level == 0 and self.tok() == '?':
            self.tp += 1
            x = self.expr(0)
            if self.tok() != ':':
                raise Unknown('arithmetic')
            self.tp += 1
            y = self.expr(0)
            return x if self.truth(a) else y
        return a

    def nested(self, v):
        save = (getattr(self, 'tk', None), getattr(self, 'tp', None))
        try:
            return self.num(v)
        finally:
            self.tk, self.tp = save

    def unary(self):
        t = self.tok()
        self.tp += 1
        if isinstance(t, Sym):
            return t
        if t is None:
            raise Unknown('arithmetic')
        if t == '(':
            r = self.expr(0)
            if self.tok() != ')':
                raise Unknown('arithmetic')
            self.tp += 1
            return r
        if t == '!':
            return int(not self.truth(self.unary()))
        if t in ('-', '+', '~'):
            x = self.unary()
            return x if t == '+' else self.arith2('-', 0, x) if t == '-' else self.arith2('^', x, -1)
        if t in ('++', '--'):
            n = self.tok()
            self.tp += 1
            r = self.arith2(t[0], self.nested(self.lookup(n) or ()), 1)
            self.assign(n, self.numstr(r))
            return r
        if re.fullmatch(r'\d+#\w+', t):
            b, _, d = t.partition('#')
            try:
                return int(d, int(b))
            except ValueError:
                raise Exit(1)
        if t[0].isdigit():
            try:
                return int(t, 16) if t[:2] in ('0x', '0X') else int(t, 8) if t[0] == '0' and len(t) > 1 else int(t)
            except ValueError:
                raise Exit(1)
        if re.fullmatch(r'[A-Za-z_]\w*', t):
            v = self.lookup(t)
            if v is None and 'nounset' in self.s.opts:
                raise Exit(1)
            if isinstance(v, list):
                raise Unknown('array in arithmetic')
            r = self.nested(v or ())
            if self.tok() in ('++', '--'):
                op = self.tok()
                self.tp += 1
                self.assign(t, self.numstr(self.arith2(op[0], r, 1)))
            return r
        raise Unknown('arithmetic %r' % t)

    def arith2(self, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return int(self.compare(op, a, b))
        if isinstance(a, int) and isinstance(b, int):
            if op in ('/', '%'):
                if b == 0:
                    raise Exit(1)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == '/' else a - q * b
            return {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b,
                    '<<': a << (b & 63), '>>': a >> (b & 63)}[op]
        return Sym('op', (op, a, b), 'canon')

    def truth(self, a):
        if isinstance(a, int):
            return a != 0
        return self.compare('!=', a, 0)

    def compare(self, op, a, b):
        if op in ('>', '<='):
            r = self.compare('<', b, a)
            return r if op == '>' else not r
        if op == '!=':
            return not self.compare('==', a, b)
        if op == '>=':
            return not self.compare('<', a, b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b if op == '==' else a < b
        if a == b:
            return op == '=='
        if op == '==':
            # a - b == 0, a ^ b == 0: comparisons of a and b
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and x.kind == 'op' and x.data[0] in ('-', '^') and y == 0:
                    return self.compare('==', x.data[1], x.data[2])
            if isinstance(a, Sym) and isinstance(b, int) or isinstance(b, Sym) and isinstance(a, int):
                s, i = (a, b) if isinstance(a, Sym) else (b, a)
                if i < 0 and s.kind in ('env', 'approver'):
                    return False
            if self.known.get(('lt', a, b)) or self.known.get(('lt', b, a)):
                return False
            return self.decide(('numeq',) + tuple(sorted((a, b), key=repr)), [False, True])
        if self.known.get(('numeq',) + tuple(sorted((a, b), key=repr))) or self.known.get(('lt', b, a)):
            return False
        return self.decide(('lt', a, b), [False, True])

    # -- strings

    def streq(self, a, b):
        a, b = norm(a), norm(b)
        if a == b:
            return True
        if text(a) is not None and text(b) is not None:
            return False
        if relang.relation(lang(a), lang(b)) == 'out':
            return False
        # a common literal prefix or suffix changes nothing
        a, b = list(a), list(b)
        while a and b and (a[0] == b[0]):
            a, b = a[1:], b[1:]
        while a and b and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            n = 0
            while n < min(len(a[0]), len(b[0])) and a[0][n] == b[0][n]:
                n += 1
            a[0], b[0] = a[0][n:], b[0][n:]
        if a and b and isinstance(a[-1], str) and isinstance(b[-1], str):
            n = 0
            while n < min(len(a[-1]), len(b[-1])) and a[-1][-1 - n] == b[-1][-1 - n]:
                n += 1
            if n:
                a[-1], b[-1] = a[-1][:-n], b[-1][:-n]
        a, b = norm(a), norm(b)
        if len(a) == 1 and len(b) == 1:
            x, y = a[0], b[0]
            if not isinstance(x, str) and not isinstance(y, str) and x.cls == 'canon' and y.cls == 'canon':
                return self.compare('==', x, y)
            for x, y in ((x, y), (y, x)):
                if isinstance(x, Sym) and x.cls == 'canon' and isinstance(y, str) and y.isdigit() and str(int(y)) == y:
                    return self.compare('==', x, int(y))
        return self.decide(('streq',) + tuple(sorted((a, b), key=repr)), [False, True])

    def match(self, v, pat, kind):
        """pat: [(text or value, quoted)]"""
        v = norm(v)
        items = []
        plain = True
        for p, q in pat:
            if isinstance(p, str):
                items += [(ch, q) for ch in p]
                plain = plain and (q or not any(ch in '*?[\\' for ch in p))
            else:
                if not q and p.cls in ('text', 'nondigit'):
                    return self.decide(('match', v, tuple(pat), kind), [False, True])
                items.append((relang.LANG[p.cls], True))
        if kind == 'glob' and plain:
            return self.streq(v, norm([p for p, _ in pat]))
        fixed = all(isinstance(p, str) for p, _ in pat)
        try:
            r = (relang.glob if kind == 'glob' else relang.ere)(items)
            rel = relang.relation(lang(v), r)
            if rel == 'out' or rel == 'in' and fixed:
                return rel == 'in'
        except relang.Unsupported:
            pass
        return self.decide(('match', v, tuple(pat), kind), [False, True])

    # -- words

    def lit(self, s):
        """Literal text; private characters stand for symbols of evaluated text."""
        if not any(0xE000 <= ord(ch) < 0xF000 for ch in s):
            return (s,)
        out = []
        for ch in s:
            out.append(self.held[ord(ch) - 0xE000] if 0xE000 <= ord(ch) < 0xF000 else ch)
        return norm(out)

    held = []

    def flat(self, v):
        """A value as parseable text."""
        out = ''
        if not self.held:
            self.held = []
        for p in v:
            if isinstance(p, str):
                out += p
            else:
                self.held = self.held + [p]
                out += chr(0xE000 + len(self.held) - 1)
        return out

    def single(self, word):
        """The word without splitting, as in an assignment."""
        out = ()
        for p in word:
            for f, join in self.piece(p):
                out += ((' ',) if join and out else ()) + f
        return norm(out)

    def fields(self, words):
        out = []
        for w in words:
            cur, have = (), False
            for p in w:
                quoted = p[2] if p[0] == 'lit' else p[-1]
                for f, join in self.piece(p):
                    if join:
                        if have or cur:
                            out.append(norm(cur))
                        cur, have = (), True
                    if p[0] != 'lit' and not quoted:
                        for k, x in enumerate(f):
                            if isinstance(x, str):
                                bits = re.split(r'[ \t\n]+', x)
                                for n, b in enumerate(bits):
                                    if n:
                                        if have or cur:
                                            out.append(norm(cur))
                                        cur, have = (), False
                                    if b:
                                        cur += (b,)
                                        have = True
                            else:
                                cur += (x,)
                                have = True
                    else:
                        cur += f
                        have = have or quoted or bool(f)
            if have or cur:
                out.append(norm(cur))
        return out

    def pattern(self, word):
        out = []
        for p in word:
            q = p[2] if p[0] == 'lit' else p[-1]
            for f, join in self.piece(p):
                out += [(x, q) for x in f]
        return out

    def piece(self, p):
        """[(value, starts a new field)]"""
        if p[0] == 'lit':
            return [(self.lit(p[1]), False)]
        if p[0] == 'ari':
            return [(self.numstr(self.arith(p[1])), False)]
        if p[0] == 'cmd':
            return [(self.substitute(p[1]), False)]
        if p[0] == 'par':
            return self.param(p)
        if p[0] == 'sub':
            return [((Sym('file', self.substitute(p[1]), 'text'),), False)]
        raise Unknown('word')

    def arith(self, word):
        v = self.single(word)
        save = (getattr(self, 'tk', None), getattr(self, 'tp', None))
        try:
            if len(v) == 1 and isinstance(v[0], Sym):
                return self.num(v)
            return self.arith_eval(v)
        finally:
            self.tk, self.tp = save

    def param(self, p):
        _, name, op, arg, quoted = p
        sub = None
        if isinstance(name, tuple):
            name, sub = name
        many = None
        if name in ('@', '*') or sub in ('@', '*'):
            if sub is None:
                many = self.positional()
            else:
                v = self.lookup(name)
                many = v if isinstance(v, list) else [] if v is None else [v]
            if op == ':':
                rng = text(self.single(arg)) or ''
                lo, _, n = rng.strip().partition(':')
                if not lo.strip().isdigit() or n and not n.strip().isdigit():
                    raise Unknown('slice of the arguments')
                lo = int(lo)
                if sub is None and lo == 0:
                    many = [(ZERO,)] + many
                else:
                    many = many[lo - 1 if sub is None else lo:]
                if n:
                    many = many[:int(n)]
                op = None
            if op == 'len':
                return [((str(len(many)),), False)]
            if op in (None,) or many and op in (':-', '-'):
                if name == '*' or sub == '*':
                    out = ()
                    for i, m in enumerate(many):
                        out += ((' ',) if i else ()) + m
                    return [(norm(out), False)]
                return [(m, i > 0) for i, m in enumerate(many)] or [((), False)] if many else []
            if not many and op in (':-', '-'):
                return [(self.single(arg), False)]
            if op in ('+', ':+'):
                return [(self.single(arg), False)] if many else []
            raise Unknown('expansion of the arguments')
        v = self.value(name)
        if isinstance(v, list):
            i = 0
            if sub is not None:
                k = self.num(self.single(shell.Parser(sub).word()) if sub else ())
                if not isinstance(k, int):
                    raise Unknown('array index')
                i = k
            v = v[i] if -len(v) <= i < len(v) else None
        elif sub not in (None, '0'):
            v = None
        if op in ('-', ':-', '=', ':=', '?', ':?', '+', ':+'):
            absent = v is None or op[0] == ':' and self.streq(v, ())
            if op[-1] == '+':
                return [((), False)] if absent else self.nest(arg, quoted)
            if not absent:
                return [(v, False)]
            if op[-1] == '?':
                raise Exit(1)
            if op[-1] == '=':
                val = self.single(arg)
                self.assign(name, val)
                return [(self.lookup(name), False)]
            return self.nest(arg, quoted)
        if v is None:
            if 'nounset' in self.s.opts:
                raise Exit(1)
            v = ()
        if op is None:
            return [(v, False)]
        if op == 'len':
            s = text(v)
            return [((str(len(s)),) if s is not None else (Sym('op', ('len', v), 'canon'),), False)]
        return [(self.edit(v, op, arg), False)]

    def nest(self, arg, quoted):
        out = []
        for p in arg:
            out += self.piece(p)
        return out or [((), False)]

    def edit(self, v, op, arg):
        v = norm(v)
        if op in ('#', '##', '%', '%%'):
            pat = self.pattern(arg)
            items, ok = self.items(pat)
            if ok:
                try:
                    g = relang.glob(items)
                    whole = relang.cat(g, relang.ANY) if op[0] == '#' else relang.cat(relang.ANY, g)
                    if relang.relation(lang(v), whole) == 'out':
                        return v
                    s = text(v)
                    if s is not None and all(isinstance(p, str) for p, _ in pat):
                        cuts = range(len(s) + 1)
                        if op in ('##', '%'):
                            cuts = reversed(cuts)
                        for k in cuts:
                            piece = s[:k] if op[0] == '#' else s[k:]
                            if relang.relation(relang.lit(piece), g) == 'in':
                                return norm((s[k:],) if op[0] == '#' else (s[:k],))
                        return v
                except relang.Unsupported:
                    pass
            # a literal end
            lits = norm([p for p, _ in pat]) if all(q or isinstance(p, str) and not set(p) & set('*?[\\') for p, q in pat) \
                else None
            if lits is not None and len(lits) == 1 and isinstance(lits[0], str) and v:
                e = v[0] if op[0] == '#' else v[-1]
                if isinstance(e, str) and op[0] == '#' and e.startswith(lits[0]):
                    return norm((e[len(lits[0]):],) + v[1:])
                if isinstance(e, str) and op[0] == '%' and e.endswith(lits[0]):
                    return norm(v[:-1] + (e[:-len(lits[0])],))
        if op in ('/', '//', '/#', '/%'):
            k = next((i for i, p in enumerate(arg) if p[0] == 'lit' and not p[2] and '/' in p[1]), None)
            if k is None:
                patw, rep = arg, []
            else:
                a, _, b = arg[k][1].partition('/')
                patw = arg[:k] + ([('lit', a, False)] if a else [])
                rep = ([('lit', b, False)] if b else []) + arg[k + 1:]
            pat = self.pattern(patw)
            items, ok = self.items(pat)
            if ok:
                try:
                    g = relang.glob(items)
                    if relang.relation(lang(v), relang.cat(relang.ANY, relang.cat(g, relang.ANY))) == 'out':
                        return v
                    if op == '//' and not rep and relang.relation(lang(v), relang.star(g)) == 'in':
                        return ()
                except relang.Unsupported:
                    pass
        return (Sym('op', (op, v, repr(arg)), 'text'),)

    def items(self, pat):
        items, ok = [], True
        for p, q in pat:
            if isinstance(p, str):
                items += [(ch, q) for ch in p]
            elif q or p.cls in ('digits', 'canon'):
                items.append((relang.LANG[p.cls], True))
                ok = False
            else:
                ok = False
        return items, ok

    def positional(self):
        return self.s.args if self.depth else self.shifted()

    def shifted(self):
        if self.s.args is None or self.depth == 0 and not hasattr(self, 'topargs'):
            self.topargs = self.top_args()
            self.s.args = self.topargs
        return self.s.args

    def value(self, name):
        if name == '0':
            return (ZERO,)
        if name.isdigit():
            if not self.depth and not hasattr(self, 'topargs'):
                # one argument only: the others need not be known
                n = self.nargs()
                return self.arg(int(name)) if int(name) <= n else None
            a = self.positional()
            return a[int(name) - 1] if int(name) <= len(a) else None
        if name == '#':
            if not self.depth and not hasattr(self, 'topargs'):
                return (str(self.nargs()),)
            return (str(len(self.positional())),)
        if name == '?':
            st = self.s.status
            return (str(st),) if isinstance(st, int) else (Sym('status', st, 'canon'),)
        if name in ('$', '!'):
            return (Sym('shell', name, 'canon'),)
        if name == '-':
            return (Sym('shell', name, 'text'),)
        return self.lookup(name)

    def substitute(self, node):
        save, d, opts = self.s, self.cond, None
        self.s = self.s.copy()
        self.s.opts.discard('errexit')
        self.out.append([])
        try:
            self.run(node)
            st = self.s.status
        except Exit as e:
            st = e.status
        finally:
            buf = self.out.pop()
            self.s = save
        self.cond = d
        self.sub = st
        v = norm(buf)
        while v and isinstance(v[-1], str) and v[-1].endswith('\n'):
            v = norm(v[:-1] + (v[-1].rstrip('\n'),))
        if len(v) == 1 and isinstance(v[0], Sym) and v[0].kind == 'out' and self.is_id(v[0].data[0]):
            return (APPROVER,)
        return v

    @staticmethod
    def is_id(words):
        w = [text(x) for x in words]
        return bool(w) and w[0] is not None and w[0].rsplit('/', 1)[-1] == 'id' and len(w) > 1 and \
            all(x in ('-u', '-r', '-ur', '-ru', '--user', '--real') for x in w[1:]) and any('u' in x for x in w[1:])

    # -- statements

    def event(self, kind, what):
        if not self.cond_probe:
            self.events.append((kind, what, dict(self.known)))

    cond_probe = False

    def ok(self, st):
        if isinstance(st, int):
            return st == 0
        if st[0] == 'all':
            return all([self.ok(x) for x in st[1]])
        return self.decide(('ok', st), [True, False])

    def emit(self, v):
        if self.out:
            self.out[-1] += list(v)

    def fresh(self):
        self.n += 1
        return ('status', self.n)

    def leaf(self, st):
        self.s.status = st
        if 'errexit' in self.s.opts and not self.cond and not self.ok(st):
            raise Exit(st if isinstance(st, int) else 1)

    def test_cond(self, node):
        self.cond += 1
        try:
            self.run(node)
        finally:
            self.cond -= 1
        return self.ok(self.s.status)

    def run(self, n):
        self.steps += 1
        if self.steps > 20000 or time.time() > self.deadline:
            raise Unknown('too long')
        k = n[0]
        if k == 'seq':
            for x in n[1]:
                self.run(x)
        elif k == 'simple':
            self.simple(n)
        elif k == 'andor':
            rest = n[2]
            last = self.test_cond(n[1])
            for i, (op, x) in enumerate(rest):
                if (op == '&&') != last:
                    continue
                if i == len(rest) - 1:
                    self.run(x)
                else:
                    last = self.test_cond(x)
        elif k == 'pipe':
            self.pipe(n)
        elif k == 'bg':
            self.subshell(n[1])
            self.s.status = 0
        elif k == 'redir':
            self.redirected(n[1], n[2])
        elif k == 'if':
            for cond, body in n[1]:
                if self.test_cond(cond):
                    self.run(body)
                    return
            self.s.status = 0
            if n[2] is not None:
                self.run(n[2])
        elif k == 'while':
            rounds = 0
            last = 0
            while True:
                try:
                    if self.test_cond(n[1]) == n[3]:
                        break
                    rounds += 1
                    if rounds > 6:
                        self.unsure.append('loop')
                        raise Cut()
                    self.run(n[2])
                except Loop as l:
                    if l.n > 1:
                        raise Loop(l.kind, l.n - 1)
                    if l.kind == 'break':
                        break
                last = self.s.status
            self.s.status = last if rounds else 0
        elif k == 'for':
            vs = self.positional_list() if n[2] is None else self.fields(n[2])
            self.s.status = 0
            for v in vs:
                self.assign(n[1], v)
                try:
                    self.run(n[3])
                except Loop as l:
                    if l.n > 1:
                        raise Loop(l.kind, l.n - 1)
                    if l.kind == 'break':
                        break
        elif k == 'case':
            v = self.single(n[1])
            self.s.status = 0
            fall = False
            for pats, body, end in n[2]:
                if fall or any(self.match(v, self.pattern(p), 'glob') for p in pats):
                    self.run(body)
                    fall = end == ';&'
                    if end == ';;':
                        return
        elif k == 'func':
            self.s.funcs[n[1]] = n[2]
            self.s.status = 0
        elif k == 'group':
            self.run(n[1])
        elif k == 'subshell':
            self.leaf(self.subshell(n[1]))
        elif k == 'test':
            self.leaf(0 if self.test(n[1]) else 1)
        elif k == 'arith':
            self.leaf(0 if self.truth(self.arith(n[1])) else 1)
        else:
            raise Unknown('statement %s' % k)

    def positional_list(self):
        return self.positional()

    def subshell(self, node):
        save, traps = self.s, self.traps
        self.s = self.s.copy()
        self.traps = {}
        try:
            self.run(node)
            st = self.s.status
        except Exit as e:
            st = e.status
        finally:
            self.s, self.traps = save, traps
        return st

    def pipe(self, n):
        sts = []
        value = None
        for i, x in enumerate(n[2]):
            last = i == len(n[2]) - 1
            if n[1]:
                self.cond += 1
            if value is not None:
                self.stdin.append(value)
            if not last:
                self.out.append([])
            try:
                if len(n[2]) == 1:
                    self.run(x)
                    sts.append(self.s.status)
                else:
                    sts.append(self.subshell(x))
            finally:
                if not last:
                    buf = self.out.pop()
                if value is not None:
                    self.stdin.pop()
                if n[1]:
                    self.cond -= 1
            if not last:
                value = norm(buf)
        st = sts[-1]
        if len(sts) > 1 and 'pipefail' in self.s.opts:
            st = sts[0] if all(x == 0 for x in sts[1:]) else ('all', tuple(sts))
            if all(isinstance(x, int) for x in sts):
                st = next((x for x in reversed(sts) if x), 0)
        if n[1]:
            self.s.status = 1 if self.ok(st) else 0
        else:
            self.leaf(st)

    def redirected(self, node, redirs):
        away = False
        given = None
        for fd, op, w in redirs:
            if op in ('>', '>>', '>|', '&>', '&>>', '>&') and fd in ('', '1'):
                away = True
            if op == '<<<':
                given = self.single(w)
            elif op in ('<', '<>', '<<') and fd in ('', '0'):
                given = (Sym('file', self.n, 'text'),)
                if op == '<' and len(w) == 1 and w[0][0] == 'sub':
                    given = self.substitute(w[0][1])
                    continue
            if op not in ('<<', '<<<'):
                v = self.single(w)
                self.device(v)
        if away:
            self.out.append([])
        if given is not None:
            self.stdin.append(given)
        try:
            if callable(node):
                return node()
            self.run(node)
        finally:
            if away:
                self.out.pop()
            if given is not None:
                self.stdin.pop()

    def device(self, v):
        pass

    def simple(self, n):
        _, assigns, words, redirs = n
        if redirs:
            return self.redirected(lambda: self.simple(('simple', assigns, words, [])), redirs)
        if not words:
            self.sub = 0
            for name, op, val in assigns:
                v = [x for x in self.fields(val[1])] if isinstance(val, tuple) else self.single(val)
                self.assign(name, v, op)
            self.leaf(self.sub)
            return
        ws = []
        decl = []
        for w in words:
            if len(w) == 1 and w[0][0] == 'asg':
                decl.append((len(ws) + len(decl), w[0][1]))
                ws.append(('asg', w[0][1]))
            else:
                ws += self.fields([w])
        if not ws:
            self.s.status = 0
            return
        if assigns:
            temp = [(name, self.single(val) if not isinstance(val, tuple) else None) for name, op, val in assigns]
            self.s.scopes.append({})
            self.s.attrs.append({})
            for name, v in temp:
                self.s.scopes[-1][name] = v
            d = len(self.s.scopes)
            try:
                self.call(ws)
            finally:
                if len(self.s.scopes) == d:
                    self.s.scopes.pop()
                    self.s.attrs.pop()
            return
        self.call(ws)

    def call(self, ws):
        head = ws[0]
        name = text(head)
        if name is None:
            if any(p == ZERO for p in head):
                return self.leaf(self.external(ws))
            if untrusted(head):
                self.event('eval', show(head))
                return self.leaf(self.fresh())
            raise Unknown('command %s' % show(head))
        if name in self.s.funcs:
            return self.leaf(self.function(name, ws[1:]))
        f = getattr(self, 'b_' + {':': 'true', '[': 'bracket', '.': 'source'}.get(name, name.replace('-', '_')), None)
        if f is not None:
            return self.leaf(f(ws[1:]))
        self.leaf(self.external(ws))

    def function(self, name, args):
        if self.depth > 40:
            raise Unknown('recursion')
        if not self.depth and not hasattr(self, 'topargs'):
            self.topargs = None
            del self.topargs
        save = self.s.args, getattr(self, 'topargs', None)
        self.s.args = list(args)
        self.s.scopes.append({})
        self.s.attrs.append({})
        self.depth += 1
        d = len(self.s.scopes)
        state = self.s
        try:
            self.run(self.s.funcs[name])
            st = self.s.status
        except Return as r:
            st = r.status
        finally:
            self.depth -= 1
            if self.s is state:
                del self.s.scopes[d - 1:]
                del self.s.attrs[d - 1:]
                self.s.args = save[0]
        return st

    # -- tests

    def test(self, e):
        k = e[0]
        if k == 'and':
            return self.test(e[1]) and self.test(e[2])
        if k == 'or':
            return self.test(e[1]) or self.test(e[2])
        if k == 'not':
            return not self.test(e[1])
        if k == 'un':
            if e[1] == '-v':
                nm = text(self.single(e[2]))
                return self.value(nm) is not None
            return self.unary_test(e[1], self.single(e[2]))
        op = e[1]
        a = self.single(e[2])
        if op in ('==', '=', '!='):
            r = self.match(a, self.pattern(e[3]), 'glob')
            return r != (op == '!=')
        if op == '=~':
            return self.match(a, self.pattern(e[3]), 'ere')
        b = self.single(e[3])
        if op in ('<', '>', '-ef', '-nt', '-ot'):
            return self.decide(('test', op, a, b), [False, True])
        return self.compare({'-eq': '==', '-ne': '!=', '-lt': '<', '-le': '<=', '-gt': '>', '-ge': '>='}[op],
                            self.arith_val(a), self.arith_val(b))

    def arith_val(self, v):
        save = (getattr(self, 'tk', None), getattr(self, 'tp', None))
        try:
            return self.num(v)
        finally:
            self.tk, self.tp = save

    def unary_test(self, op, v):
        if op == '-z':
            return self.streq(v, ())
        if op == '-n':
            return not self.streq(v, ())
        if op == '-o':
            return text(v) in self.s.opts
        return self.decide(('test', op, v), [False, True])

    def b_bracket(self, a):
        if not a or text(a[-1]) != ']':
            return 2
        return self.b_test(a[:-1])

    def b_test(self, a):
        """The test builtin, on expanded words."""
        self.ta, self.tpos = a, 0
        st = self.old_or(a)
        return st

    def old_or(self, a):
        for op in ('-o', '-a'):
            for i in range(len(a) - 1, 0, -1):
                if text(a[i]) == op and 0 < i < len(a) - 1 and len(a) > 3:
                    l, r = self.old_or(a[:i]), self.old_or(a[i + 1:])
                    if op == '-o':
                        return 0 if l == 0 or r == 0 else 1
                    return 0 if l == 0 and r == 0 else 1
        if not a:
            return 1
        if text(a[0]) == '!' and len(a) > 1:
            r = self.old_or(a[1:])
            return {0: 1, 1: 0}.get(r, r)
        if text(a[0]) == '(' and text(a[-1]) == ')':
            return self.old_or(a[1:-1])
        if len(a) == 1:
            return 1 if self.streq(a[0], ()) else 0
        if len(a) == 2:
            op = text(a[0])
            if op is None or not re.fullmatch(r'-[a-zA-Z]', op):
                return 2
            if op == '-v':
                return 0 if self.value(text(a[1])) is not None else 1
            return 0 if self.unary_test(op, a[1]) else 1
        if len(a) == 3:
            op = text(a[1])
            if op in ('=', '=='):
                return 0 if self.streq(a[0], a[2]) else 1
            if op == '!=':
                return 1 if self.streq(a[0], a[2]) else 0
            m = {'-eq': '==', '-ne': '!=', '-lt': '<', '-le': '<=', '-gt': '>', '-ge': '>='}.get(op)
            if m:
                x, y = self.decimal(a[0]), self.decimal(a[2])
                if x is None or y is None:
                    return 2
                return 0 if self.compare(m, x, y) else 1
            if op in ('<', '>', '-ef', '-nt', '-ot'):
                return 0 if self.decide(('test', op, a[0], a[2]), [False, True]) else 1
        return 2

    def decimal(self, v):
        """test(1) reads plain decimal numbers, and fails on anything else."""
        v = norm(v)
        s = text(v)
        if s is not None:
            return int(s) if re.fullmatch(r'\s*[-+]?\d+\s*', s) else None
        if len(v) == 1 and v[0].cls == 'canon':
            return v[0]
        if relang.relation(lang(v), relang.LANG['digits']) == 'in':
            if not self.decide(('fits', v), [True, False]):
                return None
            return Sym('dec', v, 'canon')
        if not self.decide(('decimal', v), [True, False]):
            return None
        return Sym('dec', v, 'canon')

    # -- builtins

    def b_true(self, a):
        return 0

    def b_false(self, a):
        return 1

    def b_exit(self, a):
        raise Exit(self.code(a))

    def b_return(self, a):
        raise Return(self.code(a))

    def code(self, a):
        if not a:
            return self.s.status
        n = self.num(a[0])
        if isinstance(n, int):
            return n & 255
        if n.kind == 'status':
            return n.data
        return self.fresh()

    def b_break(self, a):
        raise Loop('break', int(text(a[0])) if a else 1)

    def b_continue(self, a):
        raise Loop('continue', int(text(a[0])) if a else 1)

    def b_set(self, a):
        i = 0
        while i < len(a):
            w = text(a[i])
            if w is None:
                break
            if w == '--':
                i += 1
                self.s.args = list(a[i:])
                if not self.depth:
                    self.topargs = self.s.args
                return 0
            if w in ('-o', '+o'):
                if i + 1 < len(a):
                    nm = text(a[i + 1])
                    (self.s.opts.add if w[0] == '-' else self.s.opts.discard)(nm)
                i += 2
                continue
            if len(w) > 1 and w[0] in '-+':
                j = i
                for ch in w[1:]:
                    if ch == 'o':
                        i += 1
                        nm = text(a[i]) if i < len(a) else None
                    else:
                        nm = OPTS.get(ch, ch)
                    (self.s.opts.add if w[0] == '-' else self.s.opts.discard)(nm)
                del j
                i += 1
                continue
            break
        if i < len(a):
            self.s.args = list(a[i:])
            if not self.depth:
                self.topargs = self.s.args
        return 0

    def b_shift(self, a):
        n = self.num(a[0]) if a else 1
        cur = self.positional()
        if not isinstance(n, int):
            raise Unknown('shift')
        if n > len(cur):
            return 1
        self.s.args = list(cur[n:])
        if not self.depth:
            self.topargs = self.s.args
        return 0

    def b_shopt(self, a):
        if any(text(x) == 'inherit_errexit' for x in a):
            self.s.opts.add('inherit_errexit')
        return 0

    def declare(self, a, local, attrs=frozenset()):
        rest = []
        plus = frozenset()
        for x in a:
            if isinstance(x, tuple) and x and x[0] == 'asg' and len(x) == 2:
                rest.append(x)
                continue
            s = text(x)
            if s is not None and not rest and len(s) > 1 and s[0] == '-':
                if s == '--':
                    continue
                if set(s[1:]) & set('nAfFp'):
                    if 'g' not in s and set(s[1:]) & set('nA'):
                        raise Unknown('declare %s' % s)
                    return 0
                if 'g' in s:
                    local = False
                attrs |= frozenset(s[1:]) & frozenset('iraxlu')
            elif s is not None and not rest and len(s) > 1 and s[0] == '+':
                plus |= frozenset(s[1:])
            else:
                rest.append(x)
        if attrs & frozenset('lu'):
            raise Unknown('declare')
        for x in rest:
            if isinstance(x, tuple) and x and x[0] == 'asg' and len(x) == 2:
                name, op, val = x[1]
                v = self.fields(val[1]) if isinstance(val, tuple) else self.single(val)
            else:
                s = text(x)
                if s is None:
                    raise Unknown('declare %s' % show(x))
                name, eq, v = s.partition('=')
                v = (v,) if eq else None
                op = '='
                if v is not None:
                    v = norm(v)
            if v is None:
                here = self.s.scopes[-1] if local else None
                if local and name not in here:
                    self.s.scopes[-1][name] = None
                    self.s.attrs[-1][name] = attrs
                elif local:
                    self.s.attrs[-1][name] = (self.s.attrs[-1].get(name, frozenset()) | attrs) - plus
                else:
                    for i in range(len(self.s.scopes) - 1, -1, -1):
                        if name in self.s.scopes[i]:
                            self.s.attrs[i][name] = self.s.attrs[i].get(name, frozenset()) | attrs
                            break
                    else:
                        if 'r' in attrs or 'i' in attrs:
                            self.s.scopes[0][name] = self.env(name)
                            self.s.attrs[0][name] = attrs
                continue
            self.assign(name, v, op, local, attrs)
        return 0

    def b_declare(self, a):
        return self.declare(a, self.depth > 0)

    b_typeset = b_declare

    def b_local(self, a):
        return self.declare(a, True)

    def b_readonly(self, a):
        return self.declare(a, False, frozenset('r'))

    def b_export(self, a):
        return self.declare(a, False, frozenset('x'))

    def b_unset(self, a):
        for x in a:
            s = text(x)
            if s in ('-v', '-f'):
                continue
            if s is None:
                raise Unknown('unset')
            if 'r' in self.attributes(s):
                return 1
            if s in self.s.funcs and self.lookup(s) is None:
                del self.s.funcs[s]
                continue
            for i in range(len(self.s.scopes) - 1, -1, -1):
                if s in self.s.scopes[i]:
                    self.s.scopes[i][s] = None
                    self.s.attrs[i][s] = frozenset()
                    break
            else:
                self.s.scopes[0][s] = None
                self.s.attrs[0][s] = frozenset()
        return 0

    def b_echo(self, a):
        nl = True
        while a and text(a[0]) in ('-n', '-e', '-E', '-ne', '-en'):
            if 'n' in text(a[0]):
                nl = False
            a = a[1:]
        out = ()
        for i, x in enumerate(a):
            out += ((' ',) if i else ()) + x
        self.emit(norm(out + (('\n',) if nl else ())))
        return 0

    def b_printf(self, a):
        var = None
        if a and text(a[0]) == '-v':
            var, a = text(a[1]), a[2:]
        if a and text(a[0]) == '--':
            a = a[1:]
        f = text(a[0]) if a else ''
        if f is None:
            out = (Sym('op', ('printf', tuple(a)), 'text'),)
        else:
            out = ()
            args = list(a[1:])
            f = f.replace('\\n', '\n').replace('\\t', '\t')
            while True:
                used = False
                for m in re.finditer(r'%%|%[-+ #0]*\d*(?:\.\d+)?([a-zA-Z])|[^%]+|%', f):
                    s = m.group()
                    if s == '%%':
                        out += ('%',)
                    elif s[0] == '%' and m.group(1):
                        used = True
                        v = args.pop(0) if args else None
                        if m.group(1) == 's':
                            if len(s) > 2 and v:
                                v = (Sym('op', (s, v), 'text'),)
                            out += v or ()
                        elif m.group(1) in 'diu':
                            n = self.decimal(v) if v else 0
                            # a leading 0 is octal here
                            if isinstance(n, Sym) and n.kind == 'dec':
                                n = Sym('num', n.data[0] if len(n.data) == 1 else n.data, 'canon')
                            out += self.numstr(n if n is not None else 0) if len(s) == 2 else \
                                (Sym('op', (s, v), 'text'),)
                        else:
                            out += (Sym('op', (s, v), 'text'),)
                    else:
                        out += (s,)
                if not args or not used:
                    break
            out = norm(out)
        if var:
            self.assign(var, out)
        else:
            self.emit(out)
        return 0

    def b_read(self, a):
        names = [x for x in (text(y) for y in a) if x and not x.startswith('-')]
        for nm in names:
            if re.fullmatch(r'[A-Za-z_]\w*', nm):
                self.n += 1
                self.assign(nm, (Sym('in', (self.n, self.stdin[-1]), 'text'),))
        return self.fresh()

    def b_let(self, a):
        r = 0
        for x in a:
            r = self.arith_val(x)
        return 0 if self.truth(r) else 1

    def b_trap(self, a):
        a = [x for x in a if text(x) != '--']
        if len(a) >= 2 and text(a[0]) not in ('-p', '-l'):
            for s in a[1:]:
                n = text(s)
                if n in ('EXIT', '0'):
                    self.traps['EXIT'] = None if text(a[0]) in ('-', '') else a[0]
                elif n in ('ERR', 'DEBUG', 'RETURN'):
                    raise Unknown('trap %s' % n)
        return 0

    def b_eval(self, a):
        v = ()
        for i, x in enumerate(a):
            v += ((' ',) if i else ()) + x
        if untrusted(v):
            self.event('eval', show(v))
        try:
            node = shell.parse(self.flat(norm(v)))
        except shell.Unparsed:
            raise Unknown('eval')
        self.run(node)
        return self.s.status

    def b_source(self, a):
        raise Unknown('source')

    def b_getopts(self, a):
        raise Unknown('getopts')

    def b_mapfile(self, a):
        raise Unknown('mapfile')

    b_readarray = b_mapfile

    def b_cd(self, a):
        return self.fresh()

    def b_umask(self, a):
        return 0

    def b_wait(self, a):
        return self.fresh()

    def b_kill(self, a):
        return self.fresh()

    def b_hash(self, a):
        return self.fresh()

    def b_type(self, a):
        return self.fresh()

    def b_exec(self, a):
        while a and text(a[0]) in ('-a', '-c', '-l'):
            a = a[2:] if text(a[0]) == '-a' else a[1:]
        if not a:
            return 0
        st = self.external(a)
        self.traps = {}
        raise Exit(st)

    def b_command(self, a):
        if a and text(a[0]) in ('-v', '-V'):
            self.emit((Sym('out', ((('command',),) + tuple(a), ()), 'text'),))
            return self.decide(('command', tuple(a)), [0, 1])
        if a and text(a[0]) in ('-p', '--'):
            a = a[1:]
        if not a:
            return 0
        f = getattr(self, 'b_' + {':': 'true', '[': 'bracket', '.': 'source'}.get(text(a[0]) or '', text(a[0]) or '-'), None)
        return f(a[1:]) if f is not None else self.external(a)

    b_builtin = b_command

    # -- other programs

    def external(self, ws):
        ws = [w for w in ws]
        full = tuple(ws)
        name = (text(ws[0]) or '').rsplit('/', 1)[-1]
        while name in ('env', 'nohup', 'setsid', 'nice', 'stdbuf', 'ionice', 'timeout', 'exec', 'command'):
            ws = ws[1:]
            dur = name == 'timeout'
            while ws and text(ws[0]) is not None and (text(ws[0]).startswith('-') or '=' in text(ws[0])):
                ws = ws[1:]
            if dur:
                ws = ws[1:]
            if not ws:
                return 0
            name = (text(ws[0]) or '').rsplit('/', 1)[-1]
        self.program(name, ws)
        self.emit((Sym('out', (full, self.stdin[-1]), 'text'),))
        if self.is_id(full) and not self.stdin[-1]:
            return 0
        return self.fresh()

    def program(self, name, ws):
        if name in CONNECT:
            self.event('connect', self.address(name, ws[1:]))
        elif name in RERUN:
            rest = self.sudo_command(ws[1:])
            if rest is None:
                self.event('unknown', 'sudo %s' % ' '.join(show(w) for w in ws[1:]))
            elif rest:
                if any(ZERO in self.deep(p) for p in rest[0]):
                    self.event('rerun', tuple(rest[1:]))
                else:
                    self.program((text(rest[0]) or '').rsplit('/', 1)[-1], rest)
        elif ws[0] and any(ZERO in self.deep(p) for p in ws[0]):
            self.event('rerun', tuple(ws[1:]))
        elif name in ('bash', 'sh', 'dash'):
            rest = ws[1:]
            while rest and (text(rest[0]) or '').startswith('-') and text(rest[0]) != '-c':
                rest = rest[1:]
            if rest and any(ZERO in self.deep(p) for p in rest[0]):
                self.event('rerun', tuple(rest[1:]))
            elif rest:
                self.event('unknown', '%s %s' % (name, ' '.join(show(w) for w in rest)))
        elif name in ('python', 'python3', 'perl', 'ruby', 'xargs', 'script', 'su', 'runuser', 'ssh', 'expect'):
            self.event('unknown', ' '.join(show(w) for w in ws))

    def deep(self, p):
        if isinstance(p, str):
            return ()
        out = [p]
        todo = [p.data]
        while todo:
            x = todo.pop()
            if isinstance(x, Sym):
                out.append(x)
                todo.append(x.data)
            elif isinstance(x, (tuple, list)):
                todo += list(x)
        return out

    def sudo_command(self, a):
        """The command words of a sudo command line."""
        takes = set('ugpCchrtTUDRa')
        a = list(a)
        while a:
            w = a[0]
            s = text(w)
            lead = w[0] if w and isinstance(w[0], str) else ''
            if s == '--':
                a = a[1:]
                break
            if lead.startswith('--'):
                if '=' in lead:
                    a = a[1:]
                elif s in ('--user', '--group', '--prompt', '--chdir', '--host', '--role', '--type', '--chroot',
                           '--close-from', '--command-timeout', '--other-user'):
                    a = a[2:]
                else:
                    a = a[1:]
            elif lead.startswith('-') and len(lead) > 1:
                k = next((i for i, ch in enumerate(lead[1:]) if ch in takes), None)
                if k is None or s is None or k < len(lead) - 2:
                    a = a[1:]
                else:
                    a = a[2:]
            elif '=' in lead:
                a = a[1:]
            else:
                break
        return a

    def address(self, name, a):
        if name == 'socat':
            found = []
            for w in a:
                lead = w[0] if w and isinstance(w[0], str) else ''
                m = re.match(r'(?i)(unix-connect|unix-client|unix|local|gopen|unix-sendto|unix-recv)\s*:', lead)
                if m:
                    v = norm((lead[m.end():],) + w[1:])
                    out = []
                    for p in v:
                        if isinstance(p, str) and re.search(r',|!!', p):
                            out.append(re.split(r',|!!', p)[0])
                            break
                        out.append(p)
                    found.append(norm(out))
            return found[0] if len(found) == 1 else None
        paths = [w for w in a if not (w and isinstance(w[0], str) and w[0].startswith('-'))]
        return paths[-1] if paths else None

    # -- the whole script

    def go(self):
        st = 0
        try:
            self.run(self.ast)
            st = self.s.status
        except Exit as e:
            st = e.status
        except Loop:
            raise Unknown('loop control')
        while self.traps.get('EXIT') is not None:
            t = self.traps.pop('EXIT')
            self.s.opts.discard('errexit')
            try:
                node = shell.parse(self.flat(t))
            except shell.Unparsed:
                raise Unknown('trap')
            if untrusted(t):
                self.event('eval', show(t))
            self.depth, self.cond, self.out = 0, 0, []
            try:
                self.run(node)
            except Exit as e:
                st = e.status
        return st


def paths(ast, limit=60000, seconds=120):
    """Every path: (run, status), or (run, None) for one that was cut."""
    deadline = time.time() + seconds
    todo = [[]]
    n = 0
    while todo:
        script = todo.pop()
        r = Run(ast, script, deadline)
        try:
            st = r.go()
            r.final = r.ok(st) if st is not None else None
        except Cut:
            st, r.final = None, None
        n += 1
        if n > limit:
            raise Unknown('too many paths')
        for i in range(len(script), len(r.taken)):
            key, opts, k = r.taken[i]
            for j in range(1, len(opts)):
                todo.append([t[2] for t in r.taken[:i]] + [j])
        yield r, st
