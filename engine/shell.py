"""A parser for the part of bash that scripts like sudo_approve use.

Nodes are tuples:
  ('seq', [node]) ('andor', first, [(op, node)]) ('pipe', negated, [node]) ('bg', node)
  ('simple', [(name, op, value)], [word], [redirection]) ('if', [(cond, body)], else)
  ('while', cond, body, until) ('for', name, [word] or None, body) ('case', word, [([pattern], body, end)])
  ('func', name, body) ('group', body, redirs) ('subshell', body, redirs) ('test', expr) ('arith', word)
A word is a list of parts:
  ('lit', text, quoted) ('par', name, op, argument, quoted) ('cmd', node, quoted) ('ari', word, quoted)
"""


class Unparsed(Exception):
    pass


RESERVED = {'then', 'else', 'elif', 'fi', 'do', 'done', 'esac', '}', 'in'}
META = set(' \t\n;&|<>()')


class Parser:
    def __init__(self, text):
        self.s = text
        self.i = 0
        self.heredocs = []

    def fail(self, why='syntax'):
        line = self.s.count('\n', 0, self.i) + 1
        raise Unparsed('%s, line %d' % (why, line))

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def blank(self):
        while True:
            if self.peek(2) == '\\\n':
                self.i += 2
            elif self.peek() in (' ', '\t') and self.peek():
                self.i += 1
            elif self.peek() == '#':
                while self.peek() and self.peek() != '\n':
                    self.i += 1
            else:
                return

    def newlines(self):
        while True:
            self.blank()
            if self.peek() == '\n':
                self.newline()
            else:
                return

    def newline(self):
        self.i += 1
        for strip, end, slot in self.heredocs:
            lines = []
            while True:
                if self.i >= len(self.s):
                    break
                j = self.s.find('\n', self.i)
                j = len(self.s) if j < 0 else j
                l = self.s[self.i:j]
                self.i = j + 1
                if strip:
                    l = l.lstrip('\t')
                if l == end:
                    break
                lines.append(l)
            slot.append('\n'.join(lines))
        self.heredocs = []

    def ahead(self):
        """The reserved word or name at this place, without taking it."""
        j = self.i
        while j < len(self.s) and self.s[j] not in META and self.s[j] not in '"\'$`\\':
            j += 1
        if j < len(self.s) and self.s[j] in '"\'$`\\':
            return None
        return self.s[self.i:j]

    def take(self, w):
        self.newlines()
        if self.ahead() != w:
            self.fail('expected %s' % w)
        self.i += len(w)

    # -- lists

    def script(self):
        n = self.seq(())
        if self.i < len(self.s):
            self.fail('unexpected %r' % self.peek(5))
        return n

    def seq(self, stop):
        out = []
        while True:
            self.newlines()
            if self.i >= len(self.s) or self.peek() == ')' or self.peek(2) == ';;' or self.peek(2) == ';&':
                break
            if self.ahead() in RESERVED and self.ahead() != 'in':
                break
            n = self.andor()
            self.blank()
            if self.peek(2) in (';;', ';&'):
                out.append(n)
                break
            if self.peek() == ';':
                self.i += 1
            elif self.peek() == '&' and self.peek(2) != '&&':
                self.i += 1
                n = ('bg', n)
            elif self.peek() == '\n' or self.i >= len(self.s) or self.peek() == ')':
                pass
            else:
                self.fail('unexpected %r' % self.peek(5))
            out.append(n)
        return ('seq', out)

    def andor(self):
        first = self.pipeline()
        rest = []
        while True:
            self.blank()
            op = self.peek(2)
            if op in ('&&', '||'):
                self.i += 2
                self.newlines()
                rest.append((op, self.pipeline()))
            else:
                return ('andor', first, rest) if rest else first

    def pipeline(self):
        self.blank()
        neg = False
        while True:
            if self.ahead() == '!':
                neg = not neg
                self.i += 1
                self.blank()
            elif self.ahead() == 'time':
                self.i += 4
                self.blank()
            else:
                break
        cmds = [self.command()]
        while True:
            self.blank()
            if self.peek() == '|' and self.peek(2) != '||':
                self.i += 2 if self.peek(2) == '|&' else 1
                self.newlines()
                cmds.append(self.command())
            else:
                break
        if neg or len(cmds) > 1:
            return ('pipe', neg, cmds)
        return cmds[0]

    # -- commands

    def command(self):
        self.blank()
        w = self.ahead()
        if self.peek(2) == '((':
            save = self.i
            try:
                self.i += 2
                e = self.arith_text('))')
                return self.after(('arith', e))
            except Unparsed:
                self.i = save
        if self.peek() == '(':
            self.i += 1
            n = self.seq(())
            self.newlines()
            if self.peek() != ')':
                self.fail('expected )')
            self.i += 1
            return self.after(('subshell', n))
        if w == '{':
            self.i += 1
            n = self.seq(())
            self.take('}')
            return self.after(('group', n))
        if w == '[[':
            self.i += 2
            e = self.test_or()
            self.test_blank()
            if self.peek(2) != ']]':
                self.fail('expected ]]')
            self.i += 2
            return self.after(('test', e))
        if w == 'if':
            self.i += 2
            arms, other = [], None
            cond = self.seq(())
            self.take('then')
            arms.append((cond, self.seq(())))
            while True:
                self.newlines()
                k = self.ahead()
                if k == 'elif':
                    self.i += 4
                    cond = self.seq(())
                    self.take('then')
                    arms.append((cond, self.seq(())))
                elif k == 'else':
                    self.i += 4
                    other = self.seq(())
                elif k == 'fi':
                    self.i += 2
                    return self.after(('if', arms, other))
                else:
                    self.fail('expected fi')
        if w in ('while', 'until'):
            self.i += 5
            cond = self.seq(())
            self.take('do')
            body = self.seq(())
            self.take('done')
            return self.after(('while', cond, body, w == 'until'))
        if w in ('for', 'select'):
            self.i += len(w)
            self.blank()
            if w == 'select' or self.peek(2) == '((':
                self.fail('loop form not covered')
            name = self.ahead()
            self.i += len(name)
            self.newlines()
            words = None
            if self.ahead() == 'in':
                self.i += 2
                words = []
                while True:
                    self.blank()
                    if self.peek() in (';', '\n'):
                        break
                    words.append(self.word())
            self.blank()
            if self.peek() == ';':
                self.i += 1
            self.take('do')
            body = self.seq(())
            self.take('done')
            return self.after(('for', name, words, body))
        if w == 'case':
            self.i += 4
            self.blank()
            subject = self.word()
            self.take('in')
            arms = []
            while True:
                self.newlines()
                if self.ahead() == 'esac':
                    self.i += 4
                    return self.after(('case', subject, arms))
                if self.peek() == '(':
                    self.i += 1
                pats = []
                while True:
                    self.blank()
                    pats.append(self.word())
                    self.blank()
                    if self.peek() == '|':
                        self.i += 1
                    elif self.peek() == ')':
                        self.i += 1
                        break
                    else:
                        self.fail('pattern')
                body = self.seq(())
                self.newlines()
                end = ';;'
                for e in (';;&', ';;', ';&'):
                    if self.peek(len(e)) == e:
                        end = e
                        self.i += len(e)
                        break
                arms.append((pats, body, end))
        if w == 'function':
            self.i += 8
            self.blank()
            name = self.ahead()
            self.i += len(name)
            self.blank()
            if self.peek(2) == '()':
                self.i += 2
            self.newlines()
            return ('func', name, self.command())
        if w and self.ident(w):
            j = self.i + len(w)
            k = j
            while k < len(self.s) and self.s[k] in ' \t':
                k += 1
            if self.s[k:k + 1] == '(':
                m = k + 1
                while m < len(self.s) and self.s[m] in ' \t':
                    m += 1
                if self.s[m:m + 1] == ')':
                    self.i = m + 1
                    self.newlines()
                    return ('func', w, self.command())
        return self.simple()

    @staticmethod
    def ident(w):
        return bool(w) and all(ch.isalnum() or ch in '_-:.' for ch in w) and not w[0].isdigit()

    def after(self, node):
        r = []
        while True:
            self.blank()
            x = self.redirection()
            if x is None:
                break
            r.append(x)
        return ('redir', node, r) if r else node

    def redirection(self):
        j = self.i
        while j < len(self.s) and self.s[j].isdigit():
            j += 1
        for op in ('&>>', '<<<', '<<-', '&>', '>>', '<<', '<&', '>&', '>|', '<>', '<', '>'):
            if self.s.startswith(op, j) and (j == self.i or op[0] != '&'):
                if op in ('<', '>') and self.s.startswith('(', j + 1):
                    return None
                fd = self.s[self.i:j]
                self.i = j + len(op)
                self.blank()
                w = self.word()
                if op in ('<<', '<<-'):
                    slot = []
                    self.heredocs.append((op == '<<-', ''.join(p[1] for p in w if p[0] == 'lit'), slot))
                    return (fd, '<<', slot)
                return (fd, op, w)
        return None

    def simple(self):
        assigns, words, redirs = [], [], []
        while True:
            self.blank()
            ch = self.peek()
            if not ch or ch in '\n;|)':
                break
            if ch == '&' and self.peek(2) != '&>':
                break
            r = self.redirection()
            if r is not None:
                redirs.append(r)
                continue
            if ch == '(':
                self.fail('unexpected (')
            decl = bool(words) and words[0] in ([('lit', d, False)] for d in ('declare', 'local', 'readonly', 'export',
                                                                                'typeset'))
            a = self.assignment()
            if a is not None:
                if not words:
                    assigns.append(a)
                elif decl:
                    words.append([('asg', a)])
                else:
                    name, op, val = a
                    if isinstance(val, tuple):
                        self.fail('array argument')
                    words.append([('lit', name + op, False)] + val)
                continue
            words.append(self.word())
        if not assigns and not words and not redirs:
            self.fail('unexpected %r' % self.peek(5))
        return ('simple', assigns, words, redirs)

    def assignment(self):
        j = self.i
        if not (self.s[j:j + 1].isalpha() or self.s[j:j + 1] == '_'):
            return None
        while j < len(self.s) and (self.s[j].isalnum() or self.s[j] == '_'):
            j += 1
        name = self.s[self.i:j]
        if self.s.startswith('+=', j):
            op = '+='
        elif self.s.startswith('=', j):
            op = '='
        elif self.s.startswith('[', j) and ']=' in self.s[j:].split('\n')[0].split(' ')[0]:
            self.fail('array element')
        else:
            return None
        self.i = j + len(op)
        if self.peek() == '(':
            self.i += 1
            items = []
            while True:
                self.newlines()
                if self.peek() == ')':
                    self.i += 1
                    return (name, op, ('array', items))
                if not self.peek():
                    self.fail('array')
                items.append(self.word())
        if not self.peek() or self.peek() in META:
            return (name, op, [])
        return (name, op, self.word())

    # -- words

    def word(self, stop=META):
        parts = []
        start = self.i
        while self.i < len(self.s):
            ch = self.peek()
            if self.peek(2) in ('<(', '>(') and not parts:
                self.i += 2
                n = self.seq(())
                self.newlines()
                if self.peek() != ')':
                    self.fail('expected )')
                self.i += 1
                parts.append(('sub', n, True))
                continue
            if ch in stop:
                if ch in '<>' or ch != '(' or not (parts and parts[-1][0] == 'lit' and parts[-1][1][-1:] in '?*+@!'
                                                   and not parts[-1][2]):
                    break
                self.fail('extended pattern')
            self.part(parts, False)
        if self.i == start:
            self.fail('expected a word')
        return parts

    def lit(self, parts, text, quoted):
        if parts and parts[-1][0] == 'lit' and parts[-1][2] == quoted:
            parts[-1] = ('lit', parts[-1][1] + text, quoted)
        else:
            parts.append(('lit', text, quoted))

    def part(self, parts, quoted):
        ch = self.peek()
        if ch == '\\' and not quoted:
            if self.peek(2) == '\\\n':
                self.i += 2
                return
            self.lit(parts, self.s[self.i + 1:self.i + 2], True)
            self.i += 2
        elif ch == '\\':
            nx = self.s[self.i + 1:self.i + 2]
            if nx == '\n':
                self.i += 2
            elif nx in '$`"\\' and nx:
                self.lit(parts, nx, True)
                self.i += 2
            else:
                self.lit(parts, '\\', True)
                self.i += 1
        elif ch == "'" and not quoted:
            j = self.s.find("'", self.i + 1)
            if j < 0:
                self.fail('quote')
            self.lit(parts, self.s[self.i + 1:j], True)
            self.i = j + 1
        elif ch == '"' and not quoted:
            self.i += 1
            if self.peek() == '"':
                self.lit(parts, '', True)
            while self.peek() != '"':
                if not self.peek():
                    self.fail('quote')
                self.part(parts, True)
            self.i += 1
        elif ch == '`':
            j = self.s.find('`', self.i + 1)
            if j < 0:
                self.fail('backquote')
            parts.append(('cmd', Parser(self.s[self.i + 1:j]).script(), quoted))
            self.i = j + 1
        elif ch == '$':
            self.dollar(parts, quoted)
        else:
            self.lit(parts, ch, quoted)
            self.i += 1

    def dollar(self, parts, quoted):
        two = self.peek(2)
        if self.peek(3) == '$((':
            save = self.i
            try:
                self.i += 3
                parts.append(('ari', self.arith_text('))'), quoted))
                return
            except Unparsed:
                self.i = save
        if two == '$(':
            self.i += 2
            n = self.seq(())
            self.newlines()
            if self.peek() != ')':
                self.fail('expected )')
            self.i += 1
            parts.append(('cmd', n, quoted))
        elif two == '${':
            self.i += 2
            parts.append(self.brace(quoted))
        elif two == "$'" and not quoted:
            j = self.i + 2
            out = ''
            esc = {'n': '\n', 't': '\t', 'r': '\r', 'e': '\x1b', 'E': '\x1b', '\\': '\\', "'": "'", '"': '"', 'a': '\a'}
            while self.s[j:j + 1] != "'":
                if j >= len(self.s):
                    self.fail('quote')
                if self.s[j] == '\\':
                    if self.s[j + 1] not in esc:
                        self.fail('escape')
                    out += esc[self.s[j + 1]]
                    j += 2
                else:
                    out += self.s[j]
                    j += 1
            self.lit(parts, out, True)
            self.i = j + 1
        else:
            c = self.s[self.i + 1:self.i + 2]
            if c and c in '@*#?-$!0123456789':
                self.i += 2
                parts.append(('par', c, None, None, quoted))
            elif c.isalpha() or c == '_':
                j = self.i + 1
                while j < len(self.s) and (self.s[j].isalnum() or self.s[j] == '_'):
                    j += 1
                parts.append(('par', self.s[self.i + 1:j], None, None, quoted))
                self.i = j
            else:
                self.lit(parts, '$', quoted)
                self.i += 1

    def brace(self, quoted):
        if self.peek() == '#' and self.peek(2) not in ('#}', '#:', '#-'):
            self.i += 1
            name = self.pname()
            if self.peek() != '}':
                self.fail('expansion')
            self.i += 1
            return ('par', name, 'len', None, quoted)
        if self.peek() == '!':
            self.fail('indirect expansion')
        name = self.pname()
        if self.peek() == '[':
            j = self.s.find(']', self.i)
            sub = self.s[self.i + 1:j]
            self.i = j + 1
            name = (name, sub)
        if self.peek() == '}':
            self.i += 1
            return ('par', name, None, None, quoted)
        for op in (':-', ':=', ':?', ':+', '##', '%%', '//', '/#', '/%', '^^', ',,', '-', '=', '?', '+', '#', '%', '/', '^',
                   ',', ':', '@'):
            if self.peek(len(op)) == op:
                self.i += len(op)
                break
        else:
            self.fail('expansion')
        arg = []
        while self.peek() != '}':
            if not self.peek():
                self.fail('expansion')
            if self.peek() == '"':
                self.i += 1
                self.lit(arg, '', True)
                while self.peek() != '"':
                    if not self.peek():
                        self.fail('quote')
                    self.part(arg, True)
                self.i += 1
            else:
                self.part(arg, False)
        self.i += 1
        return ('par', name, op, arg, quoted)

    def pname(self):
        c = self.peek()
        if c and c in '@*#?-$!':
            self.i += 1
            return c
        j = self.i
        while j < len(self.s) and (self.s[j].isalnum() or self.s[j] == '_'):
            j += 1
        if j == self.i:
            self.fail('expansion')
        n = self.s[self.i:j]
        self.i = j
        return n

    def arith_text(self, end):
        """Text of an arithmetic expression as a word; ends with end at depth 0."""
        parts = []
        depth = 0
        while True:
            if not self.peek():
                self.fail('arithmetic')
            if depth == 0 and self.peek(len(end)) == end:
                self.i += len(end)
                return parts
            ch = self.peek()
            if ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
                if depth < 0:
                    self.fail('arithmetic')
            if ch == '"':
                self.i += 1
            else:
                self.part(parts, True)

    # -- [[ ]]

    def test_blank(self):
        while True:
            self.blank()
            if self.peek() == '\n':
                self.i += 1
            else:
                return

    def test_or(self):
        a = self.test_and()
        while True:
            self.test_blank()
            if self.peek(2) == '||':
                self.i += 2
                a = ('or', a, self.test_and())
            else:
                return a

    def test_and(self):
        a = self.test_not()
        while True:
            self.test_blank()
            if self.peek(2) == '&&':
                self.i += 2
                a = ('and', a, self.test_not())
            else:
                return a

    def test_not(self):
        self.test_blank()
        if self.ahead() == '!':
            self.i += 1
            return ('not', self.test_not())
        if self.peek() == '(':
            self.i += 1
            e = self.test_or()
            self.test_blank()
            if self.peek() != ')':
                self.fail('expected )')
            self.i += 1
            return e
        w = self.ahead()
        if w and len(w) == 2 and w[0] == '-' and w[1].isalpha() and w[1] not in '':
            save = self.i
            self.i += 2
            self.test_blank()
            if self.peek(2) != ']]':
                return ('un', w, self.word())
            self.i = save
        a = self.word()
        self.test_blank()
        if self.peek(2) in (']]', '&&', '||') or self.peek() == ')':
            return ('un', '-n', a)
        if self.peek() in '<>':
            op = self.peek()
            self.i += 1
        else:
            op = self.ahead()
            if op not in ('=', '==', '!=', '=~', '-eq', '-ne', '-lt', '-le', '-gt', '-ge', '-ef', '-nt', '-ot'):
                self.fail('test')
            self.i += len(op)
        self.test_blank()
        if op == '=~':
            b = self.regex_word()
        else:
            b = self.word()
        return ('bin', op, a, b)

    def regex_word(self):
        parts = []
        depth = 0
        while self.peek():
            ch = self.peek()
            if ch in ' \t\n' and depth == 0:
                break
            if ch == '(':
                depth += 1
                self.lit(parts, ch, False)
                self.i += 1
            elif ch == ')':
                if depth == 0:
                    break
                depth -= 1
                self.lit(parts, ch, False)
                self.i += 1
            elif ch == '\\':
                self.lit(parts, self.peek(2), False)
                self.i += 2
            elif ch == '$' and (self.s[self.i + 1:self.i + 2] in ('', ' ', '\t', '\n', ')', '|')):
                self.lit(parts, ch, False)
                self.i += 1
            else:
                self.part(parts, False)
        return parts


def parse(text):
    return Parser(text).script()
