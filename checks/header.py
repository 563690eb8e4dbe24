"""sudo_plugin.h as the C compiler sees it, and the checked-in bindings as rustc would lay them out."""
import os, re, subprocess, tempfile
import facts

DIR = os.path.join(facts.REPO, 'sudo_plugin-sys')
HEADER = os.path.join(DIR, 'include', 'sudo_plugin.h')
TARGETS = {'x86-64': 'x86_64-linux-gnu', 'x86': 'i686-linux-gnu', 'aarch64': 'aarch64-linux-gnu'}
CFLAGS = ['-nostdinc', '-std=gnu11', '-w']


class Unreadable(Exception):
    pass


def clang(args, text):
    r = subprocess.run(['clang'] + args + ['-x', 'c', '-'], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=120)
    if r.returncode != 0:
        raise Unreadable(r.stderr.decode('utf-8', 'replace')[-400:])
    return r.stdout.decode('utf-8', 'replace')


def include():
    return '#include "%s"\n' % HEADER


_const = {}


def constants(target='x86_64-linux-gnu'):
    """{macro: value} of the header's object-like macros that are integer constants, or None."""
    if target not in _const:
        try:
            own = set(re.findall(r'^#define (\w+)(?= )', clang(['-target', target, '-dM', '-E'] + CFLAGS, include()), re.M)) - \
                set(re.findall(r'^#define (\w+)', clang(['-target', target, '-dM', '-E'] + CFLAGS, ''), re.M))
            out, names = {}, sorted(own)
            # the compiler evaluates them
            for n in names:
                try:
                    ir = clang(['-target', target, '-S', '-emit-llvm', '-o', '-'] + CFLAGS,
                               include() + 'const long long probe_v = (%s);\n' % n)
                    m = re.search(r'^@probe_v = .*constant i64 (-?\d+)', ir, re.M)
                    if m:
                        out[n] = int(m.group(1))
                except Unreadable:
                    pass
            _const[target] = out
        except (Unreadable, OSError):
            _const[target] = None
    return _const[target]


# -- the C side, from debug information

def c_side(target):
    """(structs, callbacks): {name: (size, align, [(field, offset, type)])}, {typedef: type}
    type: ('int', bytes, signed) | ('ptr', what or None) | ('fn', result, params, variadic, prototyped) | ('void',) | ('struct', n)"""
    pre = clang(['-target', target, '-E', '-P'] + CFLAGS, include())
    names = sorted(set(re.findall(r'\bstruct\s+(\w+)\s*\{', pre)))
    tds = sorted(set(re.findall(r'\btypedef\b[^;{}]*?\(\s*\*\s*(\w+)\s*\)\s*\(', pre)))
    src = include()
    for n in names:
        src += 'struct %s probe_s_%s; const unsigned long long probe_l_%s[] = {sizeof(struct %s), _Alignof(struct %s)};\n' % (n, n, n, n, n)
    for n in tds:
        src += '%s probe_t_%s;\n' % (n, n)
    ir = clang(['-target', target, '-g', '-S', '-emit-llvm', '-o', '-'] + CFLAGS, src)
    md = {}
    for l in ir.splitlines():
        m = re.match(r'^!(\d+) = (?:distinct )?(.*)$', l)
        if m:
            md[int(m.group(1))] = m.group(2)

    def attr(s, k):
        m = re.search(r'\b%s: ("([^"]*)"|!(\d+)|[-\w]+)' % k, s)
        if not m:
            return None
        return m.group(2) if m.group(2) is not None else int(m.group(3)) if m.group(3) else m.group(1)

    def refs(s):
        inner = s[s.index('{') + 1:s.rindex('}')]
        return [None if x.strip() == 'null' else int(x.strip()[1:]) for x in inner.split(',') if x.strip()]

    def ty(n, depth=0):
        if n is None:
            return ('void',)
        s = md[n]
        if s.startswith('!DIBasicType'):
            enc = attr(s, 'encoding')
            return ('int', int(attr(s, 'size')) // 8, enc in ('DW_ATE_signed', 'DW_ATE_signed_char')) if 'float' not in enc else ('float',)
        if s.startswith('!DISubroutineType'):
            r = refs(md[attr(s, 'types')])
            if not r:
                return ('fn', ('void',), [], False, True)
            ret, ps = ty(r[0], depth), r[1:]
            var = bool(ps) and ps[-1] is None
            ps = [ty(x, depth + 1) for x in (ps[:-1] if var else ps)]
            return ('fn', ret, ps, var, not (var and not ps))
        tag = attr(s, 'tag')
        if tag in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
            b = attr(s, 'baseType')
            return ty(b if isinstance(b, int) else None, depth)
        if tag == 'DW_TAG_pointer_type':
            b = attr(s, 'baseType')
            if depth > 6 or not isinstance(b, int):
                return ('ptr', None)
            x = ty(b, depth + 1) if md[b].startswith('!DISub') else None
            return ('ptr', x)
        if tag in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
            return ('struct', attr(s, 'name'))
        if tag == 'DW_TAG_enumeration_type':
            return ('int', int(attr(s, 'size') or 32) // 8, False)
        raise Unreadable('type %s' % s[:80])
    structs, calls = {}, {}
    comp = {attr(s, 'name'): s for s in md.values() if 'DW_TAG_structure_type' in s and attr(s, 'elements') is not None}
    for n in names:
        m = re.search(r'^@probe_l_%s = .*\[i64 (\d+), i64 (\d+)\]' % n, ir, re.M)
        fs = []
        for r in refs(md[attr(comp[n], 'elements')]) if n in comp else []:
            s = md[r]
            if 'DW_TAG_member' in s:
                b = attr(s, 'baseType')
                fs.append((attr(s, 'name'), int(attr(s, 'offset') or 0) // 8, ty(b)))
        if m:
            structs[n] = (int(m.group(1)), int(m.group(2)), fs)
    for s in md.values():
        if s.startswith('!DIGlobalVariable(') and (attr(s, 'name') or '').startswith('probe_t_'):
            calls[attr(s, 'name')[8:]] = ty(attr(s, 'type'))
    return structs, calls


# -- the Rust side, from the text of the bindings

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(r?"(?:\\.|[^"\\])*"|\'\w+\b(?!\')|[A-Za-z_]\w*|0[xX][0-9a-fA-F_]+\w*|\d[\w.]*|\.\.\.|::|->|=>|[^\sA-Za-z0-9_])', re.S)


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Unreadable('cannot read: %r' % text[i:i + 30])
        if m.group(1):
            out.append(m.group(1))
        i = m.end()
    return out


class Rust:
    def __init__(self, text, arch):
        self.k = tokens(text)
        self.i = 0
        self.w = 4 if arch == 'x86' else 8
        self.csigned = arch != 'aarch64'
        self.arch = arch
        self.structs, self.types, self.consts, self.odd = {}, {}, {}, []
        self.file()

    def peek(self, n=0):
        return self.k[self.i + n] if self.i + n < len(self.k) else ''

    def take(self, x=None):
        t = self.peek()
        if x is not None and t != x:
            raise Unreadable('expected %s, found %s (token %d)' % (x, ' '.join(self.k[self.i:self.i + 6]), self.i))
        self.i += 1
        return t

    def skip(self):
        """One balanced group."""
        o = self.take()
        c = {'(': ')', '[': ']', '{': '}'}[o]
        got = [o]
        while self.peek() != c:
            if self.peek() in '([{' and self.peek():
                got += self.skip()
            elif not self.peek():
                raise Unreadable('unbalanced')
            else:
                got.append(self.take())
        got.append(self.take())
        return got

    def file(self):
        while self.peek():
            attrs = []
            while self.peek() == '#':
                self.take()
                if self.peek() == '!':
                    self.take()
                attrs.append(''.join(self.skip()))
            if any(a.startswith('[cfg(') for a in attrs):
                self.odd.append('conditional item')
            if self.peek() == 'pub':
                self.take()
                if self.peek() == '(':
                    self.skip()
            what = self.peek()
            if what == 'const' and self.peek(1) != 'fn':
                self.const()
            elif what == 'struct':
                self.struct(attrs)
            elif what == 'type':
                self.take()
                n = self.take()
                self.take('=')
                self.types[n] = self.type()
                self.take(';')
            else:
                if what not in ('fn', 'unsafe', 'impl', 'use', 'extern', ''):
                    self.odd.append(what)
                while self.peek() and self.peek() not in '{;':
                    if self.peek() in '([':
                        self.skip()
                    else:
                        self.take()
                if self.peek() == '{':
                    self.skip()
                elif self.peek():
                    self.take()

    def const(self):
        self.take()
        n = self.take()
        self.take(':')
        ty = self.type()
        self.take('=')
        e = []
        while self.peek() != ';':
            e.append(self.take())
        self.take()
        s = ''.join(e)
        m = re.match(r'^(-?)(0[xX][0-9a-fA-F_]+|[0-9_]+)(?:[ui](?:8|16|32|64|128|size))?$', s)
        self.consts[n] = (int(m.group(1) + m.group(2).replace('_', ''), 0) if m else None, ty)

    def struct(self, attrs):
        self.take()
        n = self.take()
        if self.peek() == '<':
            self.odd.append('generic struct %s' % n)
            while self.take() != '>':
                pass
        repr_ = [a for a in attrs if a.startswith('[repr(')]
        fs = []
        if self.peek() == ';':
            self.take()
        elif self.peek() == '(':
            self.skip()
            self.take(';')
            fs = None
        else:
            self.take('{')
            while self.peek() != '}':
                while self.peek() == '#':
                    self.take()
                    self.skip()
                if self.peek() == 'pub':
                    self.take()
                    if self.peek() == '(':
                        self.skip()
                f = self.take()
                if f == 'r' and self.peek() == '#':
                    self.take()
                    f = self.take()
                self.take(':')
                fs.append((f, self.type()))
                if self.peek() == ',':
                    self.take()
            self.take('}')
        self.structs[n] = (repr_, fs)

    def type(self):
        t = self.peek()
        if t == '*':
            self.take()
            self.take()
            self.type()
            return ('ptr', None)
        if t == '&':
            self.take()
            if self.peek().startswith("'"):
                self.take()
            if self.peek() == 'mut':
                self.take()
            self.type()
            return ('ptr', None)
        if t == '[':
            self.take()
            e = self.type()
            if self.peek() == ';':
                self.take()
                n = []
                while self.peek() != ']':
                    n.append(self.take())
                self.take()
                m = re.match(r'^(\d+)(usize)?$', ''.join(n))
                return ('array', e, int(m.group(1)) if m else None)
            raise Unreadable('slice')
        if t == '(':
            self.take()
            if self.peek() == ')':
                self.take()
                return ('void',)
            raise Unreadable('tuple')
        if t == '!':
            self.take()
            return ('void',)
        if t in ('unsafe', 'extern', 'fn'):
            abi = 'Rust'
            while self.peek() != 'fn':
                x = self.take()
                if x == 'extern':
                    abi = 'C'
                    if self.peek().startswith('"'):
                        abi = self.take().strip('"')
            self.take('fn')
            self.take('(')
            ps, var = [], False
            while self.peek() != ')':
                if self.peek() == '...':
                    self.take()
                    var = True
                else:
                    if self.peek(1) == ':' :
                        self.take()
                        self.take(':')
                        if self.peek() == '...':
                            self.take()
                            var = True
                            continue
                    ps.append(self.type())
                if self.peek() == ',':
                    self.take()
            self.take(')')
            ret = ('void',)
            if self.peek() == '->':
                self.take()
                ret = self.type()
            return ('ptr', ('fn', ret, ps, var, abi))
        # a path
        if t == '::':
            self.take()
        p = [self.take()]
        args = []
        while self.peek() == '::':
            self.take()
            if self.peek() == '<':
                break
            p.append(self.take())
        if self.peek() == '<':
            self.take()
            while self.peek() != '>':
                args.append(self.type())
                if self.peek() == ',':
                    self.take()
            self.take('>')
        return self.path(p, args)

    def path(self, p, args):
        n = p[-1]
        if n == 'Option' and len(args) == 1:
            return ('option', args[0])
        if n in ('NonNull',):
            return ('ptr', None)
        w = self.w
        prim = {'c_int': (4, True), 'c_uint': (4, False), 'c_short': (2, True), 'c_ushort': (2, False), 'c_long': (w, True),
                'c_ulong': (w, False), 'c_longlong': (8, True), 'c_ulonglong': (8, False), 'c_char': (1, self.csigned),
                'c_schar': (1, True), 'c_uchar': (1, False), 'i8': (1, True), 'u8': (1, False), 'i16': (2, True), 'u16': (2, False),
                'i32': (4, True), 'u32': (4, False), 'i64': (8, True), 'u64': (8, False), 'isize': (w, True), 'usize': (w, False),
                'bool': (1, False)}
        if n in prim:
            return ('int',) + prim[n]
        if n == 'c_void':
            return ('void',)
        return ('name', n)

    # -- layout

    def resolve(self, t, seen=()):
        if t[0] == 'name':
            if t[1] in seen:
                raise Unreadable('recursive type')
            if t[1] in self.types:
                return self.resolve(self.types[t[1]], seen + (t[1],))
            return ('struct', t[1])
        if t[0] == 'option':
            x = self.resolve(t[1], seen)
            if x[0] == 'ptr':
                return x
            raise Unreadable('an Option of something else')
        if t[0] == 'ptr' and t[1] is not None:
            f = t[1]
            return ('ptr', ('fn', self.resolve(f[1]), [self.resolve(x) for x in f[2]], f[3], f[4]))
        return t

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'int':
            return t[1], 4 if t[1] == 8 and self.arch == 'x86' else t[1]
        if t[0] == 'ptr':
            return self.w, self.w
        if t[0] == 'array':
            s, a = self.size(t[1])
            if t[2] is None:
                raise Unreadable('array length')
            return s * t[2], a
        if t[0] == 'struct' and t[1] in self.structs:
            s, a, _ = self.layout(t[1])
            return s, a
        raise Unreadable('size of %r' % (t,))

    def layout(self, n):
        """(size, align, [(field, offset, type)])"""
        repr_, fs = self.structs[n]
        if fs is None:
            raise Unreadable('tuple struct %s' % n)
        words = set(re.findall(r'[\w()]+', ' '.join(a[6:-2] for a in repr_)))
        pack = None
        minal = 1
        for a in repr_:
            for m in re.finditer(r'(packed|align)(?:\((\d+)\))?', a):
                if m.group(1) == 'packed':
                    pack = int(m.group(2) or 1)
                else:
                    minal = max(minal, int(m.group(2) or 1))
        off, al, out = 0, 1, []
        for f, t in fs:
            s, a = self.size(t)
            if pack:
                a = min(a, pack)
            off = (off + a - 1) // a * a
            out.append((f, off, self.resolve(t)))
            off += s
            al = max(al, a)
        al = max(al, minal)
        return (off + al - 1) // al * al, al, out

    def is_c(self, n):
        return any('C' in re.findall(r'\w+', a[6:]) for a in self.structs[n][0])


def bindings():
    """{arch: text} of the checked-in bindings."""
    d = os.path.join(DIR, 'src', 'bindings')
    out = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = re.match(r'^sudo_plugin\.(.+)\.rs$', f)
        if m:
            out[m.group(1)] = (os.path.join(d, f), open(os.path.join(d, f), encoding='utf-8').read())
    return out
