"""Regular languages by derivatives: enough to decide what a pattern does to a whole class of strings.

The alphabet is the ASCII characters plus one that stands for every other."""

SIGMA = frozenset(range(1, 129))
NULL, EPS = ('null',), ('eps',)
ANY = ('star', ('set', SIGMA))


class Unsupported(Exception):
    pass


def chset(cs):
    s = frozenset(min(ord(x), 128) for x in cs)
    return ('set', s) if s else NULL


def cat(a, b):
    if a == NULL or b == NULL:
        return NULL
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == 'cat':
        return ('cat', a[1], cat(a[2], b))
    return ('cat', a, b)


def alts(xs):
    out = set()
    for x in xs:
        if x[0] == 'alt':
            out |= x[1]
        elif x != NULL:
            out.add(x)
    if ANY in out:
        return ANY
    if not out:
        return NULL
    if len(out) == 1:
        return next(iter(out))
    return ('alt', frozenset(out))


def star(a):
    if a in (NULL, EPS):
        return EPS
    return a if a[0] == 'star' else ('star', a)


def lit(s):
    r = EPS
    for ch in reversed(s):
        r = cat(chset(ch), r)
    return r


def nullable(a):
    k = a[0]
    if k in ('eps', 'star'):
        return True
    if k == 'cat':
        return nullable(a[1]) and nullable(a[2])
    if k == 'alt':
        return any(nullable(x) for x in a[1])
    return False


def deriv(a, ch):
    k = a[0]
    if k in ('null', 'eps'):
        return NULL
    if k == 'set':
        return EPS if ch in a[1] else NULL
    if k == 'star':
        return cat(deriv(a[1], ch), a)
    if k == 'alt':
        return alts(deriv(x, ch) for x in a[1])
    r = cat(deriv(a[1], ch), a[2])
    if nullable(a[1]):
        r = alts([r, deriv(a[2], ch)])
    return r


def sets(a, out):
    if a[0] == 'set':
        out.add(a[1])
    elif a[0] in ('star',):
        sets(a[1], out)
    elif a[0] == 'cat':
        sets(a[1], out)
        sets(a[2], out)
    elif a[0] == 'alt':
        for x in a[1]:
            sets(x, out)


def relation(a, b, limit=4000):
    """'in' when every string of a is in b, 'out' when none is, 'empty' when a has none, else None."""
    ss = set()
    sets(a, ss)
    sets(b, ss)
    ss = list(ss)
    reps = {}
    for ch in SIGMA:
        reps.setdefault(tuple(ch in s for s in ss), ch)
    reps = list(reps.values())
    seen = {(a, b)}
    todo = [(a, b)]
    both = only = False
    while todo:
        x, y = todo.pop()
        if nullable(x):
            if nullable(y):
                both = True
            else:
                only = True
            if both and only:
                return None
        for ch in reps:
            n = (deriv(x, ch), deriv(y, ch))
            if n[0] != NULL and n not in seen:
                seen.add(n)
                if len(seen) > limit:
                    return None
                todo.append(n)
    if not both and not only:
        return 'empty'
    return 'in' if both else 'out'


CLASSES = {
    'digit': '0123456789', 'space': ' \t\n\r\v\f', 'blank': ' \t',
    'alpha': ''.join(chr(i) for i in range(128) if chr(i).isalpha()),
    'alnum': ''.join(chr(i) for i in range(128) if chr(i).isalnum()),
    'upper': ''.join(chr(i) for i in range(65, 91)), 'lower': ''.join(chr(i) for i in range(97, 123)),
    'xdigit': '0123456789abcdefABCDEF', 'print': ''.join(chr(i) for i in range(32, 127)),
    'punct': ''.join(chr(i) for i in range(33, 127) if not chr(i).isalnum()),
    'cntrl': ''.join(chr(i) for i in list(range(1, 32)) + [127]), 'graph': ''.join(chr(i) for i in range(33, 127)),
    'word': ''.join(chr(i) for i in range(128) if chr(i).isalnum()) + '_',
}


def bracket(items, i, neg):
    """items: [(char, quoted)] just after [; returns (set node, next index)."""
    if i < len(items) and items[i] == (neg, False) or i < len(items) and items[i] == ('!', False) and neg == '!' \
            or i < len(items) and items[i] == ('^', False):
        inv = True
        i += 1
    else:
        inv = False
    cs = set()
    first = True
    while True:
        if i >= len(items):
            raise Unsupported()
        ch, q = items[i]
        if ch == ']' and not q and not first:
            i += 1
            break
        first = False
        if ch == '[' and not q and i + 1 < len(items) and items[i + 1][0] == ':':
            j = i + 2
            name = ''
            while j < len(items) and items[j][0] != ':':
                name += items[j][0]
                j += 1
            if name not in CLASSES or j + 1 >= len(items) or items[j + 1][0] != ']':
                raise Unsupported()
            cs |= set(CLASSES[name])
            i = j + 2
            continue
        if ch == '[' and not q and i + 1 < len(items) and items[i + 1][0] in '.=':
            raise Unsupported()
        if i + 2 < len(items) and items[i + 1] == ('-', False) and items[i + 2] != (']', False):
            hi = items[i + 2][0]
            cs |= {chr(x) for x in range(ord(ch), ord(hi) + 1)}
            i += 3
            continue
        cs.add(ch)
        i += 1
    s = frozenset(min(ord(x), 128) for x in cs)
    s = SIGMA - s if inv else s
    return (('set', s) if s else NULL), i


def glob(items):
    """items: [(char or language, quoted)]"""
    i = 0
    out = []
    while i < len(items):
        ch, q = items[i]
        if not isinstance(ch, str):
            out.append(ch)
            i += 1
        elif q:
            out.append(chset(ch))
            i += 1
        elif ch == '*':
            out.append(ANY)
            i += 1
        elif ch == '?':
            out.append(('set', SIGMA))
            i += 1
        elif ch == '[' and any(x == (']', False) for x in items[i + 2:]):
            n, i = bracket(items, i + 1, '!')
            out.append(n)
        elif ch == '\\' and i + 1 < len(items):
            out.append(chset(items[i + 1][0]))
            i += 2
        else:
            out.append(chset(ch))
            i += 1
    r = EPS
    for x in reversed(out):
        r = cat(x, r)
    return r


def ere(items):
    """What a search with this extended expression accepts."""
    pos = 0

    def peek():
        return items[pos] if pos < len(items) else (None, False)

    def alt():
        nonlocal pos
        xs = [seq()]
        while peek() == ('|', False):
            pos += 1
            xs.append(seq())
        return xs

    def group(xs):
        if any(a or b for a, b, _ in xs):
            raise Unsupported()
        return alts([x for _, _, x in xs])

    def seq():
        nonlocal pos
        left = right = False
        out = []
        while pos < len(items):
            ch, q = peek()
            if (ch, q) in (('|', False), (')', False)):
                break
            if right:
                raise Unsupported()
            if (ch, q) == ('^', False):
                if out or left:
                    raise Unsupported()
                left = True
                pos += 1
                continue
            if (ch, q) == ('$', False):
                right = True
                pos += 1
                continue
            out.append(piece())
        r = EPS
        for x in reversed(out):
            r = cat(x, r)
        return (left, right, r)

    def piece():
        nonlocal pos
        ch, q = peek()
        pos += 1
        if not isinstance(ch, str):
            a = ch
        elif q:
            a = chset(ch)
        elif ch == '(':
            a = group(alt())
            if peek() != (')', False):
                raise Unsupported()
            pos += 1
        elif ch == '[':
            a, pos = bracket(items, pos, '^')
        elif ch == '.':
            a = ('set', SIGMA)
        elif ch == '\\':
            n = peek()[0]
            if not isinstance(n, str) or n.isalnum():
                raise Unsupported()
            a = chset(n)
            pos += 1
        elif ch in '*+?{':
            raise Unsupported()
        else:
            a = chset(ch)
        while True:
            ch, q = peek()
            if q or ch not in ('*', '+', '?', '{'):
                return a
            pos += 1
            if ch == '*':
                a = star(a)
            elif ch == '+':
                a = cat(a, star(a))
            elif ch == '?':
                a = alts([a, EPS])
            else:
                t = ''
                while peek()[0] not in ('}', None):
                    t += peek()[0]
                    pos += 1
                pos += 1
                lo, _, hi = t.partition(',')
                lo = int(lo or 0)
                r = EPS
                for _ in range(lo):
                    r = cat(r, a)
                if ',' in t:
                    if hi:
                        for _ in range(int(hi) - lo):
                            r = cat(r, alts([a, EPS]))
                    else:
                        r = cat(r, star(a))
                a = r
    xs = alt()
    if pos < len(items):
        raise Unsupported()
    return alts([cat(EPS if l else ANY, cat(x, EPS if r else ANY)) for l, r, x in xs])


DIG = ('set', frozenset(range(48, 58)))
LANG = {
    'digits': cat(DIG, star(DIG)),
    'canon': alts([chset('0'), cat(('set', frozenset(range(49, 58))), star(DIG))]),
    'nondigit': cat(ANY, cat(('set', SIGMA - DIG[1]), ANY)),
    'text': ANY,
}
