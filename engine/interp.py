"""Path-sensitive interprocedural dataflow analysis over MIR facts.

Property simulation: abstract states carry, besides the values of memory as
terms over the inputs, the sequence of externally visible events; states that
meet at a program point with equal event sequences are joined, others stay
apart. Loops are generalised to a fixpoint and then summarised."""
import heapq
from . import terms as t
from .terms import mk, I, TRUE, FALSE, UNIT, UNINIT, ptr, tmp, agg, not_, and_, or_, ite, eq

U64 = 64
BUDGET = 'step budget exhausted'


class Infeasible(Exception):
    pass


class Fork(Exception):
    def __init__(self, c):
        self.c = c


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class NoReturn(Exception):
    pass


def conjuncts(lits):
    out = []
    for c in lits:
        if c.op == 'and':
            out.extend(conjuncts(c.args))
        else:
            out.append(c)
    return out


class Push(Exception):
    """Execute a (possibly synthetic) function for the current call."""

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ program

SEQ_DEFS = {
    'alloc::vec::Vec', 'alloc::string::String', 'std::path::PathBuf', 'std::path::Path',
    'std::ffi::os_str::OsStr', 'std::ffi::os_str::OsString', 'alloc::ffi::c_str::CString',
    'core::ffi::c_str::CStr', 'alloc::borrow::Cow', 'alloc::collections::vec_deque::VecDeque',
}
# value types represented by the value of one field
TRANSPARENT = {
    'alloc::boxed::Box': '0', 'alloc::boxed::BoxRaw': 'pointer', 'core::ptr::unique::Unique': 'pointer',
    'core::ptr::non_null::NonNull': 'pointer', 'core::cell::UnsafeCell': 'value',
    'core::cell::RefCell': 'value', 'core::cell::Cell': 'value',
    'core::mem::maybe_uninit::MaybeUninit': 'value', 'core::mem::manually_drop::ManuallyDrop': 'value',
    'core::mem::maybe_dangling::MaybeDangling': '0',
    'core::cell::RefMut': 'value', 'core::cell::Ref': 'value',
    'core::panic::unwind_safe::AssertUnwindSafe': '0',
    'core::pin::Pin': 'pointer', 'core::cell::SyncUnsafeCell': 'value', 'core::sync::atomic::Atomic': 'v',
    'core::cell::once::OnceCell': 'inner', 'core::num::wrapping::Wrapping': '0',
    'core::cmp::Reverse': '0',
}


class Fn:
    def __init__(self, prog, idx, j):
        self.prog = prog
        self.idx = idx
        self.j = j
        self.name = j['name']
        self.defn = j.get('def', self.name)
        self.body = j.get('body')
        self._cfg = None

    def __repr__(self):
        return 'Fn(%s)' % self.name

    def succs(self, bb):
        k = self.blocks[bb][1]
        o = k[0]
        r = []
        if o == 'goto':
            r = [k[1]]
        elif o == 'switch':
            r = [b for _, b in k[2]] + ([k[3]] if k[3] is not None else [])
        elif o == 'drop':
            r = [k[2]]
            if isinstance(k[3], int):
                r.append(k[3])
        elif o == 'call':
            r = [k[4]] if k[4] is not None else []
            if isinstance(k[5], int):
                r.append(k[5])
        elif o == 'assert':
            r = [k[4]]
            if isinstance(k[5], int):
                r.append(k[5])
        elif o == 'asm':
            r = [x for x in k[1:] if isinstance(x, int)]
        return r

    def cfg(self):
        if self._cfg is None:
            self.blocks = self.body['blocks']
            n = len(self.blocks)
            seen = set()
            post = []
            stack = [(0, iter(self.succs(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                adv = False
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        adv = True
                        break
                if not adv:
                    post.append(b)
                    stack.pop()
            rpo = {b: i for i, b in enumerate(reversed(post))}
            preds = {b: [] for b in seen}
            for b in seen:
                for s in self.succs(b):
                    preds[s].append(b)
            # dominators
            order = sorted(seen, key=lambda b: rpo[b])
            dom = {0: {0}}
            changed = True
            while changed:
                changed = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [dom[p] for p in preds[b] if p in dom]
                    if not ps:
                        continue
                    d = set.intersection(*ps) | {b}
                    if dom.get(b) != d:
                        dom[b] = d
                        changed = True
            loops = {}
            for b in seen:
                for s in self.succs(b):
                    if s in dom.get(b, ()):
                        body = loops.setdefault(s, {s})
                        work = [b]
                        while work:
                            x = work.pop()
                            if x not in body:
                                body.add(x)
                                work.extend(preds[x])
            # liveness of locals whose address is never taken
            taken = set()
            use = {}
            dfn = {}

            def op_locals(o, acc):
                if o[0] in ('c', 'm'):
                    place_locals(o[1], acc)

            def place_locals(p, acc):
                acc.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == 'i':
                        acc.add(e[1])
            for b in seen:
                u, d = set(), set()

                def useset(acc):
                    for x in acc:
                        if x not in d:
                            u.add(x)
                stmts, term = self.blocks[b]
                for s in stmts:
                    if s[0] == '=':
                        acc = set()
                        r = s[2]
                        if r[0] == 'ref':
                            if '*' not in r[1][1]:
                                taken.add(r[1][0])
                            place_locals(r[1], acc)
                        elif r[0] == 'agg':
                            for o in r[2]:
                                op_locals(o, acc)
                        elif r[0] in ('bin', 'cbin'):
                            op_locals(r[2], acc)
                            op_locals(r[3], acc)
                        elif r[0] == 'un' or r[0] == 'cast':
                            op_locals(r[2], acc)
                        elif r[0] in ('use', 'repeat'):
                            op_locals(r[1], acc)
                        elif r[0] in ('discr', 'len'):
                            place_locals(r[1], acc)
                        elif r[0] == 'py':
                            for o in r[2]:
                                op_locals(o, acc)
                        if s[1][1]:
                            place_locals(s[1], acc)
                        useset(acc)
                        if not s[1][1]:
                            d.add(s[1][0])
                    elif s[0] == 'sd':
                        acc = set()
                        place_locals(s[1], acc)
                        useset(acc)
                    elif s[0] == 'assume':
                        acc = set()
                        op_locals(s[1], acc)
                        useset(acc)
                    elif s[0] == 'cno':
                        acc = set()
                        for o in s[1:]:
                            op_locals(o, acc)
                        useset(acc)
                    elif s[0] == 'dead':
                        d.add(s[1])
                acc = set()
                if term[0] == 'switch':
                    op_locals(term[1], acc)
                elif term[0] == 'drop':
                    place_locals(term[1], acc)
                    if '*' not in term[1][1]:
                        taken.add(term[1][0])
                elif term[0] == 'call':
                    if isinstance(term[1], list):
                        op_locals(term[1][0] if term[1] and isinstance(term[1][0], list) else term[1], acc)
                    for o in term[2]:
                        op_locals(o, acc)
                    if term[3] and term[3][1]:
                        place_locals(term[3], acc)
                elif term[0] == 'assert':
                    op_locals(term[1], acc)
                elif term[0] == 'return':
                    acc.add(0)
                useset(acc)
                if term[0] == 'call' and term[3] and not term[3][1]:
                    # defined on the normal edge only; treat as use-free
                    pass
                use[b], dfn[b] = u, d
            live = {b: set() for b in seen}
            changed = True
            while changed:
                changed = False
                for b in sorted(seen, key=lambda b: -rpo[b]):
                    out = set()
                    for s in self.succs(b):
                        out |= live[s]
                    term = self.blocks[b][1]
                    if term[0] == 'call' and term[3] and not term[3][1]:
                        out = out - {term[3][0]}
                    n = use[b] | (out - dfn[b])
                    if n != live[b]:
                        live[b] = n
                        changed = True
            self._cfg = (rpo, loops, live, taken)
        return self._cfg


class Program:
    def __init__(self, facts):
        self.j = facts
        self.types = facts['types']
        self.fns = [Fn(self, i, f) for i, f in enumerate(facts['fns'])]
        self.statics = facts['statics']
        self.synth = {}
        self._names = {}
        self._drops = {}
        self._fk = {}

    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.types[i]['s']

    def tdef(self, i):
        return self.types[i].get('def')

    def peel(self, i):
        """Type behind references."""
        x = self.types[i]
        while x['k'] in ('ref', 'ptr'):
            i = x['elem']
            x = self.types[i]
        return i

    def is_seq(self, i):
        x = self.types[i]
        return x['k'] in ('str', 'slice', 'array') or x.get('def') in SEQ_DEFS

    def transparent(self, i):
        x = self.types[i]
        if x['k'] != 'adt':
            return None
        return TRANSPARENT.get(x['def'])

    def nvariants(self, i):
        return len(self.types[i].get('variants', ()))

    def is_enum(self, i):
        x = self.types[i]
        return x['k'] == 'adt' and x['akind'] == 'enum'

    def fields(self, ctid, v):
        """[(key, type)] of a variant (None for structs, tuples, closures)."""
        k = self._fk.get((ctid, v))
        if k is not None:
            return k
        x = self.types[ctid]
        if x['k'] == 'adt':
            var = x['variants'][v or 0]
            if x['akind'] == 'enum':
                r = [('%s.%s' % (var['name'], f[0]), f[1]) for f in var['fields']]
            else:
                r = [(f[0], f[1]) for f in var['fields']]
        elif x['k'] == 'tuple':
            r = [(str(i), f) for i, f in enumerate(x['fields'])]
        elif x['k'] == 'closure':
            r = [(str(i), f) for i, f in enumerate(x['upvars'])]
        else:
            r = []
        self._fk[(ctid, v)] = r
        return r

    def needs_drop(self, tid, pred, seen=None):
        """Does a value of this type own something pred(type) accepts?"""
        key = (tid, pred)
        r = self._drops.get(key)
        if r is not None:
            return r
        seen = seen or set()
        if tid in seen:
            return False
        seen.add(tid)
        x = self.types[tid]
        r = pred(tid)
        if not r:
            if x['k'] == 'adt':
                if x['def'] in ('alloc::vec::Vec', 'alloc::boxed::Box'):
                    r = any(self.needs_drop(a, pred, seen) for a in x['args'])
                elif x['def'] == 'core::mem::manually_drop::ManuallyDrop':
                    r = False
                else:
                    r = any(self.needs_drop(f[1], pred, seen)
                            for v in x['variants'] for f in v['fields'])
            elif x['k'] == 'tuple':
                r = any(self.needs_drop(f, pred, seen) for f in x['fields'])
            elif x['k'] == 'closure':
                r = any(self.needs_drop(f, pred, seen) for f in x['upvars'])
            elif x['k'] == 'array' or x['k'] == 'slice':
                r = self.needs_drop(x['elem'], pred, seen)
        self._drops[key] = r
        return r

    def fn_by(self, pred):
        return [f for f in self.fns if pred(f)]

    def find(self, defn, **kw):
        return [f for f in self.fns if f.defn == defn]

    def synthetic(self, key, make):
        f = self.synth.get(key)
        if f is None:
            body = make()
            f = Fn(self, 'syn:' + str(key), {'name': str(key), 'def': str(key), 'body': body,
                                             'kind': 'synthetic', 'local': False, 'abi': 'Rust'})
            self.synth[key] = f
        return f


# ------------------------------------------------------------------- facts

class Facts:
    __slots__ = ('map', 'clauses', 'memo', 'negs')

    def __init__(self):
        self.map = {}
        self.clauses = []
        self.negs = {}
        self.memo = {}

    def copy(self):
        f = Facts()
        f.map = dict(self.map)
        f.clauses = list(self.clauses)
        f.negs = {k: set(v) for k, v in self.negs.items()}
        return f

    def simp(self, x):
        if x.op in ('int', 'sym', 'lit'):
            return self.map.get(x, x)
        if not self.map:
            return x
        return t.subst(x, self.map, self.memo, True)

    def add(self, x):
        work = [x]
        while work:
            x = self.simp(work.pop())
            if x is TRUE:
                continue
            if x is FALSE:
                raise Infeasible()
            if x.op == 'and':
                work.extend(x.args)
                continue
            if x.op in ('or', 'ite'):
                if x not in self.clauses:
                    self.clauses.append(x)
                self.memo = {}
                self.map[x] = TRUE
                self.map[not_(x)] = FALSE
                continue
            self.memo = {}
            if x.op == 'not':
                a = x.args[0]
                self.map[a] = FALSE
                if a.op == 'eq' and (a.args[0].op == 'int' or a.args[1].op == 'int'):
                    k, d = a.args if a.args[0].op == 'int' else (a.args[1], a.args[0])
                    if d.op == 'discr':
                        s = self.negs.setdefault(d, set())
                        s.add(k.args[0])
                        left = [i for i in range(d.args[1]) if i not in s]
                        if not left:
                            raise Infeasible()
                        if len(left) == 1:
                            self.map[d] = I(left[0])
            else:
                self.map[x] = TRUE
                if x.op == 'eq':
                    a, b = x.args
                    if a.op in ('int', 'lit') and b.op not in ('cat', 'slice'):
                        self.map[b] = a
                    elif b.op in ('int', 'lit') and a.op not in ('cat', 'slice'):
                        self.map[a] = b
            if self.clauses:
                cs, self.clauses = self.clauses, []
                for c in cs:
                    self.map.pop(c, None)
                    self.map.pop(not_(c), None)
                self.memo = {}
                work.extend(cs)


_facts_cache = {}


def facts_of(path):
    f = _facts_cache.get(path)
    if f is None:
        if not path:
            f = Facts()
        else:
            base = facts_of(path[:-1])
            if isinstance(base, str):
                f = base
            else:
                f = base.copy()
                try:
                    f.add(path[-1])
                except Infeasible:
                    f = 'infeasible'
        _facts_cache[path] = f
    return f


# ------------------------------------------------------------------- state

class Frame:
    __slots__ = ('fid', 'fn', 'bb')

    def __init__(self, fid, fn, bb):
        self.fid = fid
        self.fn = fn
        self.bb = bb

    def __eq__(self, o):
        return self.fid is o.fid and self.fn is o.fn and self.bb == o.bb

    def __hash__(self):
        return hash((self.fid, self.bb))


class State:
    __slots__ = ('stack', 'si', 'mem', 'path', 'facts', 'events', 'ret', 'kind', 'notes')

    def copy(self):
        s = State()
        s.stack = self.stack
        s.si = self.si
        s.mem = dict(self.mem)
        s.path = self.path
        s.facts = self.facts
        s.events = self.events
        s.ret = self.ret
        s.kind = self.kind
        s.notes = self.notes
        return s

    def assume(self, lit):
        lit = self.facts.simp(lit)
        if lit is TRUE:
            return
        if lit is FALSE:
            raise Infeasible()
        p = self.path + (lit,)
        f = facts_of(p)
        if isinstance(f, str):
            raise Infeasible()
        self.path = p
        self.facts = f

    def top(self):
        return self.stack[-1]


def new_state():
    s = State()
    s.stack = ()
    s.si = 0
    s.mem = {}
    s.path = ()
    s.facts = facts_of(())
    s.events = ()
    s.ret = None
    s.kind = None
    s.notes = ()
    return s


def truth(x):
    """A value of type bool as a formula."""
    if t.isbool(x):
        return x
    if x.op == 'ite':
        return ite(x.args[0], truth(x.args[1]), truth(x.args[2]))
    return not_(eq(x, FALSE))


class Event:
    """Something the outside world can observe. Interned through terms."""


def event(name, *args):
    return mk('ev', name, *args)


class Interp:
    def __init__(self, prog, models, max_steps=3000000):
        self.p = prog
        self.models = models
        self.loops = {}       # loop key -> record
        self.steps = 0
        self.max_steps = max_steps
        self.sites = {}       # event term -> set of 'fn:line'
        self.fns_seen = set()
        self.calls_seen = {}
        self.undecided = set()
        self.trace = False
        self.stat_merges = 0
        self.stat_states = 0
        self.unsized = {}     # pointer -> types it was made a trait object from
        self.reported = {}    # error that was reported -> its types
        self.certain = ()     # operations that are taken to succeed
        self.outcome = None   # decides the outcome of some operations, without an event
        self.maxpeel = 0
        self.given = {}       # what memory the caller owns holds

    # ---------------------------------------------------------- memory

    def root_value(self, S, root):
        v = S.mem.get(root)
        if v is not None:
            return v
        o = root.op
        if root in self.given:
            return self.given[root]
        if o == 'tmp':
            return root.args[0]
        if o == 'deref':
            a = root.args[0]
            if a.op == 'poff':
                return t.at(mk('array', a.args[0]), a.args[1])
            return mk('deref', a)
        if o == 'static':
            st = self.p.statics.get(root.args[0])
            if st is not None and 'init' in st and st['init'] is not None:
                v = self.const(st['ty'], st['init'])
                S.mem[root] = v
                return v
            return mk('staticval', root.args[0])
        if o == 'loc':
            return UNINIT
        return mk('deref', root)

    def project(self, v, e):
        k = e[0]
        if k == 'f':
            ctid, var, i = e[1], e[2], e[3]
            fs = self.p.fields(ctid, var)
            tr = self.p.transparent(ctid)
            if tr is not None:
                return v if fs[i][0] == tr else mk('nofield', v, fs[i][0])
            return self.proj_field(v, ctid, var, i, fs)
        if k == 'i':
            return t.at(v, e[1])
        if k == 's':
            return t.slice_(v, e[1], e[2])
        if k == 'd':
            return v
        raise Undecided('projection %r' % (k,))

    def proj_field(self, v, ctid, var, i, fs):
        o = v.op
        if o == 'agg':
            if v.args[0] != var:
                if v.args[0] is None and var is not None or var is None:
                    pass
                else:
                    return UNINIT
            return v.args[1 + i] if 1 + i < len(v.args) else UNINIT
        if o == 'ite':
            a = self.proj_field(v.args[1], ctid, var, i, fs)
            b = self.proj_field(v.args[2], ctid, var, i, fs)
            if a is UNINIT:
                return b
            if b is UNINIT:
                return a
            return ite(v.args[0], a, b)
        if o == 'uninit':
            return UNINIT
        if o == 'set' or o == 'map' or o in t.SEQ:
            # single-field wrappers of sequences (Tty, Spec internals, ...)
            return mk('nofield', v, fs[i][0])
        return t.fld(v, fs[i][0])

    def load(self, S, root, path):
        v = self.root_value(S, root)
        for e in path:
            v = self.project(v, e)
        return v

    def store_in(self, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k == 'f':
            ctid, var, i = e[1], e[2], e[3]
            fs = self.p.fields(ctid, var)
            tr = self.p.transparent(ctid)
            if tr is not None:
                return self.store_in(v, path[1:], new) if fs[i][0] == tr else v
            if v.op == 'ite' and (v.args[1].op == 'agg' or v.args[2].op == 'agg'):
                return ite(v.args[0], self.store_in(v.args[1], path, new),
                           self.store_in(v.args[2], path, new))
            if v.op == 'agg' and v.args[0] == var and len(v.args) == 1 + len(fs):
                items = list(v.args[1:])
            else:
                items = [self.proj_field(v, ctid, var, j, fs) for j in range(len(fs))]
            items[i] = self.store_in(items[i], path[1:], new)
            return agg(var, *items)
        if k == 'i':
            return t.set_at(v, e[1], self.store_in(t.at(v, e[1]), path[1:], new))
        if k == 's':
            inner = self.store_in(t.slice_(v, e[1], e[2]), path[1:], new)
            b = e[2]
            head = t.slice_(v, I(0), e[1])
            tail = t.EMPTY if b is None else t.slice_(v, b, None)
            return t.cat(head, inner, tail)
        raise Undecided('store through %r' % (k,))

    def store(self, S, root, path, new):
        if not path:
            S.mem[root] = new
        else:
            S.mem[root] = self.store_in(self.root_value(S, root), path, new)

    def deref(self, S, v):
        """(root, path) a pointer value points to."""
        v = S.facts.simp(v)
        while v.op == 'ite':
            # undefined alternatives cannot be the value of a live pointer
            if v.args[1].op == 'uninit':
                v = v.args[2]
            elif v.args[2].op == 'uninit':
                v = v.args[1]
            else:
                raise Fork(v.args[0])
        if v.op == 'ptr':
            return v.args[0], v.args[1]
        if v.op == 'int':
            raise Panic('null dereference')
        if v.op == 'poff':
            self.check_offset(S, v)
        return mk('deref', v), ()

    def check_offset(self, S, v):
        pass

    # Places are pointer terms; an ite of pointers stands for a choice that
    # reads do not have to decide.

    def load_ptr(self, S, p):
        if p.op == 'ite':
            a, b = p.args[1], p.args[2]
            if a is UNINIT or a is FALSE:
                return self.load_ptr(S, b) if a is UNINIT else self.load_fork(S, p)
            if b is UNINIT or b is FALSE:
                return self.load_ptr(S, a) if b is UNINIT else self.load_fork(S, p)
            return ite(p.args[0], self.load_ptr(S, a), self.load_ptr(S, b))
        root, path = self.deref(S, p)
        return self.load(S, root, path)

    def load_fork(self, S, p):
        raise Fork(p.args[0])

    def extend_ptr(self, S, p, e):
        if p.op == 'ite':
            if p.args[1] is UNINIT:
                return self.extend_ptr(S, p.args[2], e)
            if p.args[2] is UNINIT:
                return self.extend_ptr(S, p.args[1], e)
            return ite(p.args[0], self.extend_ptr(S, p.args[1], e), self.extend_ptr(S, p.args[2], e))
        if p.op == 'int':
            if p.args[0] == 0:
                return UNINIT
        root, path = self.deref(S, p)
        return ptr(root, path + (e(S, root, path),))

    def place(self, S, pl):
        """(pointer term, type) of a place."""
        F = S.top()
        loc, proj = pl
        cur = ptr(mk('loc', F.fid, loc), ())
        ty = F.fn.body['locals'][loc]
        var = None
        for e in proj:
            if e == '*':
                v = S.facts.simp(self.load_ptr(S, cur))
                x = self.p.types[ty]
                if v.op == 'int':
                    raise Panic('null dereference')
                cur = v
                if x['k'] in ('ref', 'ptr'):
                    ty = x['elem']
                elif x['k'] == 'adt' and x['def'] == 'alloc::boxed::Box':
                    ty = x['args'][0]
                else:
                    raise Undecided('deref of %s' % x['s'])
                var = None
            elif e == 'oc':
                pass
            elif e[0] == 'f':
                x = self.p.types[ty]
                if x['k'] == 'pat':
                    ty = e[2]
                    continue
                v = var
                if v is None and x['k'] == 'adt' and x['akind'] == 'enum':
                    v = 0
                if x['k'] == 'adt' and x['akind'] == 'struct' or x['k'] != 'adt':
                    v = None
                el = ('f', ty, v, e[1])
                cur = self.extend_ptr(S, cur, lambda S_, r, q: el)
                ty = e[2]
                var = None
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'i':
                idx = self.load(S, mk('loc', F.fid, e[1]), ())
                cur = self.extend_ptr(S, cur, lambda S_, r, q: ('i', idx))
                ty = self.p.types[ty].get('elem')
            elif e[0] == 'ci':
                def ci(S_, r, q):
                    if e[3]:
                        return ('i', t.arith('sub', 64, t.length(self.load(S_, r, q)), I(e[1])))
                    return ('i', I(e[1]))
                cur = self.extend_ptr(S, cur, ci)
                ty = self.p.types[ty].get('elem')
            elif e[0] == 's':
                def sl(S_, r, q):
                    if e[3]:
                        b = None if e[2] == 0 else t.arith(
                            'sub', 64, t.length(self.load(S_, r, q)), I(e[2]))
                    else:
                        b = I(e[2])
                    return ('s', I(e[1]), b)
                cur = self.extend_ptr(S, cur, sl)
            else:
                raise Undecided('place element %r' % (e,))
        return cur, ty

    def norm_ptr(self, p):
        if p.op == 'ptr' and p.args[0].op == 'deref' and not p.args[1]:
            return p.args[0].args[0]
        return p

    def store_ptr(self, S, p, v):
        root, path = self.deref(S, p)
        self.store(S, root, path, v)

    def place_type(self, fn, pl):
        ty = fn.body['locals'][pl[0]]
        for e in pl[1]:
            x = self.p.types[ty]
            if e == '*':
                ty = x['elem'] if 'elem' in x and x['k'] in ('ref', 'ptr') else x['args'][0]
            elif e == 'oc' or e[0] == 'd' or e[0] == 's':
                pass
            elif e[0] == 'f':
                ty = e[2]
            else:
                ty = x['elem']
        return ty

    def op_type(self, fn, o):
        if o[0] in ('c', 'm'):
            return self.place_type(fn, o[1])
        if o[0] == 'k':
            return o[1]
        return None

    # ---------------------------------------------------------- operands

    def const(self, ty, c):
        x = self.p.types[ty]
        k = c[0]
        if k == 'i':
            n = c[1]
            if n < 0:
                n &= (1 << (x.get('bits') or 64)) - 1
            return I(n)
        if k == 'z':
            return self.zst(ty)
        if k == 'b':
            return self.bytes_const(ty, bytes.fromhex(c[1]))
        if k == 'sl':
            return tmp(t.lit(bytes.fromhex(c[1])))
        if k == 'slarr':
            e = self.p.types[x['elem']].get('elem') if 'elem' in x else None
            return tmp(t.cat(*[t.unit(self.const(e, y)) for y in c[1]]))
        if k == 'arr':
            e = x.get('elem')
            return t.cat(*[t.unit(self.const(e, y)) for y in c[1]])
        if k == 'agg':
            if x['k'] == 'adt' and x['def'] in TRANSPARENT:
                fs = self.p.fields(ty, None)
                for (key, fty), y in zip(fs, c[2]):
                    if key == TRANSPARENT[x['def']]:
                        return self.const(fty, y)
            if x['k'] == 'adt' and x['def'] in SEQ_DEFS:
                return t.EMPTY
            if x['k'] == 'adt' and x['def'] == 'std::collections::hash::map::HashMap':
                return mk('map', t.EMPTY)
            var = c[1] if self.p.is_enum(ty) else None
            fs = self.p.fields(ty, var if var is not None else 0)
            return agg(var, *[self.const(f[1], y) for f, y in zip(fs, c[2])])
        if k == 'ref':
            e = x.get('elem')
            if e is None and x['k'] == 'adt':
                # pointer wrapper
                e = x['args'][0]
            return tmp(self.const(e, c[1]))
        if k == 'bptr' and x['k'] == 'ref' and c[1]:
            return tmp(I(int(c[1][:2], 16)))
        if k == 'bptr':
            return tmp(t.lit(bytes.fromhex(c[1])))
        if k == 'fn':
            return mk('fn', c[1])
        if k == 'static':
            if c[2]:
                return mk('staticoff', c[1], c[2])
            return ptr(mk('static', c[1]))
        if k == 'dynref':
            return tmp(self.const(c[1], c[2]))
        if k == 'union':
            return self.const(ty, c[1]) if isinstance(c[1], list) else UNINIT
        if k == 'zeroed':
            return I(0)
        if k == 'undef':
            return UNINIT
        return mk('const', x['s'], repr(c))

    def bytes_const(self, ty, b):
        x = self.p.types[ty]
        if x['k'] in ('array', 'slice', 'str'):
            return t.lit(b)
        if x['k'] in ('uint', 'int', 'bool', 'char'):
            return I(int.from_bytes(b, 'little'))
        return mk('const', x['s'], b.hex())

    def zst(self, ty):
        x = self.p.types[ty]
        if x['k'] in ('fndef',):
            return mk('fn', x.get('fn'))
        if x['k'] == 'array':
            return t.EMPTY
        if x['k'] == 'closure':
            return agg(None)
        if x['k'] == 'tuple':
            return agg(None, *[self.zst(f) for f in x['fields']])
        if x['k'] == 'adt':
            if x['akind'] == 'enum':
                return agg(0)
            fs = self.p.fields(ty, None)
            tr = TRANSPARENT.get(x['def'])
            if tr:
                for key, fty in fs:
                    if key == tr:
                        return self.zst(fty)
            return agg(None, *[self.zst(f[1]) for f in fs])
        return UNIT

    def operand(self, S, o):
        if o[0] in ('c', 'm'):
            return self.load_ptr(S, self.place(S, o[1])[0])
        if o[0] == 'k':
            return self.const(o[1], o[2])
        return FALSE     # runtime checks (UB checks) are off

    def intinfo(self, ty):
        x = self.p.types[ty]
        k = x['k']
        if k == 'uint':
            return x['bits'], False
        if k == 'int':
            return x['bits'], True
        if k == 'bool':
            return 8, False
        if k == 'char':
            return 32, False
        if k in ('ptr', 'ref', 'fnptr'):
            return 64, False
        return None

    def binop(self, S, op, a, b, ty):
        x = self.p.types[ty]
        if x['k'] == 'bool':
            if op in ('BitAnd',):
                return and_(truth(a), truth(b))
            if op in ('BitOr',):
                return or_(truth(a), truth(b))
            a, b = truth(a), truth(b)
            if op == 'Eq':
                return ite(a, b, not_(b))
            if op in ('Ne', 'BitXor'):
                return ite(a, not_(b), b)
        if op == 'Eq':
            return self.cmp_eq(a, b)
        if op == 'Ne':
            return not_(self.cmp_eq(a, b))
        info = self.intinfo(ty)
        if op == 'Offset':
            return self.offset(a, b)
        if info is None:
            return mk('bin', op, a, b)
        bits, signed = info
        lty = ('s' if signed else 'u') + str(bits)
        if op == 'Lt':
            return t.lt(lty, a, b)
        if op == 'Gt':
            return t.lt(lty, b, a)
        if op == 'Le':
            return not_(t.lt(lty, b, a))
        if op == 'Ge':
            return not_(t.lt(lty, a, b))
        if op == 'Cmp':
            return ite(t.lt(lty, a, b), agg(0), ite(eq(a, b), agg(1), agg(2)))
        m = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor',
             'Shl': 'shl', 'Shr': 'shr', 'Div': 'div', 'Rem': 'rem', 'AddUnchecked': 'add',
             'SubUnchecked': 'sub', 'MulUnchecked': 'mul', 'ShlUnchecked': 'shl', 'ShrUnchecked': 'shr'}.get(op)
        if m is None:
            return mk('bin', op, a, b)
        if m in ('div', 'rem', 'shr') and signed:
            if not (a.op == 'int' and b.op == 'int' and t.sval(a.args[0], bits) >= 0 and t.sval(b.args[0], bits) > 0):
                return mk('s' + m, bits, a, b)
        return t.arith(m, bits, a, b)

    def cmp_eq(self, a, b):
        return eq(a, b)

    def offset(self, a, b):
        if a.op == 'poff':
            return mk('poff', a.args[0], t.arith('add', 64, a.args[1], b))
        if a.op == 'ptr' and a.args[1] and a.args[1][-1][0] == 'i':
            e = a.args[1][-1]
            return ptr(a.args[0], a.args[1][:-1] + (('i', t.arith('add', 64, e[1], b)),))
        if a.op == 'ite':
            return ite(a.args[0], self.offset(a.args[1], b), self.offset(a.args[2], b))
        if b.op == 'int' and b.args[0] == 0:
            return a
        return mk('poff', a, b)

    def discr_value(self, S, v, ty):
        x = self.p.types[ty]
        if x['k'] != 'adt' or x['akind'] != 'enum':
            return I(0)
        vs = x['variants']
        d = t.discr(v, len(vs))
        ds = [w['discr'] if w['discr'] is not None else i for i, w in enumerate(vs)]
        if all(n == i for i, n in enumerate(ds)):
            return d
        m = (1 << 64) - 1
        r = I(ds[-1] & m)
        for i in range(len(ds) - 2, -1, -1):
            r = ite(eq(d, I(i)), I(ds[i] & m), r)
        return r

    def rvalue(self, S, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(S, r[1])
        if k == 'ref':
            return self.norm_ptr(self.place(S, r[1])[0])
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(S, o) for o in r[2]]
            if kind[0] == 'array':
                return t.cat(*[t.unit(o) for o in ops])
            if kind[0] in ('tuple', 'closure'):
                return agg(None, *ops)
            if kind[0] == 'adt':
                ty, var, active = kind[1], kind[2], kind[3]
                x = self.p.types[ty]
                tr = TRANSPARENT.get(x['def'])
                if tr is not None:
                    fs = self.p.fields(ty, None)
                    for (key, _), o in zip(fs, ops):
                        if key == tr:
                            return o
                if active is not None:
                    return ops[0]
                return agg(var if x['akind'] == 'enum' else None, *ops)
            if kind[0] == 'rawptr':
                return ops[0]
            return mk('agg?', *ops)
        if k == 'bin':
            a, b = self.operand(S, r[2]), self.operand(S, r[3])
            return self.binop(S, r[1], a, b, r[4])
        if k == 'cbin':
            a, b = self.operand(S, r[2]), self.operand(S, r[3])
            v = self.binop(S, r[1].replace('WithOverflow', ''), a, b, r[4])
            return agg(None, v, FALSE)
        if k == 'un':
            a = self.operand(S, r[2])
            if r[1] == 'Not':
                x = self.p.types[r[3]]
                if x['k'] == 'bool':
                    return not_(truth(a))
                info = self.intinfo(r[3])
                return t.arith('xor', info[0], a, I((1 << info[0]) - 1))
            if r[1] == 'Neg':
                info = self.intinfo(r[3])
                if info:
                    return t.arith('sub', info[0], I(0), a)
            if r[1] == 'PtrMetadata':
                return t.length(self.load_ptr(S, a))
            return mk('un', r[1], a)
        if k == 'cast':
            return self.cast(S, r)
        if k == 'discr':
            p, ty = self.place(S, r[1])
            return self.discr_value(S, self.load_ptr(S, p), ty)
        if k == 'len':
            return t.length(self.load_ptr(S, self.place(S, r[1])[0]))
        if k == 'repeat':
            v = self.operand(S, r[1])
            n = r[2]
            if isinstance(n, int) and n <= 4096:
                return t.cat(*[t.unit(v)] * n)
            return mk('repeat', v, n)
        if k == 'py':
            return r[1](self, S, *[self.operand(S, o) for o in r[2]])
        if k == 'tls':
            return ptr(mk('static', 'tls:' + str(r[1])))
        raise Undecided('rvalue %s' % k)

    def cast(self, S, r):
        kind, o, fty, tty = r[1], r[2], r[3], r[4]
        a = self.operand(S, o)
        if kind.startswith('ReifyFnPointer') or kind.startswith('ClosureFnPointer'):
            if r[5] is not None:
                return mk('fn', r[5])
            return a
        if kind == 'IntToInt':
            fi, ti = self.intinfo(fty), self.intinfo(tty)
            if fi and ti:
                if self.p.types[fty]['k'] == 'bool':
                    return ite(truth(a), I(1), I(0)) if not t.isbool(a) else a
                return t.cast_int(fi[0], fi[1], ti[0], a)
            if self.p.is_enum(fty) and ti:
                d = self.discr_value(S, a, fty)
                return t.cast_int(64, True, ti[0], d)
            return a
        if kind in ('PtrToPtr', 'Unsize', 'MutToConstPointer', 'BoxDerefTransmute', 'PointerExposeProvenance',
                    'PointerWithExposedProvenance', 'UnsafeFnPointer', 'FnPtrToPtr', 'Subtype'):
            if kind == 'Unsize':
                f, to = self.p.types[fty].get('elem'), self.p.types[tty].get('elem')
                if f is not None and to is not None and self.p.types[to]['s'].startswith('dyn '):
                    self.unsized.setdefault(a, set()).add(self.p.types[f]['s'])
            return a
        if kind == 'ArrayToPointer':
            return self.elemptr(a)
        if kind == 'Transmute':
            fi, ti = self.intinfo(fty), self.intinfo(tty)
            if self.p.is_enum(tty) and fi:
                vs = self.p.types[tty]['variants']
                v = UNINIT
                for i, w in enumerate(vs):
                    d = (w['discr'] if w['discr'] is not None else i) & ((1 << fi[0]) - 1)
                    v = ite(eq(a, I(d)), agg(i), v) if i else agg(i)
                return v
            return a
        return mk('cast', kind, a)

    def elemptr(self, p):
        if p.op == 'ptr':
            return ptr(p.args[0], p.args[1] + (('i', I(0)),))
        return p

    # ------------------------------------------------------------ stepping

    def decide(self, S, c):
        c = S.facts.simp(c)
        if c.op == 'int':
            return bool(c.args[0])
        raise Fork(c)

    def push(self, S, fn, args, spread_from=None):
        F = S.top() if S.stack else None
        depth = sum(1 for f in S.stack if f.fn is fn)
        if depth >= 2:
            raise Undecided('recursion through %s' % fn.name)
        fid = mk('fr', F.fid if F else None, fn.idx, F.bb if F else None)
        body = fn.body
        argc = body['argc']
        fn.cfg()
        if len(args) != argc:
            # closure call: the last argument is a tuple
            if args and len(args) <= argc + 1:
                last = args[-1]
                n = argc - (len(args) - 1)
                items = []
                if n:
                    lv = last
                    if lv.op in ('ptr', 'int', 'lit', 'cat', 'unit'):
                        raise Undecided('arity of %s' % fn.name)
                    if lv.op == 'agg':
                        items = list(lv.args[1:1 + n])
                    else:
                        items = [t.fld(lv, str(i)) for i in range(n)]
                args = list(args[:-1]) + items
        elif fn.j.get('abi') == 'RustCall' and body.get('spread') is None and argc >= 2 and spread_from:
            last = args[-1]
            items = list(last.args[1:]) if last.op == 'agg' else [t.fld(last, '0')]
            args = list(args[:-1]) + items[:1]
        if len(args) != argc:
            raise Undecided('arity of %s' % fn.name)
        S.stack = S.stack + (Frame(fid, fn, 0),)
        S.si = 0
        for i, a in enumerate(args):
            S.mem[mk('loc', fid, i + 1)] = a
        self.fns_seen.add(fn)

    def setbb(self, S, bb):
        F = S.top()
        S.stack = S.stack[:-1] + (Frame(F.fid, F.fn, bb),)
        S.si = 0

    def pop_locals(self, S, fid):
        for r in [r for r in S.mem if r.op == 'loc' and r.args[0] is fid]:
            del S.mem[r]

    def do_return(self, S, v):
        F = S.top()
        self.pop_locals(S, F.fid)
        S.stack = S.stack[:-1]
        if not S.stack:
            S.kind = 'return'
            S.ret = v
            return
        self.finish_call(S, v)

    def finish_call(self, S, v):
        G = S.top()
        term = G.fn.blocks[G.bb][1]
        if term[0] == 'call':
            dest, target = term[3], term[4]
        else:                                   # drop glue
            dest, target = None, term[2]
        if dest is not None:
            self.store_ptr(S, self.place(S, dest)[0], v)
        if target is None:
            raise Infeasible()
        self.setbb(S, target)

    def unwind(self, S, msg=None):
        """Continue as if the terminator of the top frame unwound."""
        while True:
            G = S.top()
            term = G.fn.blocks[G.bb][1]
            if term[0] == 'call':
                u = term[5]
            elif term[0] == 'drop':
                u = term[3]
            elif term[0] == 'assert':
                u = term[5]
            else:
                u = 'continue'
            if isinstance(u, int):
                self.setbb(S, u)
                return
            if u == 'terminate':
                S.kind = 'abort'
                S.stack = ()
                return
            self.pop_locals(S, G.fid)
            S.stack = S.stack[:-1]
            if not S.stack:
                S.kind = 'unwind'
                return

    def site(self, S):
        for F in reversed(S.stack):
            if F.fn.j.get('kind') != 'synthetic' and F.fn.j.get('local'):
                tm = F.fn.blocks[F.bb][1]
                return '%s:%s' % (F.fn.name, tm[-1] if isinstance(tm[-1], int) else '?')
        return S.stack[-1].fn.name if S.stack else '?'

    def emit(self, S, name, *args):
        ev = event(name, *args)
        S.events = S.events + (ev,)
        self.sites.setdefault(ev, set()).add(self.site(S))

    def occurrence(self, S, name):
        return sum(1 for e in S.events if e.args[0] == name or e.args[0] == 'loop')

    def step(self, S):
        """Executes one statement or terminator on S (a private copy)."""
        F = S.top()
        stmts, term = F.fn.blocks[F.bb]
        if S.si < len(stmts):
            s = stmts[S.si]
            k = s[0]
            if k == '=':
                dty = None
                v = self.rvalue(S, s[2], dty)
                if not s[1][1]:
                    S.mem[mk('loc', F.fid, s[1][0])] = v
                else:
                    self.store_ptr(S, self.place(S, s[1])[0], v)
            elif k == 'dead':
                S.mem.pop(mk('loc', F.fid, s[1]), None)
            elif k == 'sd':
                p, ty = self.place(S, s[1])
                root, path = self.deref(S, p)
                v = self.load(S, root, path)
                if v.op == 'agg':
                    self.store(S, root, path, mk('agg', s[2], *v.args[1:]))
                else:
                    n = len(self.p.fields(ty, s[2]))
                    self.store(S, root, path, agg(s[2], *[UNINIT] * n))
            elif k == 'assume':
                c = truth(self.operand(S, s[1]))
                if not t.occurs(c, UNINIT):         # a zero-sized value is never written
                    S.assume(c)
            elif k == 'cno':
                pass
            S.si += 1
            return
        k = term[0]
        if k == 'goto':
            self.setbb(S, term[1])
        elif k == 'switch':
            v = self.operand(S, term[1])
            ty = term[4]
            x = self.p.types[ty]
            target = term[3]
            rest = [x[1] for x in term[2]]
            for val, bb in term[2]:
                if x['k'] == 'bool':
                    c = not_(truth(v)) if val == 0 else truth(v)
                else:
                    info = self.intinfo(ty)
                    c = eq(v, I(val & ((1 << info[0]) - 1) if info else val))
                if self.decide(S, c):
                    target = bb
                    break
            self.setbb(S, target)
        elif k == 'return':
            v = self.load(S, mk('loc', F.fid, 0), ())
            if v is UNINIT:
                v = UNIT
            self.do_return(S, v)
        elif k == 'retry':
            self.pop_locals(S, F.fid)
            S.stack = S.stack[:-1]
            for _ in range(self.models.restart(self, S)):
                self.pop_locals(S, S.top().fid)
                S.stack = S.stack[:-1]
            self.setbb(S, S.top().bb)
        elif k == 'unreachable':
            raise Infeasible()
        elif k == 'resume':
            # leave this frame unwinding
            self.pop_locals(S, F.fid)
            S.stack = S.stack[:-1]
            if not S.stack:
                S.kind = 'unwind'
            else:
                self.unwind(S)
        elif k == 'abort':
            S.kind = 'abort'
            S.stack = ()
        elif k == 'drop':
            self.drop(S, term)
        elif k == 'assert':
            c = truth(self.operand(S, term[1]))
            if not term[2]:
                c = not_(c)
            if self.decide(S, c):
                self.setbb(S, term[4])
            else:
                self.panic(S, 'assertion: %s' % (term[3],))
        elif k == 'call':
            self.call(S, term)
        else:
            raise Undecided('terminator %s' % k)

    def panic(self, S, msg):
        S.notes = S.notes + (msg,) if len(S.notes) < 8 else S.notes
        self.emit(S, 'panicked', str(msg)[:60])
        self.unwind(S, msg)

    def drop(self, S, term):
        pl, target, glue, ty = term[1], term[2], term[4], term[5]
        m = self.models.drop
        if m is not None and m(self, S, pl, ty, term):
            return
        if glue is None or not self.p.needs_drop(ty, self.models.drop_matters(self.p)):
            self.setbb(S, target)
            return
        p, _ = self.place(S, pl)
        fn = self.p.fns[glue]
        if fn.body is None:
            self.setbb(S, target)
            return
        self.push(S, fn, [self.norm_ptr(p)])

    def call(self, S, term):
        F = S.top()
        f = term[1]
        args = [self.operand(S, o) for o in term[2]]
        if isinstance(f, list):
            o = f[0] if f and isinstance(f[0], list) else f
            v = S.facts.simp(self.operand(S, o))
            while v.op == 'ite':
                raise Fork(v.args[0])
            if v.op == 'fn':
                f = v.args[0]
                if isinstance(f, int) and self.p.fns[f].j.get('abi') == 'RustCall':
                    # a closure's code also takes the (empty) closure
                    args = [UNIT, agg(None, *args)]
            else:
                try:
                    r = self.models.indirect(self, S, v, args, term)
                except Panic as e:
                    self.panic(S, e.msg)
                    return
                self.finish_call(S, r)
                return
        if isinstance(f, int):
            fn = self.p.fns[f]
        else:
            fn = f if isinstance(f, Fn) else None
            if fn is None:
                raise Undecided('call of %r' % (f,))
        self.invoke(S, fn, args, term)

    def invoke(self, S, fn, args, term):
        try:
            r = self.models.call(self, S, fn, args, term)
        except Panic as e:
            self.panic(S, e.msg)
            return
        except Push as e:
            self.push(S, e.fn, e.args, spread_from=len(e.args) > 1)
            return
        if r is None:
            self.push(S, fn, args, spread_from=len(args) > 1)
            return
        if S.kind is not None:              # the process ended
            return
        self.finish_call(S, r)

    # -------------------------------------------------------------- joins

    def kill_dead(self, S):
        F = S.top()
        rpo, loops, live, taken = F.fn.cfg()
        lv = live.get(F.bb)
        if lv is None:
            return
        fid = F.fid
        dead = [r for r in S.mem if r.op == 'loc' and r.args[0] is fid
                and r.args[1] not in lv and r.args[1] not in taken]
        for r in dead:
            del S.mem[r]

    def merge(self, A, B):
        self.stat_merges += 1
        pa, pb = A.path, B.path
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        ra, rb = pa[n:], pb[n:]
        com = ()
        if ra and rb:
            fa, fb = conjuncts(ra), conjuncts(rb)
            both = set(fa) & set(fb)
            if both:
                com = tuple(x for x in fa if x in both)
                ra, rb = [x for x in fa if x not in both], [x for x in fb if x not in both]
        if not ra or not rb:
            # one is more general: it covers the other
            c = and_(*ra) if ra else and_(*rb)
            if not ra and not rb:
                c = TRUE
            if not ra:
                c = not_(c)
            lits = ()
        else:
            if ra[0] is not_(rb[0]):
                c = ra[0]
                cl = ite(c, and_(*ra[1:]), and_(*rb[1:]))
            else:
                c = and_(*ra)
                cl = or_(and_(*ra), and_(*rb))
            lits = (cl,) if cl is not TRUE else ()
        S = State()
        S.stack = A.stack
        S.si = A.si
        S.events = A.events
        S.ret = A.ret
        S.kind = A.kind
        S.notes = A.notes + tuple(x for x in B.notes if x not in A.notes)
        S.path = pa[:n] + com + lits
        S.facts = facts_of(S.path)
        if isinstance(S.facts, str):
            S.path = pa[:n] + com
            S.facts = facts_of(S.path)
        mem = {}
        am, bm = A.mem, B.mem
        for r, v in am.items():
            w = bm.get(r)
            if w is None:
                if r.op == 'loc':
                    continue
                w = self.root_value(B, r)
            if w is v:
                mem[r] = v
            elif v is UNINIT:
                mem[r] = w
            elif w is UNINIT:
                mem[r] = v
            else:
                mem[r] = self.join_value(c, v, w)
        for r, w in bm.items():
            if r not in am and r.op != 'loc':
                v = self.root_value(A, r)
                mem[r] = w if v is w else self.join_value(c, v, w)
        S.mem = mem
        if A.ret is not None and B.ret is not None:
            S.ret = self.join_value(c, A.ret, B.ret)
        return S

    def join_value(self, c, v, w):
        if v is w:
            return v
        if v.op == 'agg' and w.op == 'agg' and v.args[0] == w.args[0] and len(v.args) == len(w.args):
            return mk('agg', v.args[0], *[self.join_value(c, a, b) for a, b in zip(v.args[1:], w.args[1:])])
        if v is UNINIT:
            return w
        if w is UNINIT:
            return v
        return ite(c, v, w)

    def merge_all(self, states):
        if len(states) == 1:
            return states[0]
        states = list(states)
        # join the pair with the longest common path first
        states.sort(key=lambda s: tuple(x.id for x in s.path))
        while len(states) > 1:
            best, bi = -1, 0
            for i in range(len(states) - 1):
                a, b = states[i].path, states[i + 1].path
                n = 0
                while n < len(a) and n < len(b) and a[n] is b[n]:
                    n += 1
                if n > best:
                    best, bi = n, i
            m = self.merge(states[bi], states[bi + 1])
            states[bi:bi + 2] = [m]
        return states[0]

    # ---------------------------------------------------------- exploration

    def pos(self, S):
        r = []
        for F in S.stack:
            r.append(F.fn.cfg()[0].get(F.bb, 1 << 20))
        return tuple(r)

    def give_up(self, S, e):
        """What follows from here on is not analysed."""
        if e.args and e.args[0] == BUDGET:
            raise e
        N = S.copy()
        why = '%s at %s' % (e, self.site(S))
        self.undecided.add(why)
        N.notes = N.notes + (why,)
        N.kind = 'undecided'
        N.stack = ()
        N.ret = None
        N.mem = {r: v for r, v in N.mem.items() if r.op == 'static'}
        return N

    def run_block(self, S):
        """Runs S to the next block boundary; returns the resulting states."""
        out = []
        work = [S]
        while work:
            S = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Undecided(BUDGET)
                N = S.copy()
                try:
                    self.step(N)
                except Fork as f:
                    for lit in (f.c, not_(f.c)):
                        X = S.copy()
                        try:
                            X.assume(lit)
                        except Infeasible:
                            continue
                        work.append(X)
                    break
                except (Infeasible, NoReturn):
                    break
                except Panic as e:
                    N = S.copy()
                    self.panic(N, e.msg)
                except Undecided as e:
                    N = self.give_up(S, e)
                S = N
                if S.kind is not None:
                    out.append(S)
                    break
                if S.si == 0:
                    out.append(S)
                    break
        return out

    def explore(self, starts, stop=None):
        """Runs states to completion; returns (finished, stopped)."""
        pending = {}
        heap = []
        finished, stopped = {}, {}
        cnt = 0

        def add(S, first=False):
            nonlocal cnt
            if S.kind is not None:
                k = (S.kind, S.events)
                finished.setdefault(k, []).append(S)
                return
            if stop is not None and not first:
                w = stop(S)
                if w:
                    k = (w, S.stack, S.events)
                    stopped.setdefault(k, []).append(S)
                    return
            self.kill_dead(S)
            k = (S.stack, S.events)
            if k in pending:
                pending[k][0].append(S)
                pending[k][1] = pending[k][1] or first
            else:
                pending[k] = [[S], first]
                heapq.heappush(heap, (self.pos(S), cnt, k))
                cnt += 1
        for S in starts:
            add(S, True)
        while heap:
            _, _, k = heapq.heappop(heap)
            ss, first = pending.pop(k)
            S = self.merge_all(ss)
            self.stat_states += 1
            F = S.top()
            rpo, loops, live, taken = F.fn.cfg()
            if F.bb in loops and not (first and stop is not None):
                try:
                    outs = self.run_loop(S)
                except Undecided as e:
                    outs = [self.give_up(S, e)]
            else:
                outs = self.run_block(S)
            for X in outs:
                add(X)
        fin = [self.merge_all(v) for v in finished.values()]
        sto = []
        for (w, _, _), v in stopped.items():
            sto.append((w, self.merge_all(v)))
        return fin, sto

    # ---------------------------------------------------------------- loops

    def iterate(self, S, header, body, depth):
        """One iteration from the header; returns (back, exits)."""
        fid = S.top().fid

        def stop(X):
            if len(X.stack) < depth:
                return 'exit'
            if len(X.stack) == depth and X.stack[-1].fid is fid:
                bb = X.stack[-1].bb
                if bb == header:
                    return 'back'
                if bb not in body:
                    return 'exit'
            return None
        fin, sto = self.explore([S.copy()], stop)
        backs = [s for w, s in sto if w == 'back']
        exits = [s for w, s in sto if w == 'exit'] + fin
        return backs, exits

    def run_loop(self, S):
        from . import loops
        return loops.run(self, S)

    # ------------------------------------------------------------ top level

    def start(self, fn, args, state=None):
        S = state.copy() if state is not None else new_state()
        S.stack = ()
        S.kind = None
        S.ret = None
        S.si = 0
        fid = mk('fr', None, fn.idx, None)
        fn.cfg()
        S.stack = (Frame(fid, fn, 0),)
        for i, a in enumerate(args):
            S.mem[mk('loc', fid, i + 1)] = a
        self.fns_seen.add(fn)
        return S

    def run(self, fn, args, state=None):
        fin, _ = self.explore([self.start(fn, args, state)])
        return fin
