"""What code outside the repository does, as transfer functions.

Everything the analysis does not read itself (the standard library's
containers and system-call wrappers, libc, slog) is described here. Functions
that are not described are pure and uninterpreted, unless they live in a
module that talks to the operating system."""
import re
from . import terms as t
from .terms import mk, I, TRUE, FALSE, UNIT, UNINIT, ptr, tmp, agg, not_, and_, or_, ite, eq
from .interp import Panic, Push, Undecided, Infeasible, truth

NONE = agg(0)


def some(v):
    return agg(1, v)


def ok(v):
    return agg(0, v)


def err(v):
    return agg(1, v)


def option(c, v):
    return ite(c, some(v), NONE)


DONE = object()

EFFECT_PREFIX = ('std::fs::', 'std::os::unix::', 'std::net::', 'std::process::', 'std::thread::',
                 'std::io::stdio', 'libc::', 'std::env::set_', 'std::env::remove_', 'std::os::linux::',
                 'std::os::fd::', 'std::sys::', 'std::sync::mpsc')
PANIC_PREFIX = ('core::panicking::', 'core::option::expect_failed', 'core::option::unwrap_failed',
                'core::result::unwrap_failed', 'core::cell::panic', 'std::panicking::', 'std::rt::begin_panic',
                'alloc::raw_vec::capacity_overflow', 'core::slice::index::slice_',
                'core::str::slice_error_fail', 'alloc::alloc::handle_alloc_error', 'std::rt::panic_fmt',
                'core::slice::copy_from_slice')


_norm = {}


def norm(d):
    r = _norm.get(d)
    if r is None:
        s = d
        # '<impl X>' and '<impl Trait for X>' carry no information beyond the module
        s = re.sub(r'<impl [^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>::', '', s)
        prev = None
        while prev != s:
            prev = s
            s = re.sub(r'::<[^<>]*>', '', s)
            s = re.sub(r"(?<!^)<[^<>]*>", '', s) if not s.startswith('<') else s
        _norm[d] = r = s
    return r


# --------------------------------------------------------------- value access

def load(I_, S, v):
    """The value behind a pointer."""
    return I_.load_ptr(S, S.facts.simp(v))


def peel(I_, S, v, ty):
    """The value behind however many references the type has."""
    x = I_.p.types[ty]
    while x['k'] in ('ref', 'ptr'):
        v = load(I_, S, v)
        ty = x['elem']
        x = I_.p.types[ty]
    return v, ty


def pval(I_, S, v, ty):
    return peel(I_, S, v, ty)[0]


def one_ref(I_, S, v, ty):
    """Strips references until one is left."""
    x = I_.p.types[ty]
    while x['k'] == 'ref' and I_.p.types[x['elem']]['k'] == 'ref':
        v = load(I_, S, v)
        ty = x['elem']
        x = I_.p.types[ty]
    return v


def deep(I_, S, v, d=0):
    """A value in which pointers to memory are replaced by what they point to."""
    if d > 6:
        return v
    if v.op == 'ptr':
        r = v.args[0]
        if r.op in ('loc', 'heap', 'tmp'):
            try:
                return tmp(deep(I_, S, I_.load(S, r, v.args[1]), d + 1))
            except Exception:
                return v
        return v
    if v.op in ('agg', 'set', 'map', 'unit', 'cat') and any(isinstance(a, t.T) for a in v.args):
        return t.rebuild(v.op, [deep(I_, S, a, d + 1) if isinstance(a, t.T) else a for a in v.args])
    if v.op == 'ite':
        return ite(v.args[0], deep(I_, S, v.args[1], d + 1), deep(I_, S, v.args[2], d + 1))
    return v


def sub_ptr(I_, S, p, e):
    return I_.extend_ptr(S, p, lambda S_, r, q: e)


def elem_ptr(I_, S, p, i):
    return sub_ptr(I_, S, p, ('i', i))


def some0(v):
    if v.op == 'agg':
        return v.args[1] if v.args[0] == 1 and len(v.args) > 1 else UNINIT
    if v.op == 'ite':
        a, b = some0(v.args[1]), some0(v.args[2])
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        return ite(v.args[0], a, b)
    if v is UNINIT:
        return v
    return t.fld(v, 'Some.0')


def field(v, i, key):
    if v.op == 'agg':
        return v.args[1 + i] if len(v.args) > 1 + i else UNINIT
    if v.op == 'ite':
        return ite(v.args[0], field(v.args[1], i, key), field(v.args[2], i, key))
    return t.fld(v, key)


# ----------------------------------------------------------- synthetic bodies

class Body:
    def __init__(self, prog, argc, nloc):
        self.u = next(i for i, x in enumerate(prog.types) if x['k'] == 'uint')
        self.argc = argc
        self.blocks = []
        self.n = argc + 1 + nloc
        self.spread = None

    def block(self, stmts, term):
        self.blocks.append([stmts, term])
        return len(self.blocks) - 1

    def done(self):
        return {'locals': [self.u] * self.n, 'argc': self.argc, 'names': {}, 'spread': self.spread,
                'blocks': self.blocks}


def C(n):
    return ['c', [n, []]]


def P(n):
    return [n, []]


def py(n, f, *ops):
    return ['=', P(n), ['py', f, list(ops)], 0]


def ref(n, of):
    return ['=', P(n), ['ref', P(of)], 0]


def call(fn, args, dest, target, unwind='continue'):
    return ['call', fn, args, P(dest), target, unwind, 0]


def switch(b, n, yes, no):
    return ['switch', C(n), [[0, no]], yes, b.u]


def _is_some(I_, S, v):
    d = t.discr(v, 2)
    return ite(eq(d, I(0)), I(0), I(1))


def _some0(I_, S, v):
    return some0(v)


def iter_of(fn, argty=None):
    its = fn.j.get('iters') or []
    if argty is not None:
        for it in its:
            if it['arg'] == argty:
                return it
        return None
    return its[0] if its else None


def consume(prog, it, step, init, fin=None, nargs=1, itarg=1, by_ref=False):
    """A body that feeds every item of the iterator in argument `itarg` to
    step(I,S,acc,item,args...) -> acc."""
    b = Body(prog, nargs, 8)
    k = nargs + 1
    IT, REF, OPT, FL, X, ACC, FR = k, k + 1, k + 2, k + 3, k + 4, k + 5, k + 6
    args = [C(i + 1) for i in range(nargs)]
    start = []
    if by_ref:
        start.append(['=', P(REF), ['use', C(itarg)], 0])
        start.append(py(IT, lambda I_, S: UNIT))
    start.append(py(ACC, init, *args))
    if not by_ref and it.get('into_iter') is not None:
        b.block(start, call(it['into_iter'], [C(itarg)], IT, 1))
    else:
        if not by_ref:
            start.append(['=', P(IT), ['use', C(itarg)], 0])
        b.block(start, ['goto', 1])
    hd = [] if by_ref else [ref(REF, IT)]
    b.block(hd, call(it['next'], [C(REF)], OPT, 2))                        # 1
    b.block([py(FL, _is_some, C(OPT))], switch(b, FL, 3, 4))               # 2
    b.block([py(X, _some0, C(OPT)), py(ACC, step, C(ACC), C(X), *args)], ['goto', 1])   # 3
    b.block([py(0, fin or (lambda I_, S, acc, *a: acc), C(ACC), *args)], ['return'])    # 4
    return b.done()


def search(prog, it, once, kind):
    """position / any / all / find / for_each / count over `&mut self`."""
    b = Body(prog, 2, 10)
    IT, OPT, FL, X, N, T, R, CL = 3, 4, 5, 6, 7, 8, 9, 10
    b.block([py(N, lambda I_, S: I(0))], ['goto', 1])
    b.block([], call(it['next'], [C(1)], OPT, 2))                          # 1
    b.block([py(FL, _is_some, C(OPT))], switch(b, FL, 3, 6))               # 2
    if kind in ('find', 'filter'):
        b.block([py(X, _some0, C(OPT)), py(T, lambda I_, S, x: agg(None, tmp(x)), C(X))],
                call(once, [C(2), C(T)], R, 4))                            # 3
    else:
        b.block([py(X, _some0, C(OPT)), py(T, lambda I_, S, x: agg(None, x), C(X))],
                call(once, [C(2), C(T)], R, 4))
    if kind == 'for_each':
        b.block([], ['goto', 1])
        b.block([], ['unreachable'])
        b.block([py(0, lambda I_, S: UNIT)], ['return'])
        return b.done()
    inc = py(N, lambda I_, S, n: t.arith('add', 64, n, I(1)), C(N))
    tr = py(R, lambda I_, S, r: truth(r), C(R))
    if kind == 'all':
        b.block([tr, inc], switch(b, R, 1, 5))                             # 4
    else:
        b.block([tr], switch(b, R, 5, 7))
    if kind == 'rposition':
        def hit_(I_, S, n, x, it_):
            s = load(I_, S, load(I_, S, it_).args[1])
            return some(t.arith('sub', 64, t.arith('sub', 64, t.length(s), I(1)), n))
        b.block([py(0, hit_, C(N), C(X), C(1))], ['return'])               # 5
        b.block([py(0, lambda I_, S: NONE)], ['return'])                   # 6
        b.block([inc], ['goto', 1])                                        # 7
        return b.done()
    hit = {'position': lambda I_, S, n, x: some(n), 'any': lambda I_, S, n, x: TRUE,
           'all': lambda I_, S, n, x: FALSE, 'find': lambda I_, S, n, x: some(x)}[kind]
    miss = {'position': NONE, 'any': FALSE, 'all': TRUE, 'find': NONE}[kind]
    b.block([py(0, hit, C(N), C(X))], ['return'])                          # 5
    b.block([py(0, lambda I_, S: miss)], ['return'])                       # 6
    b.block([inc], ['goto', 1])                                            # 7
    return b.done()


def push_elem(I_, S, acc, x, *a):
    return t.cat(acc, t.unit(x))


def push_flat(I_, S, acc, x, *a):
    """Items are themselves byte strings (String: FromIterator<&str>)."""
    return t.cat(acc, load(I_, S, x) if x.op == 'ptr' else x)


def catch_body(prog, closure_fn):
    b = Body(prog, 1, 2)
    body = prog.fns[closure_fn].body
    args = [C(1)] + ([C(3)] if body is not None and body['argc'] == 2 else [])   # AssertUnwindSafe takes the unit too
    b.block([py(3, lambda I_, S: UNIT)], ['call', closure_fn, args, P(2), 1, 2, 0])
    b.block([py(0, lambda I_, S, v: ok(v), C(2))], ['return'])
    b.block([py(0, lambda I_, S: err(mk('panic_payload')))], ['return'])
    return b.done()


# ------------------------------------------------------------------- results

def stamp(S):
    """Identifies this point of the history: results of looking at the outside
    world may differ between two looks only if something happened in between."""
    return sum(1 for e in S.events)


def attempt(I_, S, name, *args):
    """Outcome of an operation that may fail: (ok?, tag)."""
    if I_.outcome is not None:
        r = I_.outcome(S, name, args)
        if r is not None:
            return r
    n = sum(1 for e in S.events if e.args[0] in (name, 'loop'))
    I_.emit(S, name, *args)
    if name in I_.certain:
        return TRUE, n
    return mk('ok', name, n, *args), n


def io_err(name, n):
    return mk('ioerr', name, n)


# ----------------------------------------------------------------- the table

TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


class Ctx:
    """One call: interpreter, state, callee, argument values."""
    __slots__ = ('I', 'S', 'fn', 'args', 'term', 'm', 'sig')

    def __init__(self, I_, S, fn, args, term, m):
        self.I, self.S, self.fn, self.args, self.term, self.m = I_, S, fn, args, term, m
        self.sig = fn.j.get('sig') or []

    def val(self, i):
        """Argument i without references."""
        return pval(self.I, self.S, self.args[i], self.sig[i])

    def valty(self, i):
        return peel(self.I, self.S, self.args[i], self.sig[i])

    def load(self, v):
        return load(self.I, self.S, v)

    def store(self, p, v):
        root, path = self.I.deref(self.S, p)
        self.I.store(self.S, root, path, v)

    def seq(self, i):
        """Argument i as a sequence, whether borrowed or owned."""
        return self.val(i)

    def decide(self, c):
        return self.I.decide(self.S, c)

    def selfname(self):
        s = self.fn.j.get('self')
        return self.I.p.tname(s) if s is not None else None

    def targ(self, i):
        return self.fn.j['targs'][i]


# ---- pointers and wrappers

@model('trait core::ops::deref::Deref::deref', 'trait core::ops::deref::DerefMut::deref_mut')
def m_deref(c):
    ty = c.I.p.types[c.sig[0]]['elem']
    d = c.I.p.types[ty].get('def')
    if d in ('core::cell::RefMut', 'core::cell::Ref', 'alloc::boxed::Box', 'std::sync::mutex::MutexGuard',
             'alloc::rc::Rc', 'alloc::sync::Arc', 'alloc::rcs::arc::Arc', 'core::pin::Pin'):
        return c.load(c.args[0])
    return c.args[0]


@model('trait core::convert::AsRef::as_ref', 'trait core::convert::AsMut::as_mut', 'trait core::borrow::Borrow::borrow',
       'trait core::borrow::BorrowMut::borrow_mut')
def m_asref(c):
    return one_ref(c.I, c.S, c.args[0], c.sig[0])


def m_ident(c):
    return c.args[0]


for _n in ('alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_bytes',
           'alloc::string::String::as_str', 'core::str::as_bytes', 'std::path::PathBuf::as_path',
           'std::path::Path::as_os_str', 'std::path::PathBuf::as_os_str', 'std::ffi::os_str::OsString::as_os_str',
           'alloc::ffi::c_str::CString::as_bytes', 'alloc::ffi::c_str::CString::as_c_str',
           'core::ffi::c_str::CStr::to_bytes', 'std::path::Path::new', 'std::ffi::os_str::OsStr::new',
           'std::os::unix::ffi::os_str::OsStrExt::as_bytes', 'trait std::os::unix::ffi::os_str::OsStrExt::as_bytes',
           'trait std::os::unix::ffi::os_str::OsStrExt::from_bytes', 'trait std::os::unix::ffi::os_str::OsStringExt::into_vec',
           'trait std::os::unix::ffi::os_str::OsStringExt::from_vec',
           'core::cell::RefCell::borrow_mut', 'core::cell::RefCell::borrow', 'core::cell::RefCell::get_mut',
           'core::cell::RefCell::new', 'core::cell::UnsafeCell::new', 'core::cell::UnsafeCell::get',
           'core::cell::Cell::new', 'core::cell::RefCell::into_inner', 'core::cell::UnsafeCell::into_inner',
           'core::cell::UnsafeCell::get_mut',
           'core::mem::maybe_uninit::MaybeUninit::as_mut_ptr', 'core::mem::maybe_uninit::MaybeUninit::as_ptr',
           'core::mem::maybe_uninit::MaybeUninit::assume_init', 'core::mem::maybe_uninit::MaybeUninit::new',
           'core::mem::maybe_uninit::MaybeUninit::assume_init_ref', 'core::mem::maybe_uninit::MaybeUninit::assume_init_mut',
           'core::mem::manually_drop::ManuallyDrop::new', 'core::mem::manually_drop::ManuallyDrop::into_inner',
           'core::ptr::const_ptr::cast', 'core::ptr::mut_ptr::cast', 'core::ptr::mut_ptr::cast_const',
           'core::ptr::const_ptr::cast_mut', 'core::ptr::non_null::NonNull::as_ptr',
           'alloc::string::String::into_bytes', 'alloc::vec::Vec::into_boxed_slice', 'alloc::slice::into_vec',
           'alloc::string::String::into_boxed_str', 'std::path::PathBuf::into_os_string',
           'alloc::ffi::c_str::CString::into_bytes', 'std::path::PathBuf::into_boxed_path',
           'std::ffi::os_str::OsString::into_string_lossy', 'core::str::as_bytes_mut',
           'core::hint::black_box', 'core::convert::identity', 'alloc::borrow::Cow::into_owned',
           'alloc::string::String::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked',
           'core::ffi::c_str::CStr::from_bytes_with_nul_unchecked_',
           'std::fs::File::into', 'alloc::vec::Vec::leak', 'alloc::boxed::Box::leak', 'alloc::boxed::Box::into_raw',
           'alloc::boxed::Box::from_raw', 'core::cell::Ref::map_', 'core::slice::as_slice', 'core::str::as_str',
           'core::panic::unwind_safe::AssertUnwindSafe'):
    TABLE[_n] = m_ident


@model('core::mem::maybe_uninit::MaybeUninit::uninit')
def m_uninit(c):
    return UNINIT


@model('core::mem::maybe_uninit::MaybeUninit::zeroed', 'core::mem::zeroed')
def m_zeroed(c):
    ty = c.sig[-1]
    x = c.I.p.types[ty]
    if x['k'] in ('int', 'uint', 'bool', 'ptr'):
        return I(0)
    return mk('zeroed', x['s'])


@model('core::mem::maybe_uninit::MaybeUninit::write')
def m_mu_write(c):
    c.store(c.args[0], c.args[1])
    return c.args[0]


@model('core::mem::forget', 'core::mem::drop_')
def m_forget(c):
    return UNIT


@model('core::mem::replace', 'core::mem::swap_', 'core::cell::RefCell::replace', 'core::cell::Cell::replace')
def m_replace(c):
    v = c.load(c.args[0])
    c.store(c.args[0], c.args[1])
    return v


@model('core::mem::swap')
def m_swap(c):
    a, b = c.load(c.args[0]), c.load(c.args[1])
    c.store(c.args[0], b)
    c.store(c.args[1], a)
    return UNIT


@model('core::mem::take', 'core::cell::RefCell::take', 'core::cell::Cell::take')
def m_take(c):
    v = c.load(c.args[0])
    ty = c.I.p.types[c.sig[0]].get('elem')
    c.store(c.args[0], default_of(c, c.sig[-1]))
    return v


@model('core::cell::Cell::get')
def m_cellget(c):
    return c.load(c.args[0])


@model('core::cell::Cell::set')
def m_cellset(c):
    c.store(c.args[0], c.args[1])
    return UNIT


@model('core::ptr::read', 'core::ptr::const_ptr::read', 'core::ptr::mut_ptr::read', 'core::ptr::read_volatile',
       'core::ptr::read_unaligned')
def m_ptr_read(c):
    return c.load(c.args[0])


@model('core::ptr::write', 'core::ptr::mut_ptr::write', 'core::ptr::write_volatile')
def m_ptr_write(c):
    c.store(c.args[0], c.args[1])
    return UNIT


@model('core::ptr::const_ptr::is_null', 'core::ptr::mut_ptr::is_null')
def m_is_null(c):
    return c.I.cmp_eq(c.args[0], I(0))


@model('core::ptr::const_ptr::as_ref', 'core::ptr::mut_ptr::as_ref', 'core::ptr::mut_ptr::as_mut')
def m_ptr_as_ref(c):
    return option(not_(c.I.cmp_eq(c.args[0], I(0))), c.args[0])


@model('core::ptr::null_mut', 'core::ptr::null')
def m_null(c):
    return I(0)


@model('core::ptr::const_ptr::offset', 'core::ptr::mut_ptr::offset', 'core::ptr::const_ptr::add', 'core::ptr::mut_ptr::add')
def m_offset(c):
    return c.I.offset(c.args[0], c.args[1])


@model('core::ptr::const_ptr::wrapping_add', 'core::ptr::const_ptr::wrapping_offset')
def m_woffset(c):
    return c.I.offset(c.args[0], c.args[1])


@model('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut', 'core::ptr::slice_from_raw_parts')
def m_from_raw_parts(c):
    p = c.args[0]
    if p.op == 'poff' and p.args[1] is I(0):
        p = p.args[0]
    if c.args[1] is I(0):
        return tmp(t.EMPTY)
    return tmp(mk('raw', p, c.args[1]))


@model('alloc::boxed::Box::new', 'alloc::rc::Rc::new', 'alloc::sync::Arc::new', 'alloc::rcs::arc::Arc::new')
def m_box_new(c):
    F = c.S.top()
    h = mk('heap', F.fid, F.bb, sum(1 for r in c.S.mem if r.op == 'heap'))
    c.S.mem[h] = c.args[0]
    return ptr(h)


# ---- construction, copying, comparison

def default_of(c, ty):
    p = c.I.p
    x = p.types[ty]
    if x['k'] in ('int', 'uint', 'bool', 'char'):
        return I(0)
    if x['k'] == 'tuple':
        return agg(None, *[default_of(c, f) for f in x['fields']])
    if x['k'] in ('ref',) and p.is_seq(x['elem']):
        return tmp(t.EMPTY)
    if p.is_seq(ty):
        return t.EMPTY
    d = x.get('def')
    if d == 'std::collections::hash::map::HashMap' or d == 'alloc::collections::btree::map::BTreeMap':
        return mk('map', t.EMPTY)
    if d == 'std::collections::hash::set::HashSet' or d == 'alloc::collections::btree::set::BTreeSet':
        return mk('set', t.EMPTY)
    if d == 'core::option::Option':
        return NONE
    if d == 'std::hash::random::RandomState':
        return UNIT
    raise Undecided('default of %s' % x['s'])


@model('trait core::default::Default::default')
def m_default(c):
    return default_of(c, c.sig[-1])


@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::new',
       'alloc::string::String::with_capacity', 'std::path::PathBuf::new', 'std::ffi::os_str::OsString::new',
       'std::collections::hash::map::HashMap::new', 'std::collections::hash::set::HashSet::new',
       'std::collections::hash::map::HashMap::with_capacity', 'std::collections::hash::set::HashSet::with_capacity',
       'alloc::collections::btree::map::BTreeMap::new', 'alloc::collections::btree::set::BTreeSet::new')
def m_new(c):
    return default_of(c, c.sig[-1])


@model('trait core::clone::Clone::clone', 'trait alloc::borrow::ToOwned::to_owned', 'alloc::slice::to_vec',
       'std::path::Path::to_path_buf', 'std::ffi::os_str::OsStr::to_os_string')
def m_clone(c):
    return c.load(c.args[0])


@model('trait core::clone::Clone::clone_from')
def m_clone_from(c):
    c.store(c.args[0], c.load(c.args[1]))
    return UNIT


def is_strlike(p, ty):
    return p.is_seq(ty)


@model('trait core::convert::From::from', 'trait core::convert::Into::into')
def m_from(c):
    p = c.I.p
    v, ty = c.valty(0)
    to = c.sig[-1]
    x = p.types[to]
    src = p.types[ty]
    if p.is_seq(to) and p.is_seq(ty):
        return v
    if x['k'] in ('int', 'uint') and src['k'] in ('int', 'uint', 'bool', 'char'):
        a, b = c.I.intinfo(ty), c.I.intinfo(to)
        return t.cast_int(a[0], a[1], b[0], v)
    d = x.get('def') or ''
    if d == 'alloc::boxed::Box':
        F = c.S.top()
        h = mk('heap', F.fid, F.bb, sum(1 for r in c.S.mem if r.op == 'heap'))
        c.S.mem[h] = v
        return ptr(h)
    if d == 'core::io::error::Error':
        return mk('ioerr', 'from', deep(c.I, c.S, v))
    if d.endswith('HashMap') and p.is_seq(ty):
        return mk('map', v)
    if d.endswith('HashSet') and p.is_seq(ty):
        return mk('set', v)
    return mk('from', x['s'], deep(c.I, c.S, v))


def generic_eq(c):
    a, ta = c.valty(0)
    b, tb = c.valty(1)
    d = c.I.p.types[ta].get('def') or ''
    if d.endswith(('HashSet', 'BTreeSet')):
        return mk('bool', 'seteq', a, b) if a is not b else TRUE
    if d.endswith(('HashMap', 'BTreeMap')):
        return mk('bool', 'mapeq', a, b) if a is not b else TRUE
    return eq(a, b)


@model('trait core::cmp::PartialEq::eq')
def m_eq(c):
    return generic_eq(c)


@model('trait core::cmp::PartialEq::ne')
def m_ne(c):
    return not_(generic_eq(c))


def lower(x, frm=65, to=97):
    """An ASCII character in lower case (or, the other way round, in upper case)."""
    r = x
    for k in range(25, -1, -1):
        r = ite(eq(x, I(frm + k)), I(to + k), r)
    return r


@model('core::slice::eq_ignore_ascii_case', 'core::str::eq_ignore_ascii_case', 'core::slice::ascii::eq_ignore_ascii_case',
       'std::ffi::os_str::OsStr::eq_ignore_ascii_case')
def m_eqic(c):
    a, b = c.val(0), c.val(1)
    n, m = t.seq_len_const(a), t.seq_len_const(b)
    if (n is None) != (m is None) and (n or m or 0) <= 3:
        # one of them short and of a known length: byte by byte
        (a, b), m = ((a, b), m) if n is None else ((b, a), n)
        return and_(eq(t.length(a), I(m)), *[eq(lower(t.at(a, I(k))), lower(t.at(b, I(k)))) for k in range(m)])
    if n is not None and m is not None and (n != m or n <= 8):
        return FALSE if n != m else and_(*[eq(lower(t.at(a, I(k))), lower(t.at(b, I(k)))) for k in range(n)])
    return eq(t.fun('lower', a), t.fun('lower', b))


@model('core::num::to_ascii_lowercase', 'core::char::methods::to_ascii_lowercase')
def m_lower(c):
    return lower(c.load(c.args[0]))


@model('core::num::to_ascii_uppercase', 'core::char::methods::to_ascii_uppercase')
def m_upper(c):
    return lower(c.load(c.args[0]), 97, 65)


@model('core::num::eq_ignore_ascii_case', 'core::char::methods::eq_ignore_ascii_case')
def m_eqic1(c):
    return eq(lower(c.load(c.args[0])), lower(c.load(c.args[1])))


@model('core::num::make_ascii_lowercase')
def m_make_lower(c):
    c.store(c.args[0], lower(c.load(c.args[0])))
    return UNIT


@model('core::num::make_ascii_uppercase')
def m_make_upper(c):
    c.store(c.args[0], lower(c.load(c.args[0]), 97, 65))
    return UNIT


# ---- sequences

@model('alloc::vec::Vec::len', 'core::slice::len', 'core::str::len', 'alloc::string::String::len',
       'core::ffi::c_str::CStr::count_bytes', 'std::ffi::os_str::OsStr::len')
def m_len(c):
    return t.length(c.val(0))


@model('alloc::vec::Vec::is_empty', 'core::slice::is_empty', 'core::str::is_empty', 'alloc::string::String::is_empty',
       'std::ffi::os_str::OsStr::is_empty', 'core::ffi::c_str::CStr::is_empty')
def m_is_empty(c):
    return seq_empty(c.val(0))


def seq_empty(s):
    if s.op == 'ite':
        return ite(s.args[0], seq_empty(s.args[1]), seq_empty(s.args[2]))
    if s.op == 'cat':
        return and_(*[seq_empty(p) for p in s.args])
    if s.op == 'unit':
        return FALSE
    return eq(t.length(s), I(0))


@model('alloc::vec::Vec::push')
def m_push(c):
    c.store(c.args[0], t.cat(c.load(c.args[0]), t.unit(c.args[1])))
    return UNIT


@model('alloc::string::String::push')
def m_str_push(c):
    ch = c.args[1]
    u = t.unit(ch) if ch.op != 'int' or ch.args[0] < 128 else t.lit(chr(ch.args[0]).encode())
    c.store(c.args[0], t.cat(c.load(c.args[0]), u))
    return UNIT


@model('trait core::ops::arith::AddAssign::add_assign')
def m_add_assign(c):
    if (c.I.p.types[c.valty(0)[1]].get('def') or '') != 'alloc::string::String':
        return c.m.unknown(c, norm(c.fn.defn), None)
    c.store(c.args[0], t.cat(c.load(c.args[0]), c.val(1)))
    return UNIT


@model('alloc::vec::Vec::extend_from_slice', 'alloc::string::String::push_str', 'std::ffi::os_str::OsString::push')
def m_extend_from_slice(c):
    c.store(c.args[0], t.cat(c.load(c.args[0]), c.val(1)))
    return UNIT


@model('alloc::vec::Vec::append')
def m_append(c):
    c.store(c.args[0], t.cat(c.load(c.args[0]), c.load(c.args[1])))
    c.store(c.args[1], t.EMPTY)
    return UNIT


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def m_clear(c):
    c.store(c.args[0], t.EMPTY)
    return UNIT


@model('alloc::vec::Vec::pop')
def m_pop(c):
    s = c.load(c.args[0])
    n = t.length(s)
    parts = t.seq_parts(s)
    if parts and parts[-1].op == 'unit':
        c.store(c.args[0], t.cat(*parts[:-1]))
        return some(parts[-1].args[0])
    e = seq_empty(s)
    last = t.arith('sub', 64, n, I(1))
    c.store(c.args[0], ite(e, s, t.slice_(s, I(0), last)))
    return option(not_(e), t.at(s, last))


@model('alloc::vec::Vec::truncate')
def m_truncate(c):
    s = c.load(c.args[0])
    n = c.args[1]
    c.store(c.args[0], ite(t.lt('u64', n, t.length(s)), t.slice_(s, I(0), n), s))
    return UNIT


@model('alloc::vec::Vec::insert')
def m_vec_insert(c):
    s = c.load(c.args[0])
    n = c.args[1]
    if c.decide(t.lt('u64', t.length(s), n)):
        raise Panic('insertion index out of bounds')
    c.store(c.args[0], t.cat(t.slice_(s, I(0), n), t.unit(c.args[2]), t.slice_(s, n, None)))
    return UNIT


@model('alloc::vec::Vec::reserve', 'alloc::vec::Vec::shrink_to_fit', 'alloc::string::String::reserve',
       'alloc::vec::Vec::reserve_exact')
def m_reserve(c):
    return UNIT


@model('alloc::vec::Vec::resize')
def m_resize(c):
    s = c.load(c.args[0])
    n = c.args[1]
    if n.op == 'int' and n.args[0] <= 4096 and s is t.EMPTY:
        c.store(c.args[0], t.cat(*[t.unit(c.args[2])] * n.args[0]))
    else:
        c.store(c.args[0], mk('resize', s, n, c.args[2]))
    return UNIT


@model('alloc::vec::from_elem')
def m_from_elem(c):
    n = c.args[1]
    if n.op == 'int' and n.args[0] <= 4096:
        return t.cat(*[t.unit(c.args[0])] * n.args[0])
    return mk('repeat', c.args[0], n)


@model('alloc::slice::repeat', 'alloc::str::repeat')
def m_repeat(c):
    n = c.args[1]
    if n.op == 'int' and n.args[0] <= 4096:
        return t.cat(*[c.val(0)] * n.args[0])
    return mk('repeatseq', c.val(0), n)


def seqjoin(s, sep):
    """Elements of s (sequences), separated."""
    parts = t.seq_parts(s)
    out = []
    emitted = FALSE        # has anything been put out yet
    for p in parts:
        if p.op == 'unit':
            if out:
                out.append(ite(emitted, sep, t.EMPTY))
            out.append(p.args[0])
            emitted = TRUE
        elif p.op == 'ite' and p.args[2] is t.EMPTY and p.args[1].op == 'unit':
            if out:
                out.append(ite(and_(emitted, p.args[0]), sep, t.EMPTY))
            out.append(ite(p.args[0], p.args[1].args[0], t.EMPTY))
            emitted = or_(emitted, p.args[0])
        else:
            return mk('join', s, sep)
    return t.cat(*out)


@model('alloc::slice::join', 'alloc::slice::concat')
def m_join(c):
    s = c.val(0)
    # elements may be references
    x = c.I.p.types[c.sig[0]]
    e = c.I.p.types[x['elem']].get('elem')
    if len(c.args) > 1:
        sep, sty = c.valty(1)
        if c.I.p.types[sty]['k'] in ('uint', 'char', 'int'):
            sep = t.unit(sep)
    else:
        sep = t.EMPTY
    if e is not None and c.I.p.types[e]['k'] == 'ref':
        v = t.x(t.bdepth(s))
        def strip(p):
            if p.op == 'unit':
                return t.unit(c.load(p.args[0]))
            if p.op == 'ite':
                return ite(p.args[0], strip(p.args[1]), strip(p.args[2]))
            if p.op == 'cat':
                return t.cat(*[strip(y) for y in p.args])
            if p.op == 'lit':
                return p
            return t.star(p, t.unit(mk('deref', v)), v)
        s = t.cat(*[strip(p) for p in t.seq_parts(s)])
    return t.joined(s, sep)


def range_of(c, i):
    """(start, end, inclusive?) of an index argument; None for a plain index."""
    v = c.args[i]
    ty = c.sig[i]
    x = c.I.p.types[ty]
    d = x.get('def', '')
    if d.endswith('::Range'):
        return field(v, 0, 'start'), field(v, 1, 'end')
    if d.endswith('::RangeTo'):
        return I(0), field(v, 0, 'end')
    if d.endswith('::RangeFrom'):
        return field(v, 0, 'start'), None
    if d.endswith('::RangeFull'):
        return I(0), None
    if d.endswith('::RangeToInclusive'):
        return I(0), t.arith('add', 64, field(v, 0, 'end'), I(1))
    if d.endswith('::RangeInclusive'):
        return field(v, 0, 'start'), t.arith('add', 64, field(v, 1, 'end'), I(1))
    return None


def bad_range(s, a, b):
    n = t.length(s)
    if b is None:
        return t.lt('u64', n, a)
    r = t.lt('u64', n, b)
    if a is not I(0):
        r = or_(r, t.lt('u64', b, a))
    return r


@model('trait core::ops::index::Index::index', 'trait core::ops::index::IndexMut::index_mut',
       'core::slice::index::index', 'core::str::traits::index')
def m_index(c):
    p = c.args[0]
    ty = c.I.p.types[c.sig[0]]['elem']
    d = c.I.p.types[ty].get('def', '')
    if d.endswith(('HashMap', 'BTreeMap')):
        r = map_get(c, c.load(p), c.val(1))
        if not c.decide(eq(t.discr(r, 2), I(1))):
            raise Panic('key not found')
        return some0(c.S.facts.simp(r))
    s = c.load(p)
    r = range_of(c, 1)
    if r is None:
        if not c.decide(t.lt('u64', c.args[1], t.length(s))):
            raise Panic('index out of bounds')
        return elem_ptr(c.I, c.S, p, c.args[1])
    a, b = r
    if c.decide(bad_range(s, a, b)):
        raise Panic('range out of bounds')
    if a is I(0) and b is None:
        return p
    return sub_ptr(c.I, c.S, p, ('s', a, b))


@model('core::slice::get', 'core::str::get', 'core::slice::get_mut')
def m_get(c):
    p = c.args[0]
    s = c.load(p)
    r = range_of(c, 1)
    if r is None:
        return option(t.lt('u64', c.args[1], t.length(s)), elem_ptr(c.I, c.S, p, c.args[1]))
    a, b = r
    return option(not_(bad_range(s, a, b)), sub_ptr(c.I, c.S, p, ('s', a, b)) if not (a is I(0) and b is None) else p)


@model('core::slice::first', 'core::slice::first_mut')
def m_first(c):
    p = c.args[0]
    return option(not_(seq_empty(c.load(p))), elem_ptr(c.I, c.S, p, I(0)))


@model('core::slice::last')
def m_last(c):
    p = c.args[0]
    s = c.load(p)
    return option(not_(seq_empty(s)), elem_ptr(c.I, c.S, p, t.arith('sub', 64, t.length(s), I(1))))


@model('core::slice::split_at', 'core::str::split_at')
def m_split_at(c):
    p = c.args[0]
    s = c.load(p)
    if c.decide(t.lt('u64', t.length(s), c.args[1])):
        raise Panic('split index out of bounds')
    return agg(None, sub_ptr(c.I, c.S, p, ('s', I(0), c.args[1])), sub_ptr(c.I, c.S, p, ('s', c.args[1], None)))


@model('core::slice::split_first')
def m_split_first(c):
    p = c.args[0]
    s = c.load(p)
    return option(not_(seq_empty(s)), agg(None, elem_ptr(c.I, c.S, p, I(0)), sub_ptr(c.I, c.S, p, ('s', I(1), None))))


@model('core::slice::split_last')
def m_split_last(c):
    p = c.args[0]
    s = c.load(p)
    k = t.arith('sub', 64, t.length(s), I(1))
    return option(not_(seq_empty(s)), agg(None, elem_ptr(c.I, c.S, p, k), sub_ptr(c.I, c.S, p, ('s', I(0), k))))


@model('core::mem::size_of', 'core::mem::align_of')
def m_size_of(c):
    n = c.I.p.types[c.targ(0)].get('size' if c.fn.defn.endswith('size_of') else 'align')
    return NotImplemented if n is None else I(n)


@model('core::slice::contains')
def m_contains(c):
    return t.in_(c.val(1), c.load(c.args[0]))


def begins(a, b):
    n = t.length(b)
    return and_(not_(t.lt('u64', t.length(a), n)), eq(t.slice_(a, I(0), n), b))


def finishes(a, b):
    n, k = t.length(a), t.length(b)
    return and_(not_(t.lt('u64', n, k)), eq(t.slice_(a, t.arith('sub', 64, n, k), None), b))


@model('core::slice::starts_with', 'core::slice::ends_with', 'core::str::starts_with', 'core::str::ends_with')
def m_starts(c):
    a = c.val(0)
    b = char_pat(c, 1) if 'str' in c.fn.defn else c.val(1)
    if b is None or t.seq_len_const(b) is None:
        return mk('bool', 'ext', mk('ext', norm(c.fn.defn), 'bool', a, c.args[1]))
    if t.seq_len_const(b) == 0:
        return TRUE
    return (begins if 'starts' in c.fn.defn else finishes)(a, b)


@model('alloc::boxed::Box::new_uninit')
def m_box_uninit(c):
    F = c.S.top()
    h = mk('heap', F.fid, F.bb, sum(1 for r in c.S.mem if r.op == 'heap'))
    c.S.mem[h] = t.UNINIT
    return ptr(h)


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_box_into_vec(c):
    return c.load(c.args[0])


@model('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def m_copy_from_slice(c):
    c.store(c.args[0], c.load(c.args[1]))
    return UNIT


@model('core::slice::fill')
def m_fill(c):
    s = c.load(c.args[0])
    n = t.seq_len_const(s)
    if n is None:
        c.store(c.args[0], mk('filled', t.length(s), c.args[1]))
    else:
        c.store(c.args[0], t.cat(*[t.unit(c.args[1])] * n))
    return UNIT


@model('core::slice::as_ptr', 'core::slice::as_mut_ptr', 'core::str::as_ptr', 'alloc::vec::Vec::as_ptr',
       'alloc::vec::Vec::as_mut_ptr', 'core::ffi::c_str::CStr::as_ptr', 'alloc::ffi::c_str::CString::into_raw')
def m_as_ptr(c):
    s = c.val(0)
    if 'c_str' in c.fn.defn:
        return mk('cptr', s)
    if s.op == 'lit' and 0 in s.args[0]:
        return mk('cptr', t.lit(s.args[0][:s.args[0].index(0)]))
    if s.op == 'cat' and s.args[-1].op == 'lit' and s.args[-1].args[0].endswith(b'\0'):
        return mk('cptr0', t.cat(*s.args[:-1], t.lit(s.args[-1].args[0][:-1])))
    p = c.args[0]
    root, path = c.I.deref(c.S, p)
    return mk('poff', ptr(root, path), I(0)) if root.op == 'loc' else mk('bufptr', s)


# ---- strings

@model('core::str::converts::from_utf8')
def m_from_utf8(c):
    s = c.val(0)
    if s.op == 'lit':
        try:
            s.args[0].decode('utf-8')
            return ok(c.args[0])
        except UnicodeDecodeError:
            return err(mk('utf8err', s))
    return ite(mk('valid', s), ok(c.args[0]), err(mk('utf8err', s)))


@model('alloc::string::String::from_utf8')
def m_string_from_utf8(c):
    s = c.args[0]
    return ite(mk('valid', s), ok(s), err(mk('fromutf8err', s)))


@model('core::ffi::c_str::CStr::to_str', 'std::ffi::os_str::OsStr::to_str', 'std::path::Path::to_str',
       'alloc::ffi::c_str::CString::to_str')
def m_to_str(c):
    s = c.val(0)
    if c.I.p.types[c.sig[-1]]['def'] == 'core::option::Option':
        return option(mk('valid', s), c.args[0])
    return ite(mk('valid', s), ok(c.args[0]), err(mk('utf8err', s)))


@model('alloc::string::String::from_utf8_lossy', 'std::path::Path::to_string_lossy', 'std::ffi::os_str::OsStr::to_string_lossy',
       'core::ffi::c_str::CStr::to_string_lossy', 'alloc::ffi::c_str::to_string_lossy', 'alloc::ffi::c_str::CStr::to_string_lossy')
def m_lossy(c):
    return t.lossy(c.val(0))


@model('alloc::ffi::c_str::CString::new')
def m_cstring_new(c):
    s = c.val(0)
    if s.op == 'lit':
        return err(mk('nulerr', s)) if 0 in s.args[0] else ok(s)
    return ite(mk('nul', s), err(mk('nulerr', s)), ok(s))


@model('core::ffi::c_str::CStr::from_ptr')
def m_cstr_from_ptr(c):
    p = c.S.facts.simp(c.args[0])
    if p.op == 'cptr':
        return tmp(p.args[0])
    if p.op == 'ite':
        return ite(p.args[0], m_cstr_ptr(p.args[1]), m_cstr_ptr(p.args[2]))
    return m_cstr_ptr(p)


def m_cstr_ptr(p):
    return tmp(p.args[0]) if p.op == 'cptr' else tmp(mk('cstr', p))


@model('core::ffi::c_str::CStr::to_bytes_with_nul', 'alloc::ffi::c_str::CString::as_bytes_with_nul')
def m_with_nul(c):
    return tmp(t.cat(c.val(0), t.lit(b'\0')))


@model('core::ffi::c_str::CStr::from_bytes_with_nul', 'core::ffi::c_str::CStr::from_bytes_with_nul_unchecked')
def m_from_with_nul(c):
    s = c.val(0)
    if s.op == 'lit' and s.args[0].endswith(b'\0') and 0 not in s.args[0][:-1]:
        r = tmp(t.lit(s.args[0][:-1]))
        return r if c.I.p.types[c.sig[-1]]['k'] == 'ref' else ok(r)
    raise Undecided('from_bytes_with_nul')


def parse_to(c, ty, s, radix=10):
    p = c.I.p
    x = p.types[ty]
    if p.is_seq(ty):
        return ok(s)
    n = x['s']
    if s.op == 'lit' and x['k'] == 'uint' and radix == 10:
        try:
            v = int(s.args[0].decode()) if re.fullmatch(rb'\+?[0-9]+', s.args[0]) else None
        except ValueError:
            v = None
        if v is not None and v < 1 << x['bits']:
            return ok(I(v))
        return err(mk('perr', n, s))
    if radix != 10:
        n = '%s/%s' % (n, radix)
    if x['k'] == 'bool':
        yes, no = eq(s, t.lit(b'true')), eq(s, t.lit(b'false'))
        return ite(or_(yes, no), ok(yes), err(mk('perr', n, s)))
    v = t.pval(n, s)
    return ite(t.parsed(n, s), ok(v), err(mk('perr', n, s)))


@model('core::str::parse', 'trait core::str::traits::FromStr::from_str')
def m_parse(c):
    r = c.I.p.types[c.sig[-1]]
    return parse_to(c, r['args'][0], c.val(0))


@model('core::num::from_str_radix')
def m_radix(c):
    r = c.I.p.types[c.sig[-1]]
    n = c.args[1]
    if n.op != 'int':
        raise Undecided('radix')
    return parse_to(c, r['args'][0], c.val(0), n.args[0])


def _wrapping(op):
    def f(c):
        x = c.I.p.types[c.sig[-1]]
        if x['k'] not in ('int', 'uint') or x['k'] == 'int' and op in ('div', 'rem', 'shr'):
            raise Undecided('signed wrapping_%s' % op)
        return t.arith(op, x['bits'], c.args[0], c.args[1])
    return f


for _op in ('add', 'sub', 'mul', 'shl', 'shr', 'div', 'rem'):
    model('core::num::wrapping_' + _op)(_wrapping(_op))


def _bounded(op, how):
    def f(c):
        a, b = c.args
        x = c.I.p.types[c.sig[0]]
        if x['k'] != 'uint':
            raise Undecided('signed %s_%s' % (how, op))
        r = t.arith(op, x['bits'], a, b)
        over = t.lt('u%d' % x['bits'], r, a) if op == 'add' else t.lt('u%d' % x['bits'], a, b)
        if how == 'checked':
            return ite(over, NONE, some(r))
        if how == 'overflowing':
            return agg(None, r, over)
        return ite(over, I((1 << x['bits']) - 1 if op == 'add' else 0), r)
    return f


for _op in ('add', 'sub'):
    for _how in ('checked', 'saturating', 'overflowing'):
        model('core::num::%s_%s' % (_how, _op))(_bounded(_op, _how))


@model('core::num::max_value')
def m_maxval(c):
    return I((1 << c.I.p.types[c.sig[-1]]['bits']) - 1)


@model('core::num::min_value')
def m_minval(c):
    x = c.I.p.types[c.sig[-1]]
    return I(0 if x['k'] == 'uint' else 1 << (x['bits'] - 1))


def char_pat(c, i):
    """A split pattern: the separator as a literal, or None."""
    v = c.args[i]
    ty = c.sig[i]
    x = c.I.p.types[ty]
    if x['k'] == 'char':
        return v if v.op != 'int' else t.lit(chr(v.args[0]).encode())
    if x['k'] == 'ref' and c.I.p.is_seq(x['elem']):
        return c.val(i)
    return None


def separated(c, i, done, key):
    """done(I, S, separator or None, condition on `ch`): for a pattern that is a predicate, after evaluating it
    on a symbolic character."""
    once = c.I.p.types[c.sig[i]].get('once')
    ch = mk('ch')

    def fin(I_, S, r):
        r = truth(r)
        sp = None
        if r.op == 'eq' and ch in r.args:
            o = r.args[0] if r.args[1] is ch else r.args[1]
            if o.op == 'int':
                sp = t.lit(chr(o.args[0]).encode())
        return done(I_, S, sp, r)
    b = Body(c.I.p, 1, 3)
    slc = 'slice' in c.fn.defn
    arg = (lambda I_, S: agg(None, tmp(ch))) if slc else (lambda I_, S: agg(None, ch))
    b.block([py(2, arg)], call(once, [C(1), C(2)], 3, 1))
    b.block([py(0, fin, C(3))], ['return'])
    raise Push(c.I.p.synthetic((key[0], once) + key[1:], b.done), [c.args[i]])


@model('core::str::split', 'core::slice::split')
def m_split(c):
    sep = char_pat(c, 1)
    s = c.val(0)
    if sep is None:
        if c.I.p.types[c.sig[1]].get('once') is None:
            return agg(None, tmp(mk('split?', s, deep(c.I, c.S, c.args[1]))), I(0))
        separated(c, 1, lambda I_, S, sp, r: agg(
            None, tmp(t.split(s, sp) if sp is not None else mk('splitp', s, r)), I(0)), ('split', s))
    return agg(None, tmp(t.split(s, sep)), I(0))


@model('core::str::splitn', 'core::slice::splitn')
def m_splitn(c):
    n, p, s = c.args[1], c.args[0], c.val(0)
    if n.op != 'int' or n.args[0] > 2:
        raise Undecided('splitn')

    def done(I_, S, sp, r=None):
        if n.args[0] < 2:
            return agg(None, tmp(t.cat(*[t.unit(p)] * n.args[0])), I(0))
        if sp is None or len(sp.args[0]) != 1:
            raise Undecided('splitn')
        b = I(sp.args[0][0])
        v = t.x(0)
        if not I_.decide(S, t.in_(b, s)):
            return agg(None, tmp(t.unit(p)), I(0))
        pos = mk('pos', s, eq(v, b), v)
        return agg(None, tmp(t.cat(t.unit(sub_ptr(I_, S, p, ('s', I(0), pos))), t.unit(
            sub_ptr(I_, S, p, ('s', t.arith('add', 64, pos, I(1)), None))))), I(0))
    sep = char_pat(c, 2)
    if sep is None:
        if c.I.p.types[c.sig[2]].get('once') is None:
            raise Undecided('splitn')
        separated(c, 2, done, ('splitn', n, p, s))
    if sep.op != 'lit':
        raise Undecided('splitn')
    return done(c.I, c.S, sep)


@model('core::str::split_once')
def m_split_once(c):
    sep = char_pat(c, 1)
    if sep is None:
        raise Undecided('split_once')
    return split_once(c, c.args[0], c.load(c.args[0]), sep)


def split_once(c, p, s, sep):
    b = sep.args[0][0] if sep.op == 'lit' and len(sep.args[0]) == 1 else None
    if b is None:
        raise Undecided('split_once')
    v = t.x(0)
    pos = mk('pos', s, eq(v, I(b)), v)
    has = t.in_(I(b), s)
    return option(has, agg(None, sub_ptr(c.I, c.S, p, ('s', I(0), pos)),
                           sub_ptr(c.I, c.S, p, ('s', t.arith('add', 64, pos, I(1)), None))))


@model('core::str::find')
def m_str_find(c):
    sep = char_pat(c, 1)
    s = c.val(0)
    if sep is None or sep.op != 'lit' or len(sep.args[0]) != 1:
        return mk('find', s, deep(c.I, c.S, c.args[1]))
    v = t.x(0)
    b = I(sep.args[0][0])
    return option(t.in_(b, s), mk('pos', s, eq(v, b), v))


@model('core::str::chars', 'core::str::bytes')
def m_chars(c):
    return agg(None, c.args[0], I(0))


FUNS = {'to_ascii_lowercase': 'lower', 'to_ascii_uppercase': 'upper', 'make_ascii_lowercase': 'lower', 'make_ascii_uppercase': 'upper',
        'to_lowercase': 'ulower', 'to_uppercase': 'uupper'}
FUNS.update({n: n for n in ('trim', 'trim_start', 'trim_end', 'trim_ascii', 'trim_ascii_start', 'trim_ascii_end')})


def m_text_fun(c):
    n = norm(c.fn.defn).rsplit('::', 1)[-1]
    v = t.fun(FUNS[n], c.val(0))
    if n.startswith('make_'):
        c.store(c.args[0], v)
        return UNIT
    return tmp(v) if c.I.p.types[c.sig[-1]]['k'] == 'ref' else v


for _n in FUNS:
    for _m in ('core::str::', 'alloc::str::', 'core::slice::', 'alloc::slice::', 'core::slice::ascii::', 'std::ffi::os_str::OsStr::'):
        TABLE[_m + _n] = m_text_fun


# ---- paths

@model('std::path::Path::join')
def m_path_join(c):
    return path_join(c.val(0), c.val(1))


def path_join(a, b):
    if a.op == 'lit' and b.op == 'lit':
        return t.pjoin(a, b)
    if b.op == 'lit' and b.args[0].startswith(b'/'):
        return b
    return mk('pjoin', a, b)


@model('std::path::PathBuf::push')
def m_path_push(c):
    c.store(c.args[0], path_join(c.load(c.args[0]), c.val(1)))
    return UNIT


def rel_name(s):
    """s is certainly a plain file name (no '/', not empty, not dots)."""
    if s.op == 'cat':
        if not all(p.op in ('dec', 'sdec') or (p.op == 'lit' and b'/' not in p.args[0]) for p in s.args):
            return False
        return any(p.op in ('dec', 'sdec') for p in s.args)
    return s.op in ('dec', 'sdec')


@model('std::path::Path::parent')
def m_parent(c):
    s = c.val(0)
    if s.op == 'pjoin' and rel_name(s.args[1]):
        return some(tmp(s.args[0]))
    return option(mk('has_parent', s), tmp(mk('parent', s)))


@model('std::path::Path::starts_with', 'std::path::Path::ends_with')
def m_path_side(c):
    return t.path_side('path_starts' if 'starts' in c.fn.defn else 'path_ends', c.val(0), c.val(1))


@model('std::path::Path::file_name')
def m_file_name(c):
    s = c.val(0)
    if s.op == 'pjoin' and rel_name(s.args[1]):
        return some(tmp(s.args[1]))
    if s.op == 'lit' and b'/' in s.args[0] and not s.args[0].endswith((b'/', b'.')):
        return some(tmp(t.lit(s.args[0].rsplit(b'/', 1)[1])))
    return option(mk('has_name', s), tmp(mk('file_name', s)))


@model('std::path::Path::display')
def m_path_display(c):
    return mk('pathdisplay', c.val(0))


@model('std::path::Path::is_absolute', 'std::path::Path::has_root', 'std::path::Path::is_relative')
def m_is_abs(c):
    return mk('bool', norm(c.fn.defn), c.val(0))


# ---- maps and sets

def map_get(c, m, k):
    """Option<pointer to value>."""
    if m.op == 'ite':
        return ite(m.args[0], map_get(c, m.args[1], k), map_get(c, m.args[2], k))
    if m.op == 'map':
        def over(seq, r):
            for p in t.seq_parts(seq):
                if p.op == 'unit':
                    e = p.args[0]
                    g = eq(field(e, 0, '0'), k)
                    if e.op == 'agg' and e.args[0] == 'keep':
                        g = and_(g, eq(t.discr(r, 2), I(0)))
                    r = ite(g, some(tmp(field(e, 1, '1'))), r)
                elif p.op == 'ite':
                    x, y = over(p.args[1], r), over(p.args[2], r)
                    r = None if x is None or y is None else ite(p.args[0], x, y)
                else:
                    r = None
                if r is None:
                    break
            return r
        r = over(m.args[0], NONE)
        return option(mk('has', m, k), tmp(mk('mapval', m, k))) if r is None else r
    return option(mk('has', m, k), tmp(mk('mapval', m, k)))


@model('std::collections::hash::map::HashMap::get', 'alloc::collections::btree::map::BTreeMap::get')
def m_map_get(c):
    return map_get(c, c.load(c.args[0]), c.val(1))


@model('std::collections::hash::map::HashMap::contains_key', 'alloc::collections::btree::map::BTreeMap::contains_key')
def m_map_contains(c):
    r = map_get(c, c.load(c.args[0]), c.val(1))
    return eq(t.discr(r, 2), I(1))


@model('std::collections::hash::map::HashMap::insert', 'alloc::collections::btree::map::BTreeMap::insert')
def m_map_insert(c):
    m = c.load(c.args[0])
    old = map_get(c, m, c.args[1])
    pair = t.unit(agg(None, c.args[1], c.args[2]))
    if m.op == 'map':
        n = mk('map', t.cat(m.args[0], pair))
    else:
        n = mk('map', t.cat(mk('entries', m), pair))
    c.store(c.args[0], n)
    has = eq(t.discr(old, 2), I(1))
    return option(has, load_opt(c, old)) if old is not NONE else NONE


def load_opt(c, o):
    v = some0(o)
    if v.op == 'ptr' and v.args[0].op == 'tmp':
        return v.args[0].args[0]
    if v.op == 'ite':
        return mk('oldvalue')
    return mk('oldvalue')


@model('std::collections::hash::map::HashMap::entry')
def m_map_entry(c):
    return agg(None, c.args[0], c.args[1])


def keep(I_, S, e, v):
    """Adds an entry that does not replace one with the same key."""
    m = load(I_, S, e.args[1])
    I_.store(S, e.args[1].args[0], e.args[1].args[1],
             mk('map', t.cat(m.args[0] if m.op == 'map' else mk('entries', m), t.unit(agg('keep', e.args[2], v)))))
    return mk('slot', e.args[2])


@model('std::collections::hash::map::entry::Entry::or_insert', 'std::collections::hash::map::Entry::or_insert')
def m_or_insert(c):
    return keep(c.I, c.S, c.args[0], c.args[1])


@model('std::collections::hash::map::entry::Entry::or_insert_with', 'std::collections::hash::map::Entry::or_insert_with')
def m_or_insert_with(c):
    once = c.I.p.types[c.sig[1]].get('once')
    if once is None:
        raise Undecided('or_insert_with')

    def body():
        b = Body(c.I.p, 2, 3)
        b.block([py(3, lambda I_, S: agg(None))], call(once, [C(2), C(3)], 4, 1))
        b.block([py(0, keep, C(1), C(4))], ['return'])
        return b.done()
    raise Push(c.I.p.synthetic(('or_insert_with', once), body), c.args)


@model('std::collections::hash::map::HashMap::len', 'alloc::collections::btree::map::BTreeMap::len')
def m_map_len(c):
    return t.maplen(c.load(c.args[0]))


@model('std::collections::hash::map::HashMap::is_empty', 'alloc::collections::btree::map::BTreeMap::is_empty')
def m_map_empty(c):
    return eq(t.maplen(c.load(c.args[0])), I(0))


@model('std::collections::hash::map::HashMap::remove')
def m_map_remove(c):
    m = c.load(c.args[0])
    old = map_get(c, m, c.args[1] if c.args[1].op != 'ptr' else c.load(c.args[1]))
    c.store(c.args[0], mk('mapwithout', m, deep(c.I, c.S, c.args[1])))
    return old


def set_seq(s):
    return t.elems(s)


@model('std::collections::hash::set::HashSet::insert', 'alloc::collections::btree::set::BTreeSet::insert')
def m_set_insert(c):
    s = c.load(c.args[0])
    had = t.in_(c.args[1], set_seq(s))
    c.store(c.args[0], mk('set', t.cat(set_seq(s), t.unit(c.args[1]))))
    return not_(had)


@model('std::collections::hash::set::HashSet::contains', 'alloc::collections::btree::set::BTreeSet::contains')
def m_set_contains(c):
    return t.in_(c.val(1), set_seq(c.load(c.args[0])))


@model('std::collections::hash::set::HashSet::is_disjoint', 'alloc::collections::btree::set::BTreeSet::is_disjoint')
def m_disjoint(c):
    return not_(t.intersects(set_seq(c.load(c.args[0])), set_seq(c.load(c.args[1]))))


@model('std::collections::hash::set::HashSet::is_subset', 'alloc::collections::btree::set::BTreeSet::is_subset')
def m_subset(c):
    a, b = set_seq(c.load(c.args[0])), set_seq(c.load(c.args[1]))
    x = t.x(913)
    return not_(t.exists(a, not_(t.in_(x, b)), x))


@model('std::collections::hash::set::HashSet::is_superset', 'alloc::collections::btree::set::BTreeSet::is_superset')
def m_superset(c):
    a, b = set_seq(c.load(c.args[0])), set_seq(c.load(c.args[1]))
    x = t.x(913)
    return not_(t.exists(b, not_(t.in_(x, a)), x))


@model('std::collections::hash::set::HashSet::is_empty')
def m_set_is_empty(c):
    return seq_empty(set_seq(c.load(c.args[0])))


@model('std::collections::hash::set::HashSet::intersection')
def m_intersection(c):
    a, b = set_seq(c.load(c.args[0])), set_seq(c.load(c.args[1]))
    return agg(None, tmp(mk('inter', a, b)), I(0))


@model('std::collections::hash::set::HashSet::union')
def m_union(c):
    a, b = set_seq(c.load(c.args[0])), set_seq(c.load(c.args[1]))
    return agg(None, tmp(t.cat(a, b)), I(0))


@model('std::collections::hash::set::HashSet::is_subset', 'std::collections::hash::set::HashSet::is_superset')
def m_subset(c):
    return mk('bool', norm(c.fn.defn), c.load(c.args[0]), c.load(c.args[1]))


# ---- iterators: (pointer to a sequence, index)

@model('core::slice::iter', 'core::slice::iter_mut')
def m_iter(c):
    return agg(None, c.args[0], I(0))


@model('std::collections::hash::set::HashSet::iter')
def m_set_iter(c):
    return agg(None, tmp(set_seq(c.load(c.args[0]))), I(0))


@model('std::collections::hash::map::HashMap::iter', 'std::collections::hash::map::HashMap::keys',
       'std::collections::hash::map::HashMap::values')
def m_map_iter(c):
    m = c.load(c.args[0])
    return agg(None, tmp(mk('iterof', norm(c.fn.defn).rsplit('::', 1)[1], m)), I(0))


@model('trait core::iter::traits::collect::IntoIterator::into_iter')
def m_into_iter(c):
    v = c.args[0]
    x = c.I.p.types[c.sig[0]]
    if x['k'] == 'ref':
        e = x['elem']
        d = c.I.p.types[e].get('def', '')
        if d.endswith(('HashSet', 'BTreeSet')):
            return agg(None, tmp(set_seq(c.load(v))), I(0))
        if d.endswith(('HashMap', 'BTreeMap')):
            return agg(None, tmp(mk('iterof', 'iter', c.load(v))), I(0))
        if c.I.p.is_seq(e):
            return agg(None, v, I(0))
        raise Undecided('into_iter of %s' % x['s'])
    d = x.get('def', '')
    if d.endswith(('HashSet', 'BTreeSet')):
        return agg(None, tmp(set_seq(v)), I(0))
    if d.endswith(('HashMap', 'BTreeMap')):
        return agg(None, tmp(v.args[0] if v.op == 'map' else mk('entries', v)), I(0))
    if c.I.p.is_seq(c.sig[0]):
        return agg(None, tmp(v), I(0))
    raise Undecided('into_iter of %s' % x['s'])


BY_VALUE = ('alloc::vec::into_iter::IntoIter', 'std::collections::hash::set::IntoIter', 'core::array::iter::IntoIter',
            'core::str::iter::Bytes', 'core::str::iter::Chars', 'std::collections::hash::map::IntoIter',
            'core::slice::iter::SplitN', 'core::str::iter::SplitN')


def method_of(p, tid, name):
    """The instance of an iterator's method, or None."""
    r = p._methods.get((tid, name)) if hasattr(p, '_methods') else None
    if not hasattr(p, '_methods'):
        p._methods = {}
        for f in p.fns:
            if f.j.get('trait') == 'core::iter::traits::iterator::Iterator' and f.j.get('self') is not None:
                p._methods.setdefault((f.j['self'], f.j.get('method')), f.idx)
        r = p._methods.get((tid, name))
    return r


def restart(I_, S):
    """How many frames to leave to be back where a loop asks for its next item, or None."""
    n = 0
    for F in reversed(S.stack):
        stmts, term = F.fn.blocks[F.bb]
        if term[0] != 'call' or len(term[2]) != 1:
            return None
        if F.bb in F.fn.cfg()[1]:
            if all(s[0] in ('=', 'cno', 'dead') and (s[0] != '=' or not s[1][1] and s[2][0] == 'ref') for s in stmts):
                return n
            return None
        if F.bb != 0 or any(s[0] == '=' and s[1][1] or s[0] == 'sd' for s in stmts):
            return None
        n += 1
    return None


def skipping(c):
    """Filter::next and FilterMap::next in a loop: an item that does not pass is one more round of that loop."""
    p = c.I.p
    x = p.types[c.fn.j['self']]
    kind = {'core::iter::adapters::filter::Filter': 'filter',
            'core::iter::adapters::filter_map::FilterMap': 'filter_map'}.get(x.get('def'))
    if kind is None or restart(c.I, c.S) is None or c.S.top().fn.cfg() is None:
        return
    nx, once = method_of(p, x['args'][0], 'next'), p.types[x['args'][1]].get('once')
    fs = [f[0] for f in x['variants'][0]['fields']]
    if nx is None or once is None or len(fs) != 2:
        return

    def body():
        b = Body(p, 1, 8)
        fi = [i for i, f in enumerate(fs) if f == 'iter'][0]
        fp = 1 - fi
        fty = [f[1] for f in x['variants'][0]['fields']]
        b.block([['=', P(2), ['ref', [1, ['*', ['f', fi, fty[fi]]]]], 0]], call(nx, [C(2)], 3, 1))
        b.block([py(4, _is_some, C(3))], switch(b, 4, 2, 4))
        arg = (lambda I_, S, o: agg(None, tmp(some0(o)))) if kind == 'filter' else (lambda I_, S, o: agg(None, some0(o)))
        b.block([py(5, arg, C(3)), ['=', P(7), ['use', ['c', [1, ['*', ['f', fp, fty[fp]]]]]], 0]], call(once, [C(7), C(5)], 6, 3))
        b.block([py(4, (lambda I_, S, r: truth(r)) if kind == 'filter' else _is_some, C(6))], switch(b, 4, 5, 6))
        b.block([py(0, lambda I_, S: NONE)], ['return'])                       # 4
        b.block([['=', P(0), ['use', C(3 if kind == 'filter' else 6)], 0]], ['return'])
        b.block([], ['retry'])                                                 # 6
        r = b.done()
        r['locals'][1] = c.sig[0]
        return r
    raise Push(p.synthetic(('skipping', c.fn.idx), body), c.args)


def leaf_next(c, n=None):
    it = c.load(c.args[0])
    if it.op == 'ite':
        from .interp import Fork
        raise Fork(it.args[0])
    d = c.I.p.types[c.I.p.types[c.sig[0]]['elem']].get('def', '')
    if it.op != 'agg' or len(it.args) < 3:
        raise Undecided('iterator %s' % d)
    if d == 'alloc::io::util::Bytes':
        f, idx = it.args[1], it.args[2]
        s = content(f)
        if c.decide(t.lt('u64', idx, t.length(s))):
            c.store(c.args[0], agg(None, f, t.arith('add', 64, idx, I(1))))
            return some(ok(t.at(s, idx)))
        return option(readfails(f), err(mk('ioerr', 'read', f)))
    p, idx = it.args[1], it.args[2]
    s = c.load(p)
    i = idx
    if n is not None:
        i = t.arith('add', 64, idx, n)
    if c.decide(t.lt('u64', i, t.length(s))):
        c.store(c.args[0], agg(None, p, t.arith('add', 64, i, I(1)), *it.args[3:]))
        if d in BY_VALUE:
            return some(t.at(s, i))
        if s.op in ('split', 'splitp', 'split?'):
            return some(tmp(t.at(s, i)))
        return some(elem_ptr(c.I, c.S, p, i))
    c.store(c.args[0], agg(None, p, t.length(s), *it.args[3:]))
    return NONE


@model('trait core::iter::traits::iterator::Iterator::next')
def m_next(c):
    return leaf_next(c)


@model('trait core::iter::traits::iterator::Iterator::nth')
def m_nth(c):
    return leaf_next(c, c.args[1])


@model('trait core::iter::traits::iterator::Iterator::last')
def m_last(c):
    it, x = c.args[0], c.I.p.types[c.sig[0]]
    d = x.get('def', '')
    if it.op != 'agg' or len(it.args) != 3 or it.args[0] is not None or it.args[1].op not in ('ptr', 'tmp', 'poff', 'cptr') \
            or d not in BY_VALUE + ('core::slice::iter::Iter',):
        raise Undecided('last of an iterator')
    p, idx = it.args[1], it.args[2]
    s = c.load(p)
    if not c.decide(t.lt('u64', idx, t.length(s))):
        return NONE
    i = t.arith('sub', 64, t.length(s), I(1))
    return some(t.at(s, i) if d in BY_VALUE else elem_ptr(c.I, c.S, p, i))


@model('trait core::iter::traits::exact_size::ExactSizeIterator::len')
def m_iter_len(c):
    it = c.load(c.args[0])
    s = c.load(it.args[1])
    return t.arith('sub', 64, t.length(s), it.args[2])


@model('trait core::iter::traits::iterator::Iterator::size_hint')
def m_size_hint(c):
    return mk('size_hint')


@model('core::slice::iter::Iter::as_slice')
def m_iter_as_slice(c):
    it = c.load(c.args[0])
    return sub_ptr(c.I, c.S, it.args[1], ('s', it.args[2], None))


def consumer(c, kind):
    p = c.I.p
    ty = c.sig[0]
    if kind in ('position', 'rposition', 'any', 'all', 'find', 'for_each'):
        x = p.types[ty]
        ity = x['elem'] if x['k'] == 'ref' else ty
        it = iter_of(c.fn, ity) or iter_of(c.fn, ty)
        once = p.types[c.sig[1]].get('once')
        if it is None or once is None:
            raise Undecided('%s without iterator' % kind)
        args = list(c.args)
        if x['k'] != 'ref':
            F = c.S.top()
            h = mk('heap', F.fid, F.bb, 'it')
            c.S.mem[h] = args[0]
            args[0] = ptr(h)
        if kind == 'rposition':
            inner = c.load(args[0])
            if inner.op != 'agg' or inner.args[2] is not I(0) or it.get('leaf') is False:
                raise Undecided('rposition')
            s = c.load(inner.args[1])
            h = mk('heap', c.S.top().fid, c.S.top().bb, 'rit')
            c.S.mem[h] = agg(None, tmp(t.rev(s)), I(0))
            args[0] = ptr(h)
            raise Push(p.synthetic((kind, it['next'], once), lambda: search(p, it, once, kind)), args)
        raise Push(p.synthetic((kind, it['next'], once), lambda: search(p, it, once, kind)), args)
    raise Undecided(kind)


for _k in ('position', 'rposition', 'any', 'all', 'find', 'for_each'):
    TABLE['trait core::iter::traits::iterator::Iterator::' + _k] = (lambda k: lambda c: consumer(c, k))(_k)


@model('trait core::iter::traits::collect::FromIterator::from_iter')
def m_from_iter(c):
    p = c.I.p
    it = iter_of(c.fn, c.sig[0])
    to = c.sig[-1]
    d = p.types[to].get('def', '')
    if it is None:
        raise Undecided('from_iter without iterator')
    nx = p.fns[it['next']]
    if d.endswith(('HashSet', 'BTreeSet')):
        f = lambda: consume(p, it, push_elem, lambda I_, S, a: t.EMPTY, lambda I_, S, acc, a: mk('set', acc))
        k = 'set'
    elif d.endswith(('HashMap', 'BTreeMap')):
        f = lambda: consume(p, it, push_elem, lambda I_, S, a: t.EMPTY, lambda I_, S, acc, a: mk('map', acc))
        k = 'map'
    elif d in ('alloc::string::String', 'std::path::PathBuf', 'std::ffi::os_str::OsString'):
        raise Undecided('string from iterator')
    elif p.is_seq(to) or d == 'alloc::boxed::Box':
        f = lambda: consume(p, it, push_elem, lambda I_, S, a: t.EMPTY)
        k = 'vec'
    else:
        raise Undecided('from_iter into %s' % p.tname(to))
    raise Push(p.synthetic(('from_iter', k, it['next'], it.get('into_iter')), f), c.args)


def plain_rest(c, i):
    """What a plain list or an iterator over one still has to give, by value, or None."""
    p, v = c.I.p, c.args[i]
    x = p.types[c.sig[i]]
    d = x.get('def', '')
    to = p.types[p.types[c.sig[0]]['elem']]
    want = p.types[to['args'][0]] if to.get('args') else None
    if want is None:
        return None
    copied = want['k'] in ('int', 'uint', 'bool', 'char')

    def plain(s):
        return None if t.anyop(s, lambda y: y.op in ('split', 'splitp', 'split?', 'iterof', 'entries', 'phi')) else s
    if d == 'alloc::vec::Vec':
        return plain(v)
    if x['k'] == 'ref' and c.I.p.is_seq(x['elem']) and copied:
        return plain(c.load(v))
    if v.op == 'agg' and len(v.args) == 3 and v.args[0] is None and (
            d in ('alloc::vec::into_iter::IntoIter', 'core::array::iter::IntoIter') or d == 'core::slice::iter::Iter' and copied):
        s = c.load(v.args[1])
        return plain(s if v.args[2] is I(0) else t.slice_(s, v.args[2], None))
    return None


@model('trait core::iter::traits::collect::Extend::extend')
def m_extend(c):
    p = c.I.p
    it = iter_of(c.fn, c.sig[1])
    d = p.types[p.types[c.sig[0]]['elem']].get('def', '')
    if it is None:
        raise Undecided('extend without iterator')
    if d.endswith('HashSet'):
        get = lambda I_, S, a, b: set_seq(load(I_, S, a))
        put = lambda v: mk('set', v)
    elif d.endswith('HashMap'):
        get = lambda I_, S, a, b: (lambda m: m.args[0] if m.op == 'map' else mk('entries', m))(load(I_, S, a))
        put = lambda v: mk('map', v)
    else:
        get = lambda I_, S, a, b: load(I_, S, a)
        put = lambda v: v
    if d == 'alloc::vec::Vec':
        rest = plain_rest(c, 1)
        if rest is not None:
            c.store(c.args[0], t.cat(c.load(c.args[0]), rest))
            return UNIT
    # Extend<&'a T> copies the elements
    nx = p.fns[it['next']].j.get('sig') or []
    item = None
    if nx:
        o = p.types[nx[-1]]
        if o.get('args'):
            item = o['args'][0]
    elem_ref = item is not None and p.types[item]['k'] == 'ref' and not _elem_is_ref(p, c.sig[0])

    def step(I_, S, acc, x, a, b):
        if elem_ref:
            x = load(I_, S, x)
        return t.cat(acc, t.unit(x))

    def fin(I_, S, acc, a, b):
        root, path = I_.deref(S, a)
        I_.store(S, root, path, put(acc))
        return UNIT
    raise Push(p.synthetic(('extend', d, it['next'], it.get('into_iter'), elem_ref),
                           lambda: consume(p, it, step, get, fin, nargs=2, itarg=2)), c.args)


def _elem_is_ref(p, ty):
    x = p.types[p.types[ty]['elem']]
    a = x.get('args')
    return bool(a) and p.types[a[0]]['k'] == 'ref'


@model('trait core::iter::traits::iterator::Iterator::count')
def m_count(c):
    p = c.I.p
    it = iter_of(c.fn, c.sig[0])
    if it is None:
        raise Undecided('count')
    raise Push(p.synthetic(('count', it['next']), lambda: consume(
        p, it, lambda I_, S, acc, x, a: t.arith('add', 64, acc, I(1)), lambda I_, S, a: I(0))), c.args)


@model('trait core::iter::traits::iterator::Iterator::fold')
def m_fold(c):
    p = c.I.p
    it = iter_of(c.fn, c.sig[0])
    once = p.types[c.sig[2]].get('once')
    if it is None or once is None:
        raise Undecided('fold')

    def body():
        b = Body(p, 3, 8)
        b.block([['=', P(4), ['use', C(1)], 0], ['=', P(8), ['use', C(2)], 0]], ['goto', 1])
        b.block([ref(5, 4)], call(it['next'], [C(5)], 6, 2))
        b.block([py(7, _is_some, C(6))], switch(b, 7, 3, 4))
        b.block([py(9, lambda I_, S, acc, o: agg(None, acc, some0(o)), C(8), C(6))], call(once, [C(3), C(9)], 8, 1))
        b.block([['=', P(0), ['use', C(8)], 0]], ['return'])
        return b.done()
    raise Push(p.synthetic(('fold', it['next'], once), body), c.args)


@model('std::panic::catch_unwind', 'std::panicking::catch_unwind', 'std::panicking::try')
def m_catch(c):
    f = c.fn.j.get('call')
    if f is None:
        raise Undecided('catch_unwind of an unknown closure')
    raise Push(c.I.p.synthetic(('catch', f), lambda: catch_body(c.I.p, f)), [c.args[0]])


# ---- formatting

def fmt_piece(c, kind, v, ty):
    p = c.I.p
    v, ty = peel(c.I, c.S, v, ty)
    x = p.types[ty]
    if kind == 'display':
        if x['k'] == 'uint':
            return t.dec(v)
        if x['k'] == 'int':
            if v.op == 'int':
                return t.lit(str(t.sval(v.args[0], x['bits'])).encode())
            return mk('sdec', x['bits'], v)
        if x['k'] == 'str' or x.get('def') in ('alloc::string::String', 'alloc::borrow::Cow'):
            return v
        if x['k'] == 'char':
            return t.unit(v) if v.op != 'int' else t.lit(chr(v.args[0]).encode())
        if x.get('def') == 'core::fmt::Arguments':
            return v.args[0] if v.op == 'fmtargs' else mk('fmt', 'display', x['s'], v)
        if x.get('def') == 'std::path::Display':
            return t.lossy(v.args[0]) if v.op == 'pathdisplay' else mk('fmt', 'display', x['s'], v)
        if x.get('def') == 'alloc::boxed::Box' and x['args']:
            return fmt_piece(c, kind, c.load(v), x['args'][0])
    return mk('fmt', kind, x['s'], deep(c.I, c.S, v))


def m_fmt_new(kind):
    def f(c):
        return mk('fmtarg', fmt_piece(c, kind, c.args[0], c.sig[0]), kind)
    return f


for _k in ('display', 'debug', 'octal', 'lower_hex', 'upper_hex', 'binary', 'lower_exp', 'upper_exp', 'pointer'):
    TABLE['core::fmt::rt::Argument::new_' + _k] = m_fmt_new(_k)


@model('core::fmt::rt::Argument::from_usize')
def m_fmt_usize(c):
    return mk('fmtarg', mk('dec', c.val(0)), 'usize')


@model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::new_const', 'core::fmt::rt::new_const')
def m_fmt_str(c):
    v = c.val(0)
    return mk('fmtargs', v)


@model('core::fmt::Arguments::new', 'core::fmt::Arguments::new_v1', 'core::fmt::rt::new_v1')
def m_fmt_args(c):
    tpl = c.val(0)
    args = c.val(1)
    if tpl.op != 'lit':
        return mk('fmtargs', mk('fmt?', tpl, args))
    b = tpl.args[0]
    out = []
    i = 0
    n = 0

    def arg(k, spec):
        a = t.at(args, I(k))
        if a.op != 'fmtarg':
            return mk('fmt?', a)
        if spec == ():
            return a.args[0]
        return mk('fmtspec', spec, a.args[0])
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(t.lit(b[i:i + x]))
            i += x
        elif x == 0x80:
            k = int.from_bytes(b[i:i + 2], 'little')
            out.append(t.lit(b[i + 2:i + 2 + k]))
            i += 2 + k
        elif x == 0xC0:
            out.append(arg(n, ()))
            n += 1
        else:
            spec = []
            if x & 1:
                spec.append(('flags', int.from_bytes(b[i:i + 4], 'little')))
                i += 4
            if x & 2:
                spec.append(('width', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            if x & 4:
                spec.append(('prec', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            k = n
            if x & 8:
                k = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            out.append(arg(k, tuple(spec)))
            n = k + 1
    return mk('fmtargs', t.cat(*out))


@model('alloc::fmt::format', 'alloc::fmt::format_inner')
def m_format(c):
    v = c.args[0]
    return v.args[0] if v.op == 'fmtargs' else mk('fmt?', v)


@model('core::fmt::Arguments::as_str')
def m_args_as_str(c):
    return mk('args_as_str', c.val(0))


@model('trait alloc::string::ToString::to_string', 'trait alloc::string::SpecToString::spec_to_string')
def m_to_string(c):
    return fmt_piece(c, 'display', c.args[0], c.sig[0])


@model('core::fmt::Write::write_str_', 'trait core::fmt::Write::write_str', 'core::fmt::Formatter::write_str',
       'core::fmt::Formatter::pad')
def m_fmt_write_str(c):
    root, path = c.I.deref(c.S, c.args[0])
    old = c.I.load(c.S, root, path)
    x = c.I.p.types[c.I.p.types[c.sig[0]]['elem']]
    if x.get('def') == 'alloc::string::String':
        c.I.store(c.S, root, path, t.cat(old, c.val(1)))
        return ok(UNIT)
    if x.get('def') == 'core::fmt::Formatter':
        c.I.emit(c.S, 'fmt', c.val(1))
        return ok(UNIT)
    raise Undecided('write_str on %s' % x['s'])


@model('trait thiserror::display::AsDisplay::as_display')
def m_as_display(c):
    return c.load(c.args[0])


@model('trait core::fmt::Display::fmt')
def m_display(c):
    c.I.emit(c.S, 'fmt', fmt_piece(c, 'display', c.args[0], c.sig[0]))
    return ok(UNIT)


@model('core::fmt::Formatter::write_fmt', 'trait core::fmt::Write::write_fmt')
def m_fmt_write_fmt(c):
    v = c.args[1]
    s = v.args[0] if v.op == 'fmtargs' else mk('fmt?', v)
    x = c.I.p.types[c.I.p.types[c.sig[0]]['elem']]
    if x.get('def') == 'core::fmt::Formatter':
        c.I.emit(c.S, 'fmt', s)
        return ok(UNIT)
    if x.get('def') == 'alloc::string::String':
        root, path = c.I.deref(c.S, c.args[0])
        c.I.store(c.S, root, path, t.cat(c.I.load(c.S, root, path), s))
        return ok(UNIT)
    raise Undecided('write_fmt')


# ---- files and sockets

def content(f):
    return mk('content', f)


def readfails(f):
    return mk('readerr', f)


def opened(c, path, flags):
    I_, S = c.I, c.S
    o, n = attempt(I_, S, 'open', path, flags)
    return ite(o, ok(mk('file', n, path)), err(io_err('open', n)))


@model('std::fs::File::open')
def m_file_open(c):
    return opened(c, c.val(0), mk('flags', 'read'))


@model('std::fs::File::create', 'std::fs::File::create_new')
def m_file_create(c):
    return opened(c, c.val(0), mk('flags', 'create', 'truncate', 'write'))


@model('std::fs::OpenOptions::new', 'std::fs::File::options')
def m_oo_new(c):
    return mk('flags')


def m_oo_set(name):
    def f(c):
        v = c.load(c.args[0])
        b = truth(c.args[1])

        def with_(v, b):
            if v.op == 'ite':
                return ite(v.args[0], with_(v.args[1], b), with_(v.args[2], b))
            if b is TRUE:
                return mk('flags', *sorted(set(v.args) | {name}))
            if b is FALSE:
                return mk('flags', *[x for x in v.args if x != name])
            return ite(b, with_(v, TRUE), with_(v, FALSE))
        c.store(c.args[0], with_(v, b))
        return c.args[0]
    return f


for _k in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
    TABLE['std::fs::OpenOptions::' + _k] = m_oo_set(_k)


@model('trait std::os::unix::fs::OpenOptionsExt::mode', 'trait std::os::unix::fs::OpenOptionsExt::custom_flags')
def m_oo_ext(c):
    v = c.load(c.args[0])
    m = c.fn.j.get('method')
    if v.op == 'flags':
        c.store(c.args[0], mk('flags', *sorted(set(v.args) | {'%s=%s' % (m, c.args[1])})))
    return c.args[0]


@model('std::fs::OpenOptions::open')
def m_oo_open(c):
    fl = c.load(c.args[0])
    return opened(c, c.val(1), fl)


@model('std::fs::read', 'std::fs::read_to_string')
def m_fs_read(c):
    path = c.val(0)
    o, n = attempt(c.I, c.S, 'open', path, mk('flags', 'read'))
    f = mk('file', n, path)
    good = and_(o, not_(readfails(f)))
    if 'to_string' in c.fn.defn:
        good = and_(good, mk('valid', content(f)))
    return ite(good, ok(content(f)), err(ite(o, mk('ioerr', 'read', f), io_err('open', n))))


@model('std::fs::write')
def m_fs_write(c):
    path = c.val(0)
    o, n = attempt(c.I, c.S, 'open', path, mk('flags', 'create', 'truncate', 'write'))
    return ite(o, ok(UNIT), err(io_err('open', n)))


@model('alloc::io::read::Read::bytes', 'trait alloc::io::read::Read::bytes', 'trait std::io::Read::bytes')
def m_bytes(c):
    return agg(None, c.args[0], I(0))


@model('trait alloc::io::read::Read::read_to_end', 'trait alloc::io::read::Read::read_to_string')
def m_read_to_end(c):
    f, ty = c.valty(0)
    d = c.I.p.types[ty].get('def', '')
    if d != 'std::fs::File':
        return generic_read(c, d, c.fn.j['method'])
    old = c.load(c.args[1])
    s = content(f)
    bad = readfails(f)
    if c.fn.j['method'] == 'read_to_string':
        bad = or_(bad, not_(mk('valid', s)))
        c.store(c.args[1], ite(bad, old, t.cat(old, s)))
    else:
        c.store(c.args[1], t.cat(old, ite(bad, mk('partial', s), s)))
    return ite(bad, err(mk('ioerr', 'read', f)), ok(t.length(s)))


def generic_read(c, d, how):
    """Reading in a way that retries: read_exact, read_to_end, ... on a stream."""
    f, ty = c.valty(0)
    buf = c.load(c.args[1]) if len(c.args) > 1 else UNIT
    o, n = attempt(c.I, c.S, 'read_retried', how, d, deep(c.I, c.S, f), t.length(buf) if len(c.args) > 1 else I(0))
    if len(c.args) > 1:
        k = t.seq_len_const(buf)
        if how == 'read_exact' and k is not None:
            r = mk('rbuf', 'exact', n)
            c.store(c.args[1], t.cat(*[t.unit(ite(o, t.at(r, I(j)), mk('partial', t.at(buf, I(j)), n, j)))
                                       for j in range(k)]))
        else:
            c.store(c.args[1], mk('rbuf', how, n))
    return ite(o, ok(UNIT if how == 'read_exact' else mk('count', how, n)), err(io_err(how, n)))


@model('trait alloc::io::read::Read::read_exact')
def m_read_exact(c):
    f, ty = c.valty(0)
    d = c.I.p.types[ty].get('def', '')
    return generic_read(c, d, 'read_exact')


def do_read(c, name, handle):
    p = c.args[1]
    buf = c.load(p)
    o, n = attempt(c.I, c.S, name, handle, t.length(buf))
    r = mk('rbuf', name, n)
    cnt = mk('count', name, n)
    k = t.seq_len_const(buf)
    if k is not None and k <= 64:
        if k == 0:
            return ite(o, ok(I(0)), err(io_err(name, n)))
        # the count is at most the buffer's length; what was not read is left alone
        if k == 1:
            got = mk('bool', 'gotbyte', name, n)
            new = ite(and_(o, got), t.unit(t.at(r, I(0))), buf)
            cnt = ite(got, I(1), I(0))
        else:
            new = t.cat(*[t.unit(ite(and_(o, t.lt('u64', I(j), cnt)), t.at(r, I(j)), t.at(buf, I(j)))) for j in range(k)])
        c.store(p, new)
    else:
        c.store(p, mk('readinto', buf, r, cnt, o))
    return ite(o, ok(cnt), err(io_err(name, n)))


def do_write(c, name, handle):
    data = c.val(1)
    o, n = attempt(c.I, c.S, name, handle, data)
    return ite(o, ok(mk('count', name, n)), err(io_err(name, n)))


def handle_of(c):
    v, ty = c.valty(0)
    return deep(c.I, c.S, v)


@model('trait alloc::io::read::Read::read')
def m_read(c):
    h, ty = c.valty(0)
    d = c.I.p.types[ty].get('def', '')
    if d == 'std::os::unix::net::stream::UnixStream':
        return do_read(c, 'sock_read', h)
    return do_read(c, 'read', mk('h', d, h))


@model('trait core::io::write::Write::write')
def m_write(c):
    h, ty = c.valty(0)
    d = c.I.p.types[ty].get('def', '')
    if c.I.p.is_seq(ty):
        root, path = c.I.deref(c.S, c.args[0])
        c.I.store(c.S, root, path, t.cat(h, c.val(1)))
        return ok(t.length(c.val(1)))
    if d == 'std::os::unix::net::stream::UnixStream':
        return do_write(c, 'sock_write', h)
    return do_write(c, 'write', mk('h', d, h))


@model('trait core::io::write::Write::flush')
def m_flush(c):
    h, ty = c.valty(0)
    d = c.I.p.types[ty].get('def', '')
    if c.I.p.is_seq(ty):
        return ok(UNIT)
    # neither sockets nor files buffer anything here
    if d == 'std::os::unix::net::stream::UnixStream':
        return ok(UNIT)
    o, n = attempt(c.I, c.S, 'flush', mk('h', d, deep(c.I, c.S, h)))
    return ite(o, ok(UNIT), err(io_err('flush', n)))


@model('trait core::io::write::Write::write_all', 'trait core::io::write::Write::write_fmt')
def m_write_all(c):
    h, ty = c.valty(0)
    d = c.I.p.types[ty].get('def', '')
    if c.fn.j.get('method') == 'write_fmt':
        v = c.args[1]
        data = v.args[0] if v.op == 'fmtargs' else mk('fmt?', v)
    else:
        data = c.val(1)
    if c.I.p.is_seq(ty):
        root, path = c.I.deref(c.S, c.args[0])
        c.I.store(c.S, root, path, t.cat(h, data))
        return ok(UNIT)
    c.m.write_all_types.add(ty)
    o, n = attempt(c.I, c.S, 'write_all', d, deep(c.I, c.S, h), data)
    return ite(o, ok(UNIT), err(io_err('write_all', n)))


@model('std::os::unix::net::stream::UnixStream::shutdown')
def m_shutdown(c):
    o, n = attempt(c.I, c.S, 'shutdown', c.load(c.args[0]), c.args[1])
    return ite(o, ok(UNIT), err(io_err('shutdown', n)))


@model('std::os::unix::net::stream::UnixStream::try_clone')
def m_try_clone(c):
    o, n = attempt(c.I, c.S, 'try_clone', c.load(c.args[0]))
    return ite(o, ok(c.load(c.args[0])), err(io_err('try_clone', n)))


@model('std::os::unix::net::listener::UnixListener::bind')
def m_bind(c):
    path = c.val(0)
    o, n = attempt(c.I, c.S, 'bind', path)
    return ite(o, ok(mk('listener', n, path)), err(io_err('bind', n)))


@model('std::os::unix::net::listener::UnixListener::accept')
def m_accept(c):
    l = c.load(c.args[0])
    o, n = attempt(c.I, c.S, 'accept', l)
    return ite(o, ok(agg(None, mk('stream', n, l), mk('peer', n))), err(io_err('accept', n)))


@model('trait std::os::fd::raw::AsRawFd::as_raw_fd')
def m_as_raw_fd(c):
    return mk('fd', deep(c.I, c.S, c.val(0)))


@model('std::fs::metadata', 'std::fs::symlink_metadata', 'std::path::Path::metadata', 'std::path::Path::symlink_metadata')
def m_metadata(c):
    path = c.val(0)
    name = 'lstat' if 'symlink' in c.fn.defn else 'metadata'
    n = stamp(c.S)
    o = mk('ok', name, n, path)
    return ite(o, ok(mk('md', name, n, path)), err(io_err(name, n)))


@model('std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::is_dir', 'std::path::Path::try_exists')
def m_exists(c):
    path = c.val(0)
    n = stamp(c.S)
    return mk('bool', norm(c.fn.defn), n, path)


@model('std::fs::Metadata::file_type')
def m_file_type(c):
    return mk('ftype', c.load(c.args[0]))


@model('trait std::os::unix::fs::FileTypeExt::is_socket')
def m_is_socket(c):
    f = c.load(c.args[0])
    return mk('is_socket', f.args[0] if f.op == 'ftype' else f)


@model('std::fs::FileType::is_dir', 'std::fs::FileType::is_file', 'std::fs::FileType::is_symlink', 'std::fs::Metadata::is_dir',
       'std::fs::Metadata::is_file', 'trait std::os::unix::fs::FileTypeExt::is_fifo')
def m_is_dir(c):
    f = c.load(c.args[0])
    md = f.args[0] if f.op == 'ftype' else f
    # consistent with what st_mode says
    k = norm(c.fn.defn).rsplit('::', 1)[1]
    code = {'is_dir': 0o040000, 'is_file': 0o100000, 'is_symlink': 0o120000, 'is_fifo': 0o010000}.get(k)
    return eq(t.arith('and', 32, t.fld(md, 'st_mode'), I(0o170000)), I(code))


@model('trait std::os::unix::fs::MetadataExt::mode', 'trait std::os::unix::fs::MetadataExt::uid',
       'trait std::os::unix::fs::MetadataExt::gid')
def m_md_ext(c):
    return t.fld(c.load(c.args[0]), 'st_' + c.fn.j['method'])


@model('std::fs::Metadata::permissions')
def m_md_perm(c):
    return mk('perm', t.fld(c.load(c.args[0]), 'st_mode'))


@model('trait std::os::unix::fs::PermissionsExt::mode')
def m_perm_mode(c):
    v = c.load(c.args[0])
    return v.args[0] if v.op == 'perm' else t.fld(v, 'mode')


@model('trait std::os::unix::fs::PermissionsExt::from_mode')
def m_from_mode(c):
    return mk('perm', c.args[0])


@model('std::fs::remove_file')
def m_remove(c):
    path = c.val(0)
    o, n = attempt(c.I, c.S, 'remove', path)
    return ite(o, ok(UNIT), err(io_err('remove', n)))


@model('std::fs::set_permissions')
def m_set_perm(c):
    path = c.val(0)
    m = c.args[1]
    o, n = attempt(c.I, c.S, 'chmod', path, m.args[0] if m.op == 'perm' else m)
    return ite(o, ok(UNIT), err(io_err('chmod', n)))


@model('std::os::unix::fs::chown', 'std::os::unix::fs::lchown')
def m_std_chown(c):
    path = c.val(0)

    def idof(v):
        return ite(eq(t.discr(v, 2), I(1)), some0(v), I(0xffffffff)) if some0(v) is not UNINIT else I(0xffffffff)
    o, n = attempt(c.I, c.S, 'chown', path, idof(c.args[1]), idof(c.args[2]))
    return ite(o, ok(UNIT), err(io_err('chown', n)))


# ---- libc

def cpath(v):
    return v.args[0] if v.op in ('cptr', 'cptr0') else mk('cstr', v)


def libc_int(o):
    return ite(o, I(0), I(0xffffffff))


@model('libc::unix::chown', 'libc::unix::lchown')
def m_chown(c):
    o, n = attempt(c.I, c.S, 'chown', cpath(c.args[0]), c.args[1], c.args[2])
    return libc_int(o)


@model('libc::unix::chmod')
def m_chmod(c):
    o, n = attempt(c.I, c.S, 'chmod', cpath(c.args[0]), c.args[1])
    return libc_int(o)


@model('libc::unix::unlink', 'libc::unix::remove')
def m_unlink(c):
    o, n = attempt(c.I, c.S, 'remove', cpath(c.args[0]))
    return libc_int(o)


UMASK = mk('static', '#umask')
SIGINT = mk('static', '#sigint')


@model('libc::unix::umask')
def m_umask(c):
    cur = c.S.mem.get(UMASK, t.sym('umask0'))
    c.S.mem[UMASK] = c.args[0]
    c.I.emit(c.S, 'umask', c.args[0])
    return cur


@model('libc::unix::stat', 'libc::unix::lstat')
def m_stat(c):
    path = cpath(c.args[0])
    n = stamp(c.S)
    name = norm(c.fn.defn).rsplit('::', 1)[1]
    o = mk('ok', name, n, path)
    root, path_ = c.I.deref(c.S, c.args[1])
    old = c.I.load(c.S, root, path_)
    new = mk('md', name, n, path)
    c.I.store(c.S, root, path_, new if old is UNINIT else ite(o, new, old))
    return libc_int(o)


@model('libc::unix::geteuid', 'libc::unix::getegid', 'libc::unix::getuid', 'libc::unix::getgid', 'libc::unix::getpid',
       'libc::unix::getppid')
def m_getid(c):
    return t.sym(norm(c.fn.defn).rsplit('::', 1)[1])


@model('libc::unix::linux_like::FD_ZERO')
def m_fd_zero(c):
    c.store(c.args[0], mk('fdset', t.EMPTY))
    return UNIT


@model('libc::unix::linux_like::FD_SET')
def m_fd_set(c):
    fd = c.args[0]
    if not c.decide(t.lt('u64', t.cast_int(32, True, 64, fd), I(1024))):
        raise Panic('FD_SET out of bounds')
    s = c.load(c.args[1])
    if s.op == 'fdset':
        c.store(c.args[1], mk('fdset', t.cat(s.args[0], t.unit(fd))))
    else:
        c.store(c.args[1], mk('fdset?', s, fd))
    return UNIT


@model('libc::unix::linux_like::FD_CLR')
def m_fd_clr(c):
    s = c.load(c.args[1])
    c.store(c.args[1], mk('fdset?', s, c.args[0]))
    return UNIT


@model('libc::unix::linux_like::FD_ISSET')
def m_fd_isset(c):
    s = c.load(c.args[1])
    if s.op == 'ready' and s.args[0].op == 'fdset':
        ms = s.args[0].args[0]
        if ms.op == 'unit' and ms.args[0] is c.args[0]:
            return TRUE          # select reported one descriptor and this is the only one
        if t.in_(c.args[0], ms) is FALSE:
            return FALSE
    return mk('bool', 'fd_isset', s, c.args[0])


@model('libc::unix::select')
def m_select(c):
    rd = c.args[1]
    s = UNIT
    if rd.op != 'int':
        s = c.load(rd)
    o, n = attempt(c.I, c.S, 'select', c.args[0], s, deep(c.I, c.S, c.args[4]))
    if rd.op != 'int':
        c.store(rd, mk('ready', s, n) if s.op in ('fdset', 'fdset?') else s)
    if c.args[4].op == 'int' and c.args[4].args[0] == 0:
        return ite(o, I(1), I(0xffffffff))
    # with a timeout nothing may be ready
    return ite(o, ite(mk('bool', 'timeout', n), I(0), I(1)), I(0xffffffff))


@model('libc::unix::poll')
def m_poll(c):
    f = c.load(c.args[0])
    if c.args[1] is not I(1) or f.op != 'agg' or len(f.args) != 4 or f.args[2].op != 'int' or c.args[2].op != 'int':
        raise Undecided('poll')
    fd, want = f.args[1], f.args[2].args[0]
    forever = t.sval(c.args[2].args[0], 32) < 0
    o, n = attempt(c.I, c.S, 'select', t.arith('add', 32, fd, I(1)), mk('fdset', t.unit(fd) if want & 1 else t.EMPTY),
                   I(0) if forever else c.args[2])
    c.store(c.args[0], agg(f.args[0], fd, f.args[2], ite(o, mk('revents', n), I(0))))
    if forever:
        return ite(o, I(1), I(0xffffffff))
    return ite(o, ite(mk('bool', 'timeout', n), I(0), I(1)), I(0xffffffff))


@model('libc::new::glibc::signal::sigaction', 'libc::unix::sigaction', 'libc::unix::linux_like::sigaction')
def m_sigaction(c):
    sig, new, old = c.args[:3]
    slot = mk('static', '#sigaction', sig)
    cur = c.S.mem.get(slot, mk('sigdisp', sig))
    nv = UNIT
    if c.I.cmp_eq(new, I(0)) is not TRUE:
        nv = c.load(new)
        if t.occurs(nv, UNINIT):
            nv = t.sym('garbage%d' % len(c.S.events)) if nv is UNINIT else nv
    o, n = attempt(c.I, c.S, 'sigaction', sig, nv)
    if c.I.cmp_eq(old, I(0)) is not TRUE:
        root, path = c.I.deref(c.S, old)
        prev = c.I.load(c.S, root, path)
        c.I.store(c.S, root, path, ite(o, cur, t.sym('garbage%d' % len(c.S.events)) if prev is UNINIT else prev))
    if nv is not UNIT:
        c.S.mem[slot] = ite(o, nv, cur)
    return libc_int(o)


# ---- errors, environment, process

@model('std::io::error::last_os_error', 'alloc::io::error::last_os_error')
def m_last_os_error(c):
    return mk('ioerr', 'os', stamp(c.S))


@model('alloc::io::error::new', 'std::io::error::new', 'alloc::io::error::other')
def m_io_error_new(c):
    return mk('ioerr', *[deep(c.I, c.S, a) for a in c.args])


@model('core::io::error::kind', 'core::io::error::Error::kind')
def m_io_error_kind(c):
    e = c.load(c.args[0])
    if e.op == 'ite':
        return ite(e.args[0], kind_of(c, e.args[1]), kind_of(c, e.args[2]))
    return kind_of(c, e)


def kind_of(c, e):
    if e.op == 'ioerr' and isinstance(e.args[0], t.T) and e.args[0].op == 'agg':
        return e.args[0]
    never = -1
    if e.op == 'ioerr' and e.args[0] in ('write_all', 'open', 'read_to_end', 'read_exact'):
        # these start over when they are interrupted
        vs = [v['name'] for v in c.I.p.types[c.fn.j['sig'][-1]].get('variants', [])]
        never = vs.index('Interrupted') if 'Interrupted' in vs else -1
    return mk('ekind', e, never)


@model('std::env::var_os', 'std::env::var')
def m_var_os(c):
    return mk('env', c.val(0))


@model('std::process::exit', 'std::process::abort')
def m_exit(c):
    c.I.emit(c.S, 'exit', *c.args)
    c.S.kind = 'abort'
    c.S.stack = ()
    return DONE


@model('core::intrinsics::integer_min', 'core::intrinsics::integer_max')
def m_minmax(c):
    x = c.I.p.types[c.sig[-1]]
    if x['k'] not in ('int', 'uint'):
        raise Undecided('minimum of %s' % x['k'])
    a, b = c.args
    less = t.lt('%s%d' % (x['k'][0] if x['k'] == 'uint' else 's', x['bits']), a, b)
    return ite(less, a, b) if c.fn.defn.endswith('min') else ite(less, b, a)


@model('core::intrinsics::cold_path')
def m_unit(c):
    return UNIT


TABLE['slog::Logger::log'] = m_unit
AT = 'core::sync::atomic::Atomic::'


@model(AT + 'new', AT + 'into_inner', AT + 'get_mut')
def m_atomic_wrap(c):
    return c.args[0]


@model(AT + 'load')
def m_atomic_load(c):
    return c.load(c.args[0])


@model(AT + 'store')
def m_atomic_store(c):
    c.store(c.args[0], c.args[1])
    return UNIT


@model(AT + 'swap', AT + 'fetch_add', AT + 'fetch_sub', AT + 'fetch_or', AT + 'fetch_and', AT + 'fetch_xor', AT + 'fetch_max',
       AT + 'fetch_min')
def m_atomic_rmw(c):
    """sudo calls plugins from one thread."""
    old, x = c.load(c.args[0]), c.args[1]
    ty = c.I.p.types[c.sig[1]]
    k = norm(c.fn.defn).rsplit('::', 1)[1]
    bits = 1 if ty['k'] == 'bool' else ty.get('bits', 64)
    if k == 'swap':
        new = x
    elif k in ('fetch_add', 'fetch_sub'):
        new = t.arith(k[6:], bits, old, x)
    elif bits == 1:
        new = {'fetch_or': or_, 'fetch_and': and_}.get(k, lambda a, b: not_(eq(a, b)))(truth(old), truth(x))
    elif k in ('fetch_max', 'fetch_min'):
        less = t.lt(('s' if ty['k'] == 'int' else 'u') + str(bits), old, x)
        new = ite(less, x, old) if k == 'fetch_max' else ite(less, old, x)
    else:
        new = t.arith(k[6:], bits, old, x)
    c.store(c.args[0], new)
    return old


@model(AT + 'compare_exchange', AT + 'compare_exchange_weak')
def m_atomic_cas(c):
    old = c.load(c.args[0])
    same = eq(old, c.args[1])
    c.store(c.args[0], ite(same, c.args[2], old))
    return ite(same, ok(old), err(old))


@model('trait core::error::Error::source', 'trait core::error::Error::cause')
def m_source(c):
    e = c.args[0]
    return mk('source', deep(c.I, c.S, e))


# --------------------------------------------------------------------- driver

# types whose values are modelled, so that bodies of their methods mean nothing
MODELLED = ('std::collections::hash::map::HashMap::', 'std::collections::hash::map::Entry::',
            'std::collections::hash::map::entry::', 'std::collections::hash::set::HashSet::',
            'alloc::collections::btree::map::BTreeMap::', 'alloc::collections::btree::set::BTreeSet::')


class Models:
    """opts: boundaries to keep closed, opaque plugin code, ..."""

    def __init__(self, opaque=(), inline=()):
        self.opaque = opaque          # functions fn -> name or None
        self.unmodelled = {}
        self.write_all_types = set()
        self.drop = None
        self._dm = {}
        self.extra = None             # callable(ctx) -> result or NotImplemented

    restart = staticmethod(restart)

    def drop_matters(self, prog):
        r = self._dm.get(prog)
        if r is None:
            tys = set()
            for f in prog.fns:
                if f.j.get('trait') == 'core::ops::drop::Drop' and f.j.get('local') and 'self' in f.j:
                    tys.add(f.j['self'])
            r = lambda tid: tid in tys
            self._dm[prog] = r
        return r

    def call(self, I_, S, fn, args, term):
        c = Ctx(I_, S, fn, args, term, self)
        if self.extra is not None:
            r = self.extra(c)
            if r is not NotImplemented:
                return r
        d = fn.defn
        if fn.j.get('kind') == 'synthetic':
            return None
        if fn.j.get('local') and fn.body is not None:
            return None
        # names without generics
        key = None
        if fn.j.get('trait') and fn.j.get('method'):
            key = 'trait %s::%s' % (fn.j['trait'], fn.j['method'])
        n = norm(d)
        if fn.j.get('method') == 'next' and fn.j.get('self') is not None:
            skipping(c)
        f = TABLE.get(n)
        if f is None and (fn.body is None) and key is not None:
            f = TABLE.get(key)
        if f is None and fn.body is None:
            f = TABLE.get(alt(n))
        if f is not None:
            return f(c)
        if n.startswith(MODELLED):
            raise Undecided('unmodelled %s' % n)
        if fn.body is not None and not n.startswith('failure::backtrace'):
            return None
        if fn.j.get('kind') == 'shim' and fn.body is None:
            return UNIT
        for p in PANIC_PREFIX:
            if n.startswith(p):
                raise Panic(n)
        m = re.fullmatch(r'.*::(\w+)', n)
        # constructors of tuple structs and variants
        r = ctor(c)
        if r is not None:
            return r
        if n == 'core::ops::drop::Drop::drop' or (fn.j.get('trait') == 'core::ops::drop::Drop'):
            return UNIT
        return self.unknown(c, n, key)

    def unknown(self, c, n, key):
        I_, S = c.I, c.S
        self.unmodelled[n] = self.unmodelled.get(n, 0) + 1
        if any(n.startswith(p) for p in EFFECT_PREFIX) or \
                (c.fn.j.get('trait') or '').startswith(('core::io::', 'alloc::io::', 'std::os::', 'std::io')):
            vals = [deep(I_, S, a) for a in c.args]
            k = sum(1 for e in S.events if e.args[0] in ('sys', 'loop'))
            I_.emit(S, 'sys', n, *vals)
            self.havoc(c, n, k)
            return self.typed(c, mk('res', n, k))
        vals = [deep(I_, S, a) for a in c.args]
        r = mk('ext', n, tuple(c.fn.j.get('targs') or ()) and I_.p.tname(c.sig[-1]) if c.sig else '', *vals)
        if not n.startswith(('slog::', 'slog_syslog::', 'backtrace::')):
            self.havoc(c, n, r)
        return self.typed(c, r)

    def typed(self, c, r):
        if not c.sig:
            return r
        x = c.I.p.types[c.sig[-1]]
        if x['k'] == 'bool':
            return mk('bool', 'ext', r)
        if x['k'] == 'never':
            raise Panic('diverges')
        if x['k'] == 'tuple' and not x['fields']:
            return UNIT
        return r

    def havoc(self, c, n, k):
        """What an unknown function may write through its arguments."""
        p = c.I.p
        N = [0]

        def go(a, ty, d):
            x = p.types[ty]
            if x['k'] == 'ref':
                if x.get('mut') and a.op == 'ptr':
                    N[0] += 1
                    c.store(a, mk('havoc', n, k if isinstance(k, t.T) else I(k), N[0]))
                return
            if a.op != 'agg' or d > 4:
                return
            fs = p.fields(ty, a.args[0]) if x['k'] in ('adt', 'tuple', 'closure') else []
            if len(fs) == len(a.args) - 1:
                for (_, ft), v in zip(fs, a.args[1:]):
                    go(v, ft, d + 1)
        for a, ty in zip(c.args, c.sig[:-1]):
            go(a, ty, 0)

    def indirect(self, I_, S, v, args, term):
        vals = [deep(I_, S, a) for a in args]
        n = sum(1 for e in S.events if e.args[0] in ('call', 'loop'))
        I_.emit(S, 'call', v, *vals)
        return mk('res', 'call', n)


def alt(n):
    """Other spellings of a definition path (modules move between releases)."""
    n = n.replace('std::ffi::c_str::', 'alloc::ffi::c_str::') if n.startswith('std::ffi::c_str') else n
    return n


def ctor(c):
    """A tuple-struct or variant constructor used as a function."""
    p = c.I.p
    if not c.sig:
        return None
    to = c.sig[-1]
    x = p.types[to]
    if x['k'] != 'adt' or c.fn.j.get('trait'):
        return None
    d = c.fn.defn
    if x['akind'] == 'struct' and norm(d) == norm(x['def']):
        if p.transparent(to) is not None:
            return c.args[0]
        return agg(None, *c.args)
    if x['akind'] == 'enum':
        for i, v in enumerate(x['variants']):
            if norm(d) == norm(x['def']) + '::' + v['name'] and len(v['fields']) == len(c.args):
                return agg(i, *c.args)
    return None
