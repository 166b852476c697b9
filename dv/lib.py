"""Assumed contracts of library code: the C++ standard library, libc, and the
protobuf runtime / generated accessors (the trusted base)."""
import functools
import re
import z3
from . import sorts as S
from .sorts import *
from .sorts import sname
from . import protos as P
from .core import *

CONTRACTS = []


def contract(rx):
    def deco(fn):
        CONTRACTS.append((re.compile(rx + r'$' if not rx.endswith('$') else rx, re.S), fn))
        return fn
    return deco


# ---------------------------------------------------------------- type strings
def split_targs(s):
    """'X<A, B<C>>' -> ('X', ['A','B<C>'])"""
    i = s.find('<')
    if i < 0:
        return s, []
    d = 0
    args = []
    cur = ''
    j = i
    while j < len(s):
        ch = s[j]
        if ch == '<' or ch == '(':
            d += 1
            if d == 1:
                j += 1
                continue
        elif ch == '>' or ch == ')':
            d -= 1
            if d == 0:
                break
        if ch == ',' and d == 1:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
        j += 1
    if cur.strip():
        args.append(cur.strip())
    return s[:i], args


def strip_cv(t):
    t = t.strip()
    while True:
        if t.endswith(' const'):
            t = t[:-6]
        elif t.startswith('const '):
            t = t[6:]
        else:
            return t


_INTS = {'int', 'long', 'unsigned int', 'unsigned long', 'short', 'char', 'signed char', 'unsigned char', 'long long'}
PTRENC = z3.DeclareSort('PtrEnc')


def msg_of(t):
    full = P.all_cxx().get(t)
    if full is None:
        return None
    return P.msg(full)


_sortcache = {}


def sort_of(t):
    t = strip_cv(t)
    if t in _sortcache:
        return _sortcache[t]
    r = _sort_of(t)
    _sortcache[t] = r
    return r


REGION_PTRS = []     # (regex of a pointer type, Region): its pointers are addresses (z3 Ints) in that region


def region_of(t):
    for rx, reg in REGION_PTRS:
        if re.match(rx, t):
            return reg


def _sort_of(t):
    if t.endswith('*') and region_of(t):
        return z3.IntSort()
    if t == 'std::string':
        return Str
    if t in ('double', 'float'):
        return Dbl
    if t == 'bool':
        return z3.BoolSort()
    if t in _INTS:
        return z3.IntSort()
    if t.endswith('*') or t.startswith('std::unique_ptr<') or t.startswith('std::shared_ptr<'):
        return PTRENC
    b, a = split_targs(t)
    if b in ('std::map', 'std::unordered_map', 'pb::Map'):
        return map_of(sort_of(a[0]), sort_of(a[1])).sort
    if b in ('std::set', 'std::unordered_set'):
        return map_of(sort_of(a[0]), z3.BoolSort()).sort
    if b in ('std::vector', 'pb::RepeatedField', 'pb::RepeatedPtrField', 'std::deque', 'std::list'):
        return seq_of(sort_of(a[0])).sort
    m = msg_of(t)
    if m is not None:
        return m.sort
    if re.match(r'[\w:]+$', t) and re.search(r'(Kind|Case|Code|Importance|Mode|_[A-Z]\w+)$', t):
        return z3.IntSort()
    if t == 'pb::Status':
        return Status
    raise Unsupported('no logical sort for type %s' % t)


# ---------------------------------------------------------------- Status
_SD = z3.Datatype('Status')
_SD.declare('mkstatus', ('scode', z3.IntSort()), ('smsg', Str))
Status = _SD.create()


def mkstatus(code, msg=None):
    return Status.mkstatus(zint(code), msg if msg is not None else EMPTY)


def scode(s):
    if z3.is_app(s) and s.decl().eq(Status.mkstatus):
        return toint(s.arg(0))
    return Status.scode(s)


OK_STATUS = mkstatus(0)


def nm(d):
    return d.split('(')[0]


# ---------------------------------------------------------------- generic helpers
def default_of(sort):
    if sort == Str:
        return EMPTY
    if sort == Dbl:
        return fin(z3.RealVal(0))
    if sort == z3.BoolSort():
        return z3.BoolVal(False)
    if sort == z3.IntSort():
        return z3.IntVal(0)
    m = S.map_sort(sort)
    if m:
        return m.empty()
    q = S.seq_sort(sort)
    if q:
        return q.empty()
    m = P.BYSORT.get(sort.get_id())
    if m:
        return m.default
    if sort == PTRENC:
        return z3.Const('null_enc', PTRENC)
    raise Unsupported('default of %s' % sort)


def unstrz(v):
    return v


rawbytes = z3.Function('rawbytes', z3.IntSort(), z3.IntSort(), Str)


CUT = z3.Function('cut_at_nul', Str, Str)
NULFREE = z3.Function('nul_free', Str, z3.BoolSort())


def cut_nul(st, s):
    """what a reader of a NUL-terminated string sees of the text s"""
    b = lit_bytes(s)
    if b is not None:
        i = b.find(b'\0')
        return lit(b if i < 0 else b[:i])
    c = CUT(s)
    st.assume(slen(c) >= 0)
    st.assume(slen(c) <= slen(s))
    st.assume(NULFREE(s) == (c == s))
    st.assume(z3.Implies(slen(c) == slen(s), c == s))
    return c


def data_of(ex, st, v, n=None):
    """Str term for a char pointer (n: explicit length or None for NUL-terminated)"""
    if isinstance(v, Obj) and v.kind == 'cstr':
        if n is None:
            return v.s if getattr(v, 'z', None) else cut_nul(st, v.s)
        if is_c(n) or True:
            if ex.must(st, Eq(n, slen(v.s))):
                return v.s
        return z3.Function('sprefix', Str, z3.IntSort(), Str)(v.s, zint(n))
    if isinstance(v, Ptr) and v.b:
        b = ex.blk(st, v)
        base = None
        for o, c in b.cells.items():
            if isinstance(c, Obj) and c.kind == 'bytes' and o <= v.o < o + len(c.b) + 1:
                raw = c.b[v.o - o:]
                if n is None:
                    i = raw.find(b'\0')
                    return lit(raw[:i] if i >= 0 else raw)
                if is_c(n):
                    if n > len(raw):
                        ex.oblige(st, 'no-out-of-bounds-read', False, 'safety', detail='reads %d bytes of %d' % (n, len(raw)))
                        raise PathEnd()
                    return lit(raw[:n])
        c = b.cells.get(v.o)
        if z3.is_expr(c) and c.sort() == Str and not v.p:
            if n is None:
                return c if v.b in ex.__dict__.get('cstrblocks', ()) else unsup('character data without length')
            if ex.must(st, Eq(n, slen(c))):
                return c
        if isinstance(c, Obj) and c.kind == 'piece' and is_c(n):   # consecutive pieces written by sprintf
            out, o, left = EMPTY, v.o, n
            while left > 0:
                c = b.cells.get(o)
                if not isinstance(c, Obj) or c.kind != 'piece' or c.n > left:
                    unsup('character data of mixed buffer')
                out = s_cat(out, c.s)
                o, left = o + c.n, left - c.n
            return out
        if n is not None and is_c(n) and not v.p and (is_c(c) or (z3.is_expr(c) and z3.is_int(c))):
            r = rawbytes(zint(c), zint(n))      # object representation of an integer
            st.assume(slen(r) == n)
            return r
        h = ex.opts.get('chardata')
        if h:
            r = h(ex, st, v, n)
            if r is not None:
                return r
    raise Unsupported('character data of %r' % (v,))


def unsup(m):
    raise Unsupported(m)


def strval(ex, st, p):
    v = ex.read(st, p, 'string')
    if not z3.is_expr(v) or v.sort() != Str:
        raise Unsupported('string object expected, got %r' % (v,))
    return v


def str_len(ex, st, s):
    b = lit_bytes(s)
    if b is not None:
        return len(b)
    n = slen(s)
    st.assume(n >= 0)
    st.assume((n == 0) == (s == EMPTY))
    return n


def cat_axiom(st, r, a, b):
    st.assume(slen(r) == slen(a) + slen(b))


def iterd(cs, c, pos, n, ordf=None, **kw):
    return Obj('iter', c=c, cs=cs, mode='pos', pos=pos, n=n, ordf=ordf, **kw)


def extend(p, step):
    if not isinstance(p, Ptr):
        raise Unsupported('lens on %r' % (p,))
    return Ptr(p.b, p.o, p.p + (step,))


def container(ex, st, p):
    v = ex.read(st, p, 'container')
    if v is UNDEF or not z3.is_expr(v):
        raise Unsupported('container value %r' % (v,))
    cs = S.map_sort(v.sort()) or S.seq_sort(v.sort())
    if cs is None:
        raise Unsupported('not a container: %s' % v.sort())
    return v, cs


def uord_fns(cs, p, dom):
    """enumeration of an unordered container: an arbitrary function of the object
    (its address) and its key set; (ord, idx)"""
    terms, shape = [], '%s_%s' % (p.b, p.o)
    for x in p.p:
        shape += '_' + x[0]
        if x[0] == 'f':
            shape += x[2].name
        elif z3.is_expr(x[2]):
            terms.append(x[2])
        elif is_c(x[2]):
            terms.append(zint(x[2]))
    sorts = [t.sort() for t in terms]
    n = shape + '_' + sname(cs.key)
    f = z3.Function('uord_' + n, *(sorts + [dom.sort(), z3.IntSort(), cs.key]))
    g = z3.Function('uidx_' + n, *(sorts + [dom.sort(), cs.key, z3.IntSort()]))
    return (lambda i: f(*(terms + [dom, zint(i)]))), (lambda k: g(*(terms + [dom, k])))


def map_order(ex, st, cs, m, ordered, p):
    """(ord, idx, n): an enumeration of the keys of m; content-determined for ordered maps"""
    n = cs.size(m)
    dom = cs.dom(m)
    if ordered:
        ordf = lambda i: cs.sord(dom, zint(i))
        idx = lambda k: cs.sidx(dom, k)
    else:
        ordf, idx = uord_fns(cs, p, dom)
    order_axioms(st, cs, dom, n, ordf, idx)
    return ordf, idx, n


def order_axioms(st, cs, dom, n, ordf, idx):
    i = z3.Int(fresh_name('i'))
    k = z3.Const(fresh_name('k'), cs.key)
    st.assume(zint(n) >= 0)
    st.assume(forall([i], z3.Implies(z3.And(i >= 0, i < zint(n)),
                                        z3.And(z3.Select(dom, ordf(i)), idx(ordf(i)) == i)),
                        patterns=[ordf(i)]))
    st.assume(forall([k], z3.Implies(z3.Select(dom, k),
                                        z3.And(idx(k) >= 0, idx(k) < zint(n), ordf(idx(k)) == k)),
                        patterns=[idx(k), z3.Select(dom, k)] if not z3.is_K(dom) and not z3.is_store(dom) else [idx(k)]))


def iter_key(it):
    if it.mode == 'key':
        return it.key
    return it.ordf(it.pos)


def obj_eq(ex, st, a, b):
    if a.kind == 'iter' and b.kind == 'iter':
        if a.mode == 'end' and b.mode == 'end':
            return True
        for x, y in ((a, b), (b, a)):
            if y.mode == 'end':
                if x.mode == 'key':
                    return False
                return Eq(x.pos, x.n)
        if a.mode == 'pos' and b.mode == 'pos':
            return Eq(a.pos, b.pos)
        ka, kb = iter_key(a), iter_key(b)
        c = ka == kb
        for x in (a, b):
            if x.mode == 'pos':
                c = And(c, x.pos < x.n)
        return c
    if a.kind == 'addr' and b.kind == 'addr':
        return ex.ptr_eq(st, a.p, b.p)
    raise Unsupported('compare %s %s' % (a.kind, b.kind))


def deref(ex, st, it):
    if not isinstance(it, Obj) or it.kind != 'iter':
        raise Unsupported('deref of %r' % (it,))
    if it.mode == 'end':
        ex.oblige(st, 'no-end-iterator-dereference', False, 'safety')
        raise PathEnd()
    if it.mode == 'key' and ex.opts.get('iter_check') and isinstance(it.cs, S.MapS):
        ex.oblige(st, ex.opts['iter_check'], it.cs.has(ex.read(st, it.c), it.key), 'safety')
    if it.mode == 'pos':
        n = it.n
        if isinstance(it.cs, S.SeqS):
            n = it.cs.len(ex.read(st, it.c))
        ex.oblige(st, 'iterator-in-range', And(toint(it.pos) >= 0, toint(it.pos) < n), 'safety')
    if isinstance(it.cs, S.SeqS):
        return extend(it.c, ('i', it.cs, it.pos))
    return extend(it.c, ('ent', it.cs, iter_key(it)))


# ---------------------------------------------------------------- noise
@contract(r'(pb::internal::LogMessage::.*|pb::internal::LogFinisher::.*|std::__new_allocator<.*>::(~?__new_allocator|allocate_dummy).*|std::allocator<.*>::~?allocator\(.*\)|std::ios_base::Init::.*|llvm\.lifetime\..*|llvm\.dbg\..*)')
def noop(ex, st, ci):
    if '::operator<<' in ci.dem or '::operator=' in ci.dem:
        return ci.args[0]
    return None


@contract(r'(pb::Message::DebugString\(\) const|pb::Message::ShortDebugString\(\) const|pb::MessageLite::\w+String\(\) const|std::(__cxx11::)?to_string\(.*\))')
def debugstring(ex, st, ci):
    ex.write(st, ci.args[0], fresh(Str, 'dbgstr'))


@contract(r'pb::stringpiece_internal::StringPiece::StringPiece(<.*>)?\(.*\)')
def sp_ctor(ex, st, ci):
    p = ci.args[0]
    src = NULL
    n = 0
    if len(ci.args) > 1:
        a = ci.args[1]
        if 'std::string const&' in ci.dem or 'std::basic_string' in ci.dem:
            s = strval(ex, st, a)
            src, n = Obj('cstr', s=s), str_len(ex, st, s)
        elif len(ci.args) > 2:
            src, n = a, ci.args[2]
        else:
            s = data_of(ex, st, a)
            src, n = Obj('cstr', s=s), str_len(ex, st, s)
    ex.write(st, p, src)
    ex.write(st, Ptr(p.b, p.o + 8), n)


@contract(r'__assert_fail')
def assert_fail(ex, st, ci):
    txt = ''
    try:
        txt = (lit_bytes(data_of(ex, st, ci.args[0])) or b'').decode()
    except Unsupported:
        pass
    ex.oblige(st, 'assertion-holds', False, 'safety', detail=txt)
    raise PathEnd()


@contract(r'(llvm\.trap|pb::stringpiece_internal::StringPiece::LogFatal.*|abort|std::terminate\(\)|__cxa_pure_virtual|std::__throw_\w+\(.*\)|std::__glibcxx_assert_fail.*)')
def trap(ex, st, ci):
    ex.oblige(st, 'no-trap', False, 'safety', detail=ci.dem)
    raise PathEnd()


@contract(r'(llvm\.memcpy|llvm\.memmove)\..*')
def memcpy(ex, st, ci):
    ex.memcpy(st, ci.args[0], ci.args[1], toint(ci.args[2]))


@contract(r'llvm\.memset\..*')
def memset(ex, st, ci):
    p, v, n = ci.args[:3]
    if not is_c(v) or int(v) != 0 or not is_c(n):
        raise Unsupported('memset')
    b = ex.blk(st, p)
    b = st.wblk(p.b)
    for o in [o for o in b.cells if p.o <= o < p.o + n]:
        del b.cells[o]
    ln = n

    old = b.lazy

    def lz(ex, st, b, o, base=p.o, n=ln, old=old):
        if base <= o < base + n:
            return 0
        return old(ex, st, b, o) if old else None
    b.lazy = lz


@contract(r'(operator new|operator new\[\])\(unsigned long\)')
def op_new(ex, st, ci):
    b = st.new_block('new@' + ex.unit, ci.args[0], 'heap')
    return Ptr(b.id)


@contract(r'(operator delete|operator delete\[\])\(void\*(, unsigned long)?\)')
def op_delete(ex, st, ci):
    delete_block(ex, st, ci.args[0])


def delete_block(ex, st, p):
    if isinstance(p, SPtr):
        h = getattr(p.reg, 'free', None)
        if h:
            return h(ex, st, p)
        raise Unsupported('delete of region pointer')
    if p.b == 0:
        return
    b = st.mem.get(p.b)
    if b is None:
        raise Unsupported('delete of unknown block')
    if not b.alive:
        ex.oblige(st, 'no-double-free', False, 'safety', detail=b.name)
        raise PathEnd()
    if b.kind != 'heap' or p.o or p.p:
        ex.oblige(st, 'frees-only-heap-blocks', False, 'safety', detail='%s %s' % (b.name, b.kind))
        raise PathEnd()
    st.wblk(p.b).alive = False
    ev = ex.opts.get('on_free')
    if ev:
        ev(ex, st, p)


# ---------------------------------------------------------------- locks, time, threads
# ghost 'held': the locks this thread holds, {(block, offset, recursive): times}
def held(st):
    return dict(st.ghost.get('held', ()))


def set_held(st, h):
    st.ghost['held'] = tuple(sorted(h.items()))


@contract(r'std::(recursive_|timed_|shared_)?mutex::(lock|unlock|try_lock)\(\)')
def mutex_op(ex, st, ci):
    p = ci.args[0]
    if not isinstance(p, Ptr):
        raise Unsupported('mutex')
    if p.b == 0:
        ex.oblige(st, 'lock-is-not-null', False, 'safety')
        raise PathEnd()
    rec = 'recursive_' in ci.dem.split('::')[1]
    k = (p.b, p.o)
    h = held(st)
    hook = ex.opts.get('on_lock')
    if '::unlock' in ci.dem:
        if hook:
            hook(ex, st, k, 'unlock')
        ex.oblige(st, 'unlocks-only-a-held-lock', k in h, 'safety')
        if h.get(k, 0) <= 1:
            h.pop(k, None)
        else:
            h[k] -= 1
        set_held(st, h)
        return
    if '::try_lock' in ci.dem:
        raise Unsupported('try_lock')
    if not rec:
        ex.oblige(st, 'no-thread-waits-for-a-lock-it-holds', k not in h, 'safety')
        if k in h:
            raise PathEnd()
    h[k] = h.get(k, 0) + 1
    set_held(st, h)
    if not rec:
        st.ghost['plain_locks'] = tuple(sorted(set(st.ghost.get('plain_locks', ())) | {k}))
    if hook:
        hook(ex, st, k, 'lock')


@contract(r'std::(recursive_|timed_|shared_)?mutex::~?(recursive_|timed_|shared_)?mutex\(\)|std::__(recursive_)?mutex_base::~?__(recursive_)?mutex_base\(\)')
def mutex_ctor(ex, st, ci):
    return None


@contract(r'gettimeofday')
def gettimeofday(ex, st, ci):
    """microsecond clock, monotone (an assumption), after 1970 and before 10^15 us"""
    now = fresh(z3.IntSort(), 'now')
    st.assume(z3.And(now >= zint(st.ghost.get('now', 0)), now >= 0, now < 10 ** 15 * 4))
    st.ghost['now'] = now
    p = ci.args[0]
    sec, us = fresh(z3.IntSort(), 'sec'), fresh(z3.IntSort(), 'usec')
    st.assume(z3.And(now == sec * 1000000 + us, us >= 0, us < 1000000, sec >= 0))
    ex.write(st, p, sec)
    ex.write(st, Ptr(p.b, p.o + 8), us)
    return 0


@contract(r'__gnu_cxx::__is_single_threaded\(\)')
def single_threaded(ex, st, ci):
    return False


@contract(r'__gthread_active_p\(\)')
def gthread_active(ex, st, ci):
    return 1


@contract(r'llvm\.fmuladd\.f64')
def fmuladd(ex, st, ci):
    return d_add(d_mul(ci.args[0], ci.args[1]), ci.args[2])


@contract(r'(std::abs\(double\)|fabs|llvm\.fabs\.f64)')
def fabs(ex, st, ci):
    a = ci.args[0]
    return d_ite(d_lt(a, dconst(0.0)), d_neg(a), a)


# logarithms: strictly monotone, log(1) = 0 (one function symbol per base)
RLOG = {n: z3.Function('r' + n, z3.RealSort(), z3.RealSort()) for n in ('log', 'log2', 'log10')}


def log_axioms(st, rlog, x):
    st.assume(z3.Implies(x > 1, rlog(x) > 0))
    st.assume(z3.Implies(x == 1, rlog(x) == 0))
    st.assume(z3.Implies(z3.And(x > 0, x < 1), rlog(x) < 0))


@contract(r'(log|log2|log10|std::log.*\(double\))')
def log(ex, st, ci):
    a = ci.args[0]
    r = d_r(a)
    rlog = RLOG[ci.dem.replace('std::', '').split('(')[0]]
    log_axioms(st, rlog, r)
    v = rlog(r)
    return d_ite(d_isfin(a), d_ite(r > 0, fin(v), d_ite(r == 0, NINF, NAN)), d_ite(d_is(a, PINF), PINF, NAN))


@contract(r'(floor|ceil|std::floor\(double\)|std::ceil\(double\)|llvm\.(floor|ceil)\.f64|trunc|round)')
def floor(ex, st, ci):
    a = ci.args[0]
    r = d_r(a)
    if 'floor' in ci.dem:
        t = z3.ToReal(z3.ToInt(r))
    elif 'ceil' in ci.dem:
        t = -z3.ToReal(z3.ToInt(-r))
    else:
        raise Unsupported(ci.dem)
    return d_ite(d_isfin(a), fin(t), a)


@contract(r'(bool )?std::(isnan|isinf|isfinite)\(double\)')
def isnan(ex, st, ci):
    a = ci.args[0]
    if 'isnan' in ci.dem:
        return d_isnan(a)
    if 'isfinite' in ci.dem:
        return d_isfin(a)
    return Or(d_is(a, PINF), d_is(a, NINF))


@contract(r'llvm\.is\.fpclass\.f64')
def isfpclass(ex, st, ci):
    a, mask = ci.args
    m = int(mask)
    alts = []
    if m & 3:
        alts.append(d_isnan(a))
    if m & 4:
        alts.append(d_is(a, NINF))
    if m & 512:
        alts.append(d_is(a, PINF))
    finb = m & 0x1f8
    if finb == 0x1f8:
        alts.append(d_isfin(a))
    elif finb:
        raise Unsupported('fpclass mask')
    return Or(*alts)


SST = r'std::(__cxx11::)?basic_[io]?stringstream<char[^(]*>::'


@contract(SST + r'(basic_[io]?stringstream|~basic_[io]?stringstream)\(.*\)')
def sstream_ctor(ex, st, ci):
    if '~' in ci.dem:
        destroy_cell(ex, st, ci.args[0])
    else:
        ex.write(st, ci.args[0], Obj('sstream'))


@contract(SST + r'str\(.*\)( const)?')
def sstream_str(ex, st, ci):
    if ci.attrs and 'sret' in ci.attrs[0]:
        ex.write(st, ci.args[0], fresh(Str, 'sstr'))


@contract(r'(std::(basic_)?ostream(<.*>)?::operator<<\(.*\)|std::(basic_)?ostream(<char, .*>)?& std::operator<<.*)')
def ostream_put(ex, st, ci):
    return ci.args[0]


@contract(r'(strlen)')
def strlen(ex, st, ci):
    return str_len(ex, st, data_of(ex, st, ci.args[0]))


# ---------------------------------------------------------------- std::string
SX = r'std::string'


@contract(r'std::string::basic_string(<.*>)?\(.*\)|std::__cxx11::basic_string<char, .*>::basic_string.*')
def str_ctor(ex, st, ci):
    p = ci.args[0]
    sig = ci.dem[ci.dem.index('basic_string', 5):]
    sig = sig[sig.index('('):] if '<' not in sig.split('(')[0] else sig[sig.rindex('('):]
    if sig == '()' or sig.startswith('(std::allocator'):
        v = EMPTY
    elif sig.startswith('(std::string const&'):
        v = strval(ex, st, ci.args[1])
        if ',' in sig and 'allocator' not in sig:
            raise Unsupported(ci.dem)
    elif sig.startswith('(std::string&&'):
        v = strval(ex, st, ci.args[1])
        ex.write(st, ci.args[1], fresh(Str, 'moved'))
    elif sig.startswith('(char const*, unsigned long'):
        v = data_of(ex, st, ci.args[1], toint(ci.args[2]))
    elif sig.startswith('(char const*'):
        v = data_of(ex, st, ci.args[1])
    elif sig.startswith('(unsigned long, char'):
        v = fresh(Str, 'filled')
        st.assume(slen(v) == zint(unsigned(ci.args[1], 64)))
    else:
        raise Unsupported(ci.dem)
    ex.write(st, p, v)


@contract(r'std::string::~basic_string\(\)')
def str_dtor(ex, st, ci):
    destroy_cell(ex, st, ci.args[0])


def destroy_cell(ex, st, p):
    b = ex.blk(st, p, 'destructor')
    if not p.p:
        st.wblk(p.b).cells.pop(p.o, None)


@contract(r'std::string::operator=\(.*\)|std::string::assign\((std::string (const&|&&)|char const\*)\)')
def str_assign(ex, st, ci):
    if '(std::string' in ci.dem:
        v = strval(ex, st, ci.args[1])
        if '&&' in ci.dem and not (isinstance(ci.args[0], Ptr) and ci.args[0].same(ci.args[1]) is True):
            ex.write(st, ci.args[1], fresh(Str, 'moved'))
    elif 'char const*' in ci.dem:
        v = data_of(ex, st, ci.args[1])
    else:
        raise Unsupported(ci.dem)
    ex.write(st, ci.args[0], v)
    return ci.args[0]


@contract(r'std::string::(size|length)\(\) const')
def str_size(ex, st, ci):
    return str_len(ex, st, strval(ex, st, ci.args[0]))


@contract(r'std::string::empty\(\) const')
def str_empty(ex, st, ci):
    return Eq(strval(ex, st, ci.args[0]), EMPTY)


@contract(r'std::string::(c_str|data)\(\)( const)?')
def str_cstr(ex, st, ci):
    return Obj('cstr', s=strval(ex, st, ci.args[0]), at=ci.args[0])


@contract(r'std::string::(operator\[\]|at|front|back)\(.*\)( const)?')
def str_index(ex, st, ci):
    s = strval(ex, st, ci.args[0])
    n = str_len(ex, st, s)
    m = re.search(r'(operator\[\]|at|front|back)\(', ci.dem).group(1)
    i = 0 if m == 'front' else n - 1 if m == 'back' else toint(ci.args[1])
    ex.oblige(st, 'string-index-in-range', And(i >= 0, i <= n if m == 'operator[]' else i < n), 'safety')
    return extend(ci.args[0], ('ch', None, i))


hexfmt = z3.Function('hexfmt', Str, z3.IntSort(), Str)
md5 = z3.Function('md5', Str, Str)


@contract(r'sprintf|snprintf')
def sprintf(ex, st, ci):
    a = list(ci.args)
    p = a.pop(0)
    if ci.dem.startswith('snprintf'):
        lim = toint(a.pop(0))
    f = lit_bytes(data_of(ex, st, a[0]))
    if f not in (b'%02x', b'%02X', b'%02hhx') or len(a) != 2 or not isinstance(p, Ptr):
        raise Unsupported('sprintf format %r' % (f,))
    v = zint(a[1])
    if f == b'%02hhx':
        v, f = v % 256, b'%02x'
    ex.oblige(st, 'sprintf-value-is-one-byte', And(v >= 0, v <= 255), 'safety')
    t = hexfmt(lit(f), v)
    st.assume(slen(t) == 2)
    b = ex.blk(st, p, 'sprintf')
    ex.oblige(st, 'sprintf-within-buffer', Or(not is_c(b.size), p.o + 3 <= b.size if is_c(b.size) else True), 'safety')
    b = st.wblk(p.b)
    for o in [o for o in b.cells if p.o <= o < p.o + 3]:
        del b.cells[o]
    b.cells[p.o] = Obj('piece', s=t, n=2)
    b.cells[p.o + 2] = Obj('bytes', b=b'\0')
    return 2


@contract(r'MD5_Init')
def md5_init(ex, st, ci):
    ex.write(st, ci.args[0], EMPTY)
    st.ghost['md5ctx'] = ci.args[0]
    return 1


@contract(r'MD5_Update')
def md5_update(ex, st, ci):
    p = ci.args[0]
    v = ex.read(st, p, 'MD5 context')
    if not z3.is_expr(v) or v.sort() != Str:
        raise Unsupported('MD5 context')
    d = data_of(ex, st, ci.args[1], toint(ci.args[2]))
    r = s_cat(v, d)
    cat_axiom(st, r, v, d)
    ex.write(st, p, r)
    return 1


@contract(r'MD5_Final')
def md5_final(ex, st, ci):
    v = ex.read(st, ci.args[1], 'MD5 context')
    if not z3.is_expr(v) or v.sort() != Str:
        raise Unsupported('MD5 context')
    d = md5(v)
    st.assume(slen(d) == 16)
    p = ci.args[0]
    ex.write(st, p, d)
    ex.write(st, ci.args[1], fresh(Str, 'wiped'))     # the context is cleared by finalisation
    return 1


@contract(r'MD5')
def md5_oneshot(ex, st, ci):
    d = md5(data_of(ex, st, ci.args[0], toint(ci.args[1])))
    st.assume(slen(d) == 16)
    ex.write(st, ci.args[2], d)
    return ci.args[2]


@contract(r'std::string::clear\(\)')
def str_clear(ex, st, ci):
    ex.write(st, ci.args[0], EMPTY)


@contract(r'std::string::(append|operator\+=|push_back)\(.*\)')
def str_append(ex, st, ci):
    a = strval(ex, st, ci.args[0])
    if '(std::string const&)' in ci.dem:
        b = strval(ex, st, ci.args[1])
    elif '(char const*)' in ci.dem:
        b = data_of(ex, st, ci.args[1])
    elif '(char const*, unsigned long)' in ci.dem:
        b = data_of(ex, st, ci.args[1], toint(ci.args[2]))
    elif '(char)' in ci.dem and is_c(ci.args[1]):
        b = lit(bytes([ci.args[1] % 256]))
    else:
        raise Unsupported(ci.dem)
    r = s_cat(a, b)
    cat_axiom(st, r, a, b)
    ex.write(st, ci.args[0], r)
    return ci.args[0]


@contract(r'(bool |std::__enable_if<.*>::__type |typename .* )?std::operator(==|!=|<)<char, .*>\(.*\)')
def str_cmp(ex, st, ci):
    argl = ci.dem[ci.dem.rindex('>(') + 2:]
    parts = argl.split(', ')

    def val(i, t):
        return strval(ex, st, ci.args[i]) if t.startswith('std::string') else data_of(ex, st, ci.args[i])
    a, b = val(0, parts[0]), val(1, parts[1])
    if 'operator<' in ci.dem and 'operator<<' not in ci.dem:
        return z3.Function('slt', Str, Str, z3.BoolSort())(a, b)
    e = Eq(a, b)
    return e if 'operator==' in ci.dem else Not(e)


@contract(r'std::string::compare\(std::string const&\) const')
def str_compare(ex, st, ci):
    a, b = strval(ex, st, ci.args[0]), strval(ex, st, ci.args[1])
    r = fresh(z3.IntSort(), 'cmp')
    st.assume((r == 0) == (a == b))
    return r


@contract(r'std::string std::operator\+<char.*>\(.*\)')
def str_plus(ex, st, ci):
    argl = ci.dem[ci.dem.rindex('>(') + 2:]
    parts = argl.split(', ')
    a = strval(ex, st, ci.args[1]) if parts[0].startswith('std::string') else data_of(ex, st, ci.args[1])
    b = strval(ex, st, ci.args[2]) if parts[1].startswith('std::string') else data_of(ex, st, ci.args[2])
    r = s_cat(a, b)
    cat_axiom(st, r, a, b)
    ex.write(st, ci.args[0], r)


@contract(r'std::hash<std::string>::operator\(\)\(std::string const&\) const')
def str_hash(ex, st, ci):
    return z3.Function('strhash', Str, z3.IntSort())(strval(ex, st, ci.args[0]))


# ---------------------------------------------------------------- pb::Status
@contract(r'pb::Status::Status\(.*\)')
def status_ctor(ex, st, ci):
    a = ci.args
    if '(pb::Status const&)' in ci.dem or '(pb::Status&&)' in ci.dem:
        v = ex.read(st, a[1])
    elif ci.dem.endswith('Status()'):
        v = OK_STATUS
    else:
        code = a[1]
        v = mkstatus(code, fresh(Str, 'msg'))
        if is_c(code) and code == 0:
            v = OK_STATUS
        elif not is_c(code):
            v = z3.If(code == 0, OK_STATUS, v)
    ex.write(st, a[0], v)


@contract(r'pb::Status::~Status\(\)')
def status_dtor(ex, st, ci):
    destroy_cell(ex, st, ci.args[0])


@contract(r'pb::Status::operator=\(pb::Status (const&|&&)\)')
def status_assign(ex, st, ci):
    ex.write(st, ci.args[0], ex.read(st, ci.args[1]))
    return ci.args[0]


@contract(r'pb::Status::ok\(\) const')
def status_ok(ex, st, ci):
    return Eq(scode(ex.read(st, ci.args[0])), 0)


@contract(r'pb::Status::code\(\) const')
def status_code(ex, st, ci):
    return scode(ex.read(st, ci.args[0]))


@contract(r'pb::Status::operator(==|!=)\(pb::Status const&\) const')
def status_eq(ex, st, ci):
    a, b = ex.read(st, ci.args[0]), ex.read(st, ci.args[1])
    e = Eq(a, b)
    return e if '==' in ci.dem else Not(e)


@contract(r'pb::Status::(message|error_message|ToString)\(\) const')
def status_msg(ex, st, ci):
    if 'ToString' in ci.dem:
        ex.write(st, ci.args[0], fresh(Str, 'str'))
        return
    s = Status.smsg(ex.read(st, ci.args[0]))
    return (Obj('cstr', s=s), str_len(ex, st, s))


@contract(r'pb::OkStatus\(\)')
def ok_status(ex, st, ci):
    ex.write(st, ci.args[0], OK_STATUS)


_CODES = {'Cancelled': 1, 'Unknown': 2, 'InvalidArgument': 3, 'DeadlineExceeded': 4, 'NotFound': 5,
          'AlreadyExists': 6, 'PermissionDenied': 7, 'ResourceExhausted': 8, 'FailedPrecondition': 9, 'Aborted': 10,
          'OutOfRange': 11, 'Unimplemented': 12, 'Internal': 13, 'Unavailable': 14, 'DataLoss': 15,
          'Unauthenticated': 16}


@contract(r'pb::(\w+)Error\(pb::stringpiece_internal::StringPiece\)')
def status_err(ex, st, ci):
    n = re.match(r'pb::(\w+)Error', ci.dem).group(1)
    ex.write(st, ci.args[0], mkstatus(_CODES[n], fresh(Str, 'msg')))


# ---------------------------------------------------------------- maps
MAPT = r'(?:std::(?:unordered_map|map|set|unordered_set|_Rb_tree)|pb::Map)<.*>::'


def is_ordered(d):
    return bool(re.match(r'.*?std::(map|set|_Rb_tree)<', d)) and not d.startswith('std::unordered')


def set_like(d):
    return d.startswith('std::set<') or d.startswith('std::unordered_set<')


def map_type(d):
    """(MapS) from the class part of a member's demangled name"""
    cls = member_class(d)
    s = sort_of(cls)
    return S.map_sort(s)


def member_class(d):
    """class type string of 'Class<...>::member(...)'"""
    depth = 0
    i = 0
    last = None
    while i < len(d):
        ch = d[i]
        if ch == '<':
            if d[max(0, i - 8):i + 1].endswith('operator<'):
                break
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0:
            break
        elif ch == ':' and depth == 0 and d[i:i + 2] == '::':
            last = i
            i += 1
        i += 1
    return d[:last]


def member_name(d):
    c = member_class(d)
    return d[len(c) + 2:]


def map_ctor(ex, st, ci):
    m = member_name(ci.dem)
    cs = map_type(ci.dem)
    arg = m[m.index('('):]
    if m.startswith('~'):
        destroy_cell(ex, st, ci.args[0])
        return
    if arg == '()' or '(std::allocator' in arg or arg.startswith('(unsigned long') or arg.startswith('(pb::Arena'):
        ex.write(st, ci.args[0], cs.empty())
        return
    if len(ci.args) >= 2 and re.match(r'.*(const&|&&)(, .*)?\)$', arg) and len(ci.args) == 2:
        v = ex.read(st, ci.args[1])
        ex.write(st, ci.args[0], v)
        if '&&' in arg:
            ex.write(st, ci.args[1], cs.empty())
        return
    if len(ci.args) == 3:
        a, b = ci.args[1], ci.args[2]
        a, b = iter_arg(ex, st, a), iter_arg(ex, st, b)
        src = ex.read(st, a.c)
        scs = a.cs
        if isinstance(scs, S.MapS) and scs is cs and is_c(a.pos) and a.pos == 0 and b.mode == 'end':
            ex.write(st, ci.args[0], src)
            return
    raise Unsupported('constructor %s' % ci.dem)


def iter_arg(ex, st, a):
    if isinstance(a, Obj) and a.kind == 'iter':
        return a
    if isinstance(a, Ptr):
        v = ex.read(st, a)
        if isinstance(v, Obj) and v.kind == 'iter':
            return v
    raise Unsupported('iterator argument %r' % (a,))


CTOR = re.compile(r'~?(unordered_map|map|set|unordered_set|Map)(<.*>)?\(')


def whole_template(c):
    """c is one template-id `name<...>` and nothing else"""
    depth = 0
    for i, ch in enumerate(c):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
            if depth == 0 and i != len(c) - 1:
                return False
    return True


@functools.lru_cache(maxsize=None)
def strip_ret(d):
    """demangled name without the return type that template instances carry"""
    depth, cut = 0, 0
    for i, ch in enumerate(d):
        if ch == '<' and not d[:i].endswith('operator') and not d[:i].endswith('operator<'):
            depth += 1
        elif ch == '>' and not d[:i].endswith(('operator', '-', 'operator>')):
            depth -= 1
        elif ch == '(' and depth == 0:
            break
        elif ch == ' ' and depth == 0 and not d[:i].endswith('operator'):
            cut = i + 1
    return d[cut:]


class MapMatcher:
    rx = re.compile(r'(?:(?:std::)?(?:pair|enable_if|__enable_if)[^(]*? )?(std::(?:unordered_map|map|set|unordered_set)<|pb::Map<)')

    def match(self, d):
        return self.plain(strip_ret(d))

    def plain(self, d):
        if not re.match(r'(std::(unordered_map|map|set|unordered_set)|pb::Map)<', d):
            return None
        try:
            m = member_name(d)
        except Exception:
            return None
        if CTOR.match(m) and re.match(r'(std::)?\w*(map|set|Map)$', split_targs(member_class(d))[0].split('::')[-1] or '') is None:
            return None
        c = member_class(d)
        b = split_targs(c)[0]
        if not c or c.count('<') != c.count('>') or not c.endswith('>') or len(c) > len(d) - 2 or whole_template(c) is False:
            return None
        if b not in ('std::unordered_map', 'std::map', 'std::set', 'std::unordered_set', 'pb::Map'):
            return None
        return True


def ret_iter(ex, st, ci, it):
    """iterators returned in a register or through sret"""
    if ci.attrs and 'sret' in ci.attrs[0]:
        ex.write(st, ci.args[0], it)
        return None
    return it


def map_member(ex, st, ci):
    d = strip_ret(ci.dem)
    m = member_name(d)
    base = split_targs(member_class(d))[0]
    n = re.match(r'[~\w]+|operator\[\]|operator=', m).group()
    if n == 'operator':
        n = m.split('(')[0]
    sret = bool(ci.attrs and 'sret' in ci.attrs[0])
    args = ci.args[1:] if sret else ci.args
    this = args[0]
    if CTOR.match(m):
        return map_ctor(ex, st, ci)
    if n in ('begin', 'cbegin'):
        v, cs = container(ex, st, this)
        ordered = base in ('std::map', 'std::set')
        ordf, idx, cnt = map_order(ex, st, cs, v, ordered, this)
        return ret_iter(ex, st, ci, iterd(cs, this, 0, cnt, ordf, idx=idx, snap=v, ordered=ordered))
    if n in ('end', 'cend'):
        v, cs = container(ex, st, this)
        return ret_iter(ex, st, ci, Obj('iter', c=this, cs=cs, mode='end'))
    if n in ('size',):
        v, cs = container(ex, st, this)
        s = cs.size(v)
        if not is_c(s):
            st.assume(s >= 0)
        return s
    if n == 'empty':
        v, cs = container(ex, st, this)
        s = cs.size(v)
        # size and domain agree
        kk = z3.Const(fresh_name('k'), cs.key)
        if not is_c(s):
            st.assume(s >= 0)
            st.assume((s == 0) == z3.Not(z3.Exists([kk], cs.has(v, kk))))
        return Eq(s, 0)
    if n == 'clear':
        v, cs = container(ex, st, this)
        ex.write(st, this, cs.empty())
        return
    if n in ('operator[]', 'at', 'find', 'count', 'contains', 'erase', 'lower_bound'):
        v, cs = container(ex, st, this)
        a = args[1]
        if n == 'erase' and isinstance(a, Obj) or (n == 'erase' and 'iterator' in m.split('(')[1]):
            it = iter_arg(ex, st, a)
            if it.mode == 'end':
                ex.oblige(st, 'erase-valid-iterator', False, 'safety')
                raise PathEnd()
            k = iter_key(it)
            ex.oblige(st, 'erase-valid-iterator', cs.has(v, k), 'safety')
            ex.write(st, this, cs.remove(v, k, True))
            return ret_iter(ex, st, ci, UNDEF)
        k = keyval(ex, st, a, cs)
        has = cs.has(v, k)
        if n == 'operator[]':
            def present(s):
                return extend(this, ('k', cs, k))

            def absent(s):
                ex.write(s, this, cs.put(v, k, default_of(cs.val), known=False))
                return extend(this, ('k', cs, k))
            raise Fork([(has, present), (Not(has), absent)])
        if n == 'at':
            ex.oblige(st, 'at-key-present', has, 'safety')
            return extend(this, ('k', cs, k))
        if n == 'count':
            return Ite(has, 1, 0)
        if n == 'contains':
            return has
        if n == 'find':
            yes = Obj('iter', c=this, cs=cs, mode='key', key=k)
            no = Obj('iter', c=this, cs=cs, mode='end')
            raise Fork([(has, lambda s: ret_iter(ex, s, ci, yes)), (Not(has), lambda s: ret_iter(ex, s, ci, no))])
        if n == 'erase':
            ex.write(st, this, cs.remove(v, k))
            return Ite(has, 1, 0)
    if n in ('emplace', 'insert', 'try_emplace', 'emplace_hint', 'insert_or_assign'):
        v, cs = container(ex, st, this)
        rest = args[1:]
        if set_like(d):
            if len(rest) != 1:
                raise Unsupported(d)
            k, val = keyval(ex, st, rest[0], cs), z3.BoolVal(True)
        elif len(rest) == 2 and n != 'emplace_hint':
            k = keyval(ex, st, rest[0], cs)
            val = valof(ex, st, rest[1], cs.val)
        elif len(rest) == 1:
            pr = rest[0]       # std::pair in memory: first at +0, second after it
            k = keyval(ex, st, pr, cs)
            val = pair_second(ex, st, pr, cs)
        else:
            raise Unsupported(d)
        has = cs.has(v, k)
        it = Obj('iter', c=this, cs=cs, mode='key', key=k)
        over = n == 'insert_or_assign'

        def done(s, flag):
            if ci.attrs and 'sret' in ci.attrs[0]:
                raise Unsupported('sret pair')
            if n in ('emplace_hint',):
                return it
            return (it, flag)

        def present(s):
            if over:
                ex.write(s, this, cs.put(v, k, val, known=True))
            return done(s, 0)

        def absent(s):
            ex.write(s, this, cs.put(v, k, val, known=False))
            return done(s, 1)
        raise Fork([(has, present), (Not(has), absent)])
    if n == 'operator=':
        ex.write(st, this, ex.read(st, args[1]))
        return this
    if n == 'swap':
        a, b = ex.read(st, this), ex.read(st, args[1])
        ex.write(st, this, b)
        ex.write(st, args[1], a)
        return
    if n in ('reserve', 'rehash'):
        return
    raise Unsupported('map member %s' % d)


def keyval(ex, st, a, cs):
    if isinstance(a, (Ptr, SPtr)):
        if cs.key == Str:
            try:
                return strval(ex, st, a)
            except Unsupported:
                return data_of(ex, st, a)
        v = ex.read(st, a)
        return zint(v) if is_c(v) else v
    if isinstance(a, Obj) and a.kind == 'cstr':
        return a.s
    raise Unsupported('key argument')


def valof(ex, st, a, sort):
    v = ex.read(st, a)
    return enc(ex, st, v, sort)


def enc(ex, st, v, sort):
    if isinstance(v, SPtr):
        v = v.t
    if sort == PTRENC:
        return encode_ptr(ex, st, v)
    if is_c(v):
        return zbool(v) if sort == z3.BoolSort() else zint(v)
    if not z3.is_expr(v) or v.sort() != sort:
        raise Unsupported('value of sort %s expected, got %r' % (sort, v))
    return v


def pair_second(ex, st, pr, cs):
    b = ex.blk(st, pr)
    if pr.p:
        raise Unsupported('pair through lens')
    o1 = 32 if cs.key == Str else 8
    return valof(ex, st, Ptr(pr.b, pr.o + o1), cs.val)


# pointers stored in containers: PtrEnc = penc(shape, index)
_shapes = {}
penc_shape = z3.Function('penc_shape', PTRENC, z3.IntSort())
penc_idx = z3.Function('penc_idx', PTRENC, z3.IntSort())
penc = z3.Function('penc', z3.IntSort(), z3.IntSort(), PTRENC)


def encode_ptr(ex, st, v):
    if not isinstance(v, Ptr):
        raise Unsupported('store %r in container' % (v,))
    idx = [x for x in v.p if x[0] == 'i']
    if any(x[0] in ('k', 'ent') for x in v.p) or len(idx) > 1:
        raise Unsupported('pointer shape')
    sh = (v.b, v.o, tuple((x[0], x[1]) + ((x[2],) if x[0] == 'f' else ()) for x in v.p))
    shapes = ex.__dict__.setdefault('shapes', {})
    n = shapes.setdefault(sh, len(shapes) + 1)
    ex.__dict__.setdefault('shapev', {})[n] = v
    i = zint(idx[0][2]) if idx else z3.IntVal(0)
    t = penc(z3.IntVal(n), i)
    st.assume(penc_shape(t) == n)
    st.assume(penc_idx(t) == i)
    return t


Exec.encode_ptr = lambda ex, st, v: encode_ptr(ex, st, v)


def decode_ptr(ex, st, t):
    """[(condition, pointer)] over the pointer shapes stored in containers so far"""
    alts = []
    for n, v in ex.__dict__.get('shapev', {}).items():
        i = penc_idx(t)
        alts.append((penc_shape(t) == n, Ptr(v.b, v.o, tuple(('i', x[1], i) + x[3:] if x[0] == 'i' else x for x in v.p))
                     if v.b else NULL))
    ex.oblige(st, 'container-pointer-known', Or(*[c for c, _ in alts]), 'safety')
    return alts


Exec.decode_ptr = decode_ptr


@contract(r'(std::_Rb_tree_(const_)?iterator|std::__detail::_Node_(const_)?iterator|pb::Map<.*>::(const_)?iterator|pb::Map<.*>::const_iterator|__gnu_cxx::__normal_iterator|pb::internal::RepeatedPtrIterator|pb::internal::RepeatedIterator|pb::RepeatedPtrIterator)<?.*::operator(\*|->)\(\) const')
def it_deref(ex, st, ci):
    it = iter_arg(ex, st, ci.args[0])
    return deref(ex, st, it)


@contract(r'(std::_Rb_tree_(const_)?iterator|std::__detail::_Node_(const_)?iterator|pb::Map<.*>::(const_)?iterator|__gnu_cxx::__normal_iterator|pb::internal::RepeatedPtrIterator|pb::internal::RepeatedIterator|pb::RepeatedPtrIterator)<?.*::operator(\+\+|--)\((int)?\)')
def it_inc(ex, st, ci):
    sret = bool(ci.attrs and 'sret' in ci.attrs[0])
    p = ci.args[1] if sret else ci.args[0]
    it = ex.read(st, p)
    if not isinstance(it, Obj) or it.kind != 'iter':
        raise Unsupported('++ on %r' % (it,))
    if it.mode != 'pos':
        if it.mode == 'end':
            ex.oblige(st, 'no-increment-past-end', False, 'safety')
            raise PathEnd()
        raise Unsupported('++ on a found iterator')
    step = 1 if '++' in ci.dem else -1
    if step == 1 and it.n is not None:
        ex.oblige(st, 'no-increment-past-end', toint(it.pos) < it.n, 'safety')
    ex.write(st, p, it.with_(pos=add(it.pos, step)))
    if '(int)' in ci.dem:
        if sret:
            ex.write(st, ci.args[0], it)
            return None
        return it
    return p


ITCMP = r'(?:bool |__gnu_cxx::__normal_iterator.* )?(std::operator|std::__detail::operator|pb::internal::operator|pb::operator|__gnu_cxx::operator|operator)(==|!=)(<.*>)?\(.*(_Rb_tree_(const_)?iterator|_Node_iterator_base|_Node_(const_)?iterator|::(const_)?iterator|__normal_iterator|Repeated(Ptr)?Iterator).*\)'


@contract(ITCMP)
def it_cmp(ex, st, ci):
    a, b = iter_arg(ex, st, ci.args[0]), iter_arg(ex, st, ci.args[1])
    e = obj_eq(ex, st, a, b)
    return e if re.search(r'operator==', ci.dem.split('(')[0]) or 'operator==' in ci.dem[:ci.dem.index('operator') + 12] else Not(e)


@contract(r'(pb::internal::operator|__gnu_cxx::operator|.* __gnu_cxx::operator|pb::operator)-(<.*>)?\(.*[iI]terator.*\)')
def it_sub(ex, st, ci):
    a, b = iter_arg(ex, st, ci.args[0]), iter_arg(ex, st, ci.args[1])
    pa = a.pos if a.mode == 'pos' else None
    pb_ = b.pos if b.mode == 'pos' else None
    return sub(pa, pb_)


# converting copies of iterators (iterator -> const_iterator), copy constructors
@contract(r'(std::_Rb_tree_(const_)?iterator|std::__detail::_Node_(const_)?iterator|pb::Map<.*>::(const_)?iterator|__gnu_cxx::__normal_iterator|pb::internal::RepeatedPtrIterator|pb::internal::RepeatedIterator|pb::RepeatedPtrIterator)<.*>::(_Rb_tree_(const_)?iterator|_Node_(const_)?iterator|(const_)?iterator|__normal_iterator|Repeated(Ptr)?Iterator)(<.*>)?\(.*(const&|&&)\)')
def it_copy(ex, st, ci):
    ex.write(st, ci.args[0], iter_arg(ex, st, ci.args[1]))


# ---------------------------------------------------------------- sequences
class SeqMatcher:
    def match(self, d):
        if not re.match(r'(std::vector|pb::RepeatedPtrField|pb::RepeatedField|std::deque|std::list)<', d):
            return None
        b = split_targs(member_class(d))[0]
        return True if b in ('std::vector', 'pb::RepeatedPtrField', 'pb::RepeatedField', 'std::deque', 'std::list') else None


def seq_concat(st, q, a, b):
    na, nb = q.len(a), q.len(b)
    if is_c(nb) and nb == 0:
        return a
    if is_c(nb) and nb <= 4:
        r = a
        for i in range(nb):
            r = q.push(r, q.at(b, i))
        return r
    if is_c(na) and na == 0:
        return b
    arr = fresh(z3.ArraySort(z3.IntSort(), q.elem), 'cat')
    i = z3.Int(fresh_name('i'))
    aa, ba = q.arr(a), q.arr(b)
    na_, nb_ = zint(na), zint(nb)
    st.assume(forall([i], z3.Implies(z3.And(i >= 0, i < na_ + nb_),
                                        z3.Select(arr, i) == z3.If(i < na_, z3.Select(aa, i), z3.Select(ba, i - na_))),
                        patterns=[z3.Select(arr, i)]))
    return q.make(na_ + nb_, arr)


def seq_member(ex, st, ci):
    d = ci.dem
    m = member_name(d)
    cls = member_class(d)
    q = S.seq_sort(sort_of(cls))
    sret = bool(ci.attrs and 'sret' in ci.attrs[0])
    args = ci.args[1:] if sret else ci.args
    this = args[0]
    n = m.split('(')[0].split('<')[0]
    sig = m[m.rindex('('):] if not m.endswith(') const') else m[m.index('('):]
    if n in ('vector', 'RepeatedField', 'RepeatedPtrField', 'deque', 'list'):
        if len(args) == 1 or 'allocator' in m[m.index('('):][:20] or 'Arena' in m:
            ex.write(st, this, q.empty())
            return
        if len(args) == 2 and ('const&)' in m or '&&)' in m):
            ex.write(st, this, ex.read(st, args[1]))
            if '&&)' in m:
                ex.write(st, args[1], q.empty())
            return
        raise Unsupported(d)
    if n[0] == '~':
        destroy_cell(ex, st, this)
        return
    v = ex.read(st, this, 'sequence')
    if not z3.is_expr(v) or S.seq_sort(v.sort()) is None:
        raise Unsupported('sequence value %r' % (v,))
    q = S.seq_sort(v.sort())
    ln = q.len(v)
    if not is_c(ln):
        st.assume(ln >= 0)
    if n in ('begin', 'cbegin'):
        return ret_iter(ex, st, ci, iterd(q, this, 0, ln))
    if n in ('end', 'cend'):
        return ret_iter(ex, st, ci, iterd(q, this, ln, ln))
    if n == 'size':
        return ln
    if n == 'empty':
        return Eq(ln, 0)
    if n in ('Get', 'Mutable', 'operator[]', 'at', 'front', 'back'):
        if n == 'front':
            i = 0
        elif n == 'back':
            i = sub(ln, 1)
        else:
            i = toint(args[1])
        ex.oblige(st, 'index-in-range', And(i >= 0, i < ln), 'safety', detail=n)
        return extend(this, ('i', q, i))
    if n == 'Set':
        i = toint(args[1])
        ex.oblige(st, 'index-in-range', And(i >= 0, i < ln), 'safety', detail=n)
        ex.write(st, this, q.set(v, i, valof(ex, st, args[2], q.elem)))
        return
    if n in ('push_back', 'emplace_back', 'Add'):
        if len(args) == 1:
            ex.write(st, this, q.push(v, default_of(q.elem)))
            return extend(this, ('i', q, ln))
        if len(args) == 2:
            x = valof(ex, st, args[1], q.elem)
            ex.write(st, this, q.push(v, x))
            return extend(this, ('i', q, ln))
        raise Unsupported(d)
    if n in ('clear', 'Clear'):
        ex.write(st, this, q.empty())
        return
    if n in ('pop_back', 'RemoveLast'):
        ex.oblige(st, 'pop-nonempty', toint(ln) > 0, 'safety')
        ex.write(st, this, q.make(sub(ln, 1), q.arr(v)))
        return
    if n in ('Resize', 'resize'):
        new = toint(args[1])
        x = valof(ex, st, args[2], q.elem) if len(args) > 2 else default_of(q.elem)
        if is_c(ln) and ln == 0:
            ex.write(st, this, q.make(new, z3.K(z3.IntSort(), x)))
            return
        arr = fresh(z3.ArraySort(z3.IntSort(), q.elem), 'rsz')
        i = z3.Int(fresh_name('i'))
        st.assume(forall([i], z3.Select(arr, i) == z3.If(i < zint(ln), z3.Select(q.arr(v), i), x),
                            patterns=[z3.Select(arr, i)]))
        ex.write(st, this, q.make(new, arr))
        return
    if n in ('reserve', 'Reserve', 'shrink_to_fit'):
        return
    if n in ('swap', 'Swap'):
        w = ex.read(st, args[1])
        ex.write(st, this, w)
        ex.write(st, args[1], v)
        return
    if n in ('operator=', 'CopyFrom'):
        w = ex.read(st, args[1])
        ex.write(st, this, w)
        if '&&)' in m:
            ex.write(st, args[1], q.empty())
        return this
    if n == 'MergeFrom':
        ex.write(st, this, seq_concat(st, q, v, ex.read(st, args[1])))
        return
    if n in ('insert', 'assign'):
        its = [x for x in args[1:]]
        if len(its) == 3:
            a, b = iter_arg(ex, st, its[1]), iter_arg(ex, st, its[2])
            pos = iter_arg(ex, st, its[0])
            src = ex.read(st, a.c)
            if ex.must(st, Eq(pos.pos, ln)) and ex.must(st, Eq(a.pos, 0)) and ex.must(st, Eq(b.pos, q.len(src))):
                ex.write(st, this, seq_concat(st, q, v, src))
                return ret_iter(ex, st, ci, UNDEF)
    raise Unsupported('sequence member %s' % d)


# ---------------------------------------------------------------- algorithms
def seq_range(ex, st, a, b):
    a, b = iter_arg(ex, st, a), iter_arg(ex, st, b)
    if not isinstance(a.cs, S.SeqS):
        raise Unsupported('algorithm on map range')
    return a, b, ex.read(st, a.c)


def sorted_range(ex, st, q, v, lo, hi):
    i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
    ex.oblige(st, 'binary-search-range-is-sorted',
              forall([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), zbool(Not(d_lt(q.at(v, j), q.at(v, i)))))), 'pre')


@contract(r'.*std::upper_bound<.*(RepeatedIterator|__normal_iterator).*>\(.*\)')
def upper_bound(ex, st, ci):
    a, b, v = seq_range(ex, st, ci.args[0], ci.args[1])
    x = ex.read(st, ci.args[2])
    q = a.cs
    # precondition: the range is partitioned (here: non-descending and NaN free, checked)
    r = fresh(z3.IntSort(), 'ub')
    j = z3.Int(fresh_name('j'))
    lo, hi = zint(a.pos), zint(b.pos)
    st.assume(z3.And(r >= lo, r <= hi))
    if q.elem != Dbl:
        raise Unsupported('upper_bound element type')
    sorted_range(ex, st, q, v, lo, hi)
    # a sorted range is split by the result
    st.assume(forall([j], z3.Implies(z3.And(j >= lo, j < r), zbool(Not(d_lt(x, q.at(v, j))))),
                        patterns=[q.at(v, j)]))
    st.assume(z3.Implies(r < hi, zbool(d_lt(x, q.at(v, r)))))
    st.assume(z3.Implies(r > lo, zbool(Not(d_lt(x, q.at(v, r - 1))))))
    it = a.with_(pos=r)
    return ret_iter(ex, st, ci, it)


@contract(r'.*std::lower_bound<.*(RepeatedIterator|__normal_iterator).*>\(.*\)')
def lower_bound(ex, st, ci):
    a, b, v = seq_range(ex, st, ci.args[0], ci.args[1])
    x = ex.read(st, ci.args[2])
    q = a.cs
    r = fresh(z3.IntSort(), 'lb')
    lo, hi = zint(a.pos), zint(b.pos)
    sorted_range(ex, st, q, v, lo, hi)
    st.assume(z3.And(r >= lo, r <= hi))
    st.assume(z3.Implies(r < hi, zbool(Not(d_lt(q.at(v, r), x)))))
    st.assume(z3.Implies(r > lo, zbool(d_lt(q.at(v, r - 1), x))))
    return ret_iter(ex, st, ci, a.with_(pos=r))


@contract(r'.*std::is_sorted<.*>\(.*\)')
def is_sorted(ex, st, ci):
    a, b, v = seq_range(ex, st, ci.args[0], ci.args[1])
    q = a.cs
    lo, hi = zint(a.pos), zint(b.pos)
    j = z3.Int(fresh_name('j'))
    w = fresh(z3.IntSort(), 'w')
    if len(ci.args) > 2:
        raise Unsupported('is_sorted with comparator')

    def yes(s):
        s.assume(forall([j], z3.Implies(z3.And(j > lo, j < hi), zbool(Not(d_lt(q.at(v, j), q.at(v, j - 1))))),
                           patterns=[q.at(v, j)]))
        return True

    def no(s):
        s.assume(z3.And(w > lo, w < hi, zbool(d_lt(q.at(v, w), q.at(v, w - 1)))))
        return False
    flag = fresh(z3.BoolSort(), 'is_sorted')
    raise Fork([(flag, yes), (z3.Not(flag), no)])


@contract(r'.*std::adjacent_find<.*>\(.*\)')
def adjacent_find(ex, st, ci):
    a, b, v = seq_range(ex, st, ci.args[0], ci.args[1])
    q = a.cs
    lo, hi = zint(a.pos), zint(b.pos)
    j = z3.Int(fresh_name('j'))
    r = fresh(z3.IntSort(), 'adj')
    if len(ci.args) > 2:
        raise Unsupported('adjacent_find with predicate')
    st.assume(z3.And(r >= lo, r <= hi))
    st.assume(forall([j], z3.Implies(z3.And(j > lo, j < hi, j <= r), zbool(Not(d_eq(q.at(v, j), q.at(v, j - 1))))),
                        patterns=[q.at(v, j)]))
    st.assume(z3.Implies(r < hi, z3.And(r + 1 < hi, zbool(d_eq(q.at(v, r + 1), q.at(v, r))))))
    return ret_iter(ex, st, ci, a.with_(pos=r))


@contract(r'.*std::(copy)<.*>\(.*\)')
def std_copy(ex, st, ci):
    raise Unsupported(ci.dem)


@contract(r'(double|int|long|unsigned long|unsigned int) const& std::(max|min)<.*>\(.*\)')
def minmax(ex, st, ci):
    a, b = ex.read(st, ci.args[0]), ex.read(st, ci.args[1])
    if z3.is_expr(a) and a.sort() == Dbl:
        c = d_lt(a, b) if 'std::max' in ci.dem else d_lt(b, a)
    else:
        u = 'unsigned' in ci.dem.split('const&')[0]
        if u:
            w = 64 if 'long' in ci.dem.split('const&')[0] else 32
            ua, ub = unsigned(a, w), unsigned(b, w)
            c = (ua < ub) if 'std::max' in ci.dem else (ub < ua)
        else:
            c = (toint(a) < toint(b)) if 'std::max' in ci.dem else (toint(b) < toint(a))
    v = (d_ite if z3.is_expr(a) and a.sort() == Dbl else Ite)(c, b, a)
    nb = st.new_block('minmax', 8, 'stack')
    nb.cells[0] = v
    return Ptr(nb.id)


# ---------------------------------------------------------------- protobuf messages
class ProtoMatcher:
    rx = re.compile(r'(?:void |std::string\* )?([A-Za-z][\w:]*)::(~?[A-Za-z_]\w*|operator=|operator\[\])(<.*>)?\((.*)\)( const)?$', re.S)

    def __init__(self):
        self.cls = None

    def parse(self, d):
        m = self.rx.match(d)
        if not m:
            return None
        if self.cls is None:
            self.cls = P.all_cxx()
        c = m.group(1)
        full = self.cls.get(c)
        if full is None:
            return None
        return full, c, m.group(2), m.group(4), bool(m.group(5))

    def match(self, d):
        r = self.parse(d)
        if r is None:
            return None
        return True


PM = ProtoMatcher()
CAMEL = re.compile(r'_([a-z])')


def read_msg(ex, st, p, m):
    v = ex.read(st, p, 'message')
    if not z3.is_expr(v) or v.sort() != m.sort:
        raise Unsupported('message %s expected, got %r' % (m.cxx, v if not z3.is_expr(v) else v.sort()))
    return v


def proto_member(ex, st, ci):
    full, cxx, meth, argl, const = PM.parse(ci.dem)
    m = P.msg(full)
    sret = bool(ci.attrs and 'sret' in ci.attrs[0])
    args = ci.args[1:] if sret else ci.args
    this = args[0]
    short = cxx.split('::')[-1]
    if meth == short:
        if argl == '' or argl.startswith('pb::Arena*') or 'ConstantInitialized' in argl:
            ex.write(st, this, m.default)
        else:
            ex.write(st, this, read_msg(ex, st, args[1], m))
            if argl.endswith('&&'):
                ex.write(st, args[1], fresh(m.sort, 'moved'))
        return
    if meth == '~' + short:
        if ci.name.endswith('D0Ev'):
            delete_block(ex, st, this)
        else:
            destroy_cell(ex, st, this)
        return
    if meth in ('operator=', 'CopyFrom'):
        src = args[1]
        ex.write(st, this, read_msg(ex, st, src, m))
        if argl.endswith('&&') and not this.same(src) is True:
            ex.write(st, src, fresh(m.sort, 'moved'))
        return this
    if meth == 'Clear':
        ex.write(st, this, m.default)
        return
    if meth in ('Swap', 'InternalSwap'):
        a, b = read_msg(ex, st, this, m), read_msg(ex, st, args[1], m)
        ex.write(st, this, b)
        ex.write(st, args[1], a)
        return
    if meth == 'default_instance':
        raise Unsupported('default_instance')
    if meth == 'MergeFrom':
        a, b = read_msg(ex, st, this, m), read_msg(ex, st, args[1], m)
        ex.write(st, this, merge_from(st, m, a, b))
        return
    if meth in ('ByteSizeLong', 'SerializeAsString'):
        if sret:
            ex.write(st, ci.args[0], fresh(Str, 'ser'))
            return
        return fresh(z3.IntSort(), 'sz')
    if m.opaque:
        raise Unsupported('accessor of opaque message %s' % ci.dem)
    # accessors
    for pre in ('set_allocated_', 'set_', 'mutable_', 'has_', 'clear_', 'add_', 'release_', ''):
        if meth.startswith(pre):
            f = meth[len(pre):]
            if f in m.by:
                return field_op(ex, st, ci, m, m.by[f], pre, args, argl)
            if pre == '' and f.endswith('_size') and f[:-5] in m.by:
                return field_op(ex, st, ci, m, m.by[f[:-5]], '_size', args, argl)
    raise Unsupported('message method %s' % ci.dem)


def merge_from(st, m, a, b):
    kw = {}
    for f in m.fields:
        if f.card == 'rep':
            kw[f.name] = seq_concat(st, f.seq, P.raw(m, a, f), P.raw(m, b, f))
        elif f.card == 'map':
            raise Unsupported('MergeFrom on map field')
        elif f.kind == 'str':
            vb = P.raw(m, b, f)
            kw[f.name] = Ite(Eq(vb, EMPTY), P.raw(m, a, f), vb)
        elif f.kind == 'int':
            vb = P.raw(m, b, f)
            kw[f.name] = Ite(Eq(vb, 0), P.raw(m, a, f), vb)
        elif f.kind == 'bool':
            kw[f.name] = Or(P.raw(m, a, f), P.raw(m, b, f))
        else:
            raise Unsupported('MergeFrom field %s' % f.name)
    return P.setraw(m, a, **kw)


def field_op(ex, st, ci, m, f, pre, args, argl):
    this = args[0]
    v = read_msg(ex, st, this, m)
    isidx = argl.startswith('int') and f.card == 'rep'
    if f.card == 'rep':
        q = f.seq
        s = P.raw(m, v, f)
        ln = q.len(s)
        if not is_c(ln):
            st.assume(ln >= 0)
            st.assume(ln <= 2 ** 31 - 1)
        if pre == '_size':
            return ln
        if pre == 'clear_':
            ex.write(st, this, P.clear(m, v, f))
            return
        lens = extend(this, ('f', m, f))
        if pre == '' and argl == '':
            return lens
        if pre == 'mutable_' and argl == '':
            return lens
        if pre in ('', 'mutable_'):
            i = toint(args[1])
            ex.oblige(st, 'index-in-range', And(i >= 0, i < ln), 'safety', detail=ci.dem)
            el = extend(lens, ('i', q, i))
            if pre == '' and f.kind in ('int', 'dbl', 'bool'):
                r = ex.read(st, el)
                if f.kind == 'int':
                    st.assume(P.rng(r, f.rng))
                return r
            return el
        if pre == 'set_':
            i = toint(args[1])
            ex.oblige(st, 'index-in-range', And(i >= 0, i < ln), 'safety', detail=ci.dem)
            x = argval(ex, st, args[2], f, ci)
            ex.write(st, this, P.setraw(m, v, **{f.name: q.set(s, i, x)}))
            return
        if pre == 'add_':
            x = default_of(q.elem) if len(args) == 1 else argval(ex, st, args[1], f, ci)
            ex.write(st, this, P.setraw(m, v, **{f.name: q.push(s, x)}))
            return extend(lens, ('i', q, ln))
        raise Unsupported(ci.dem)
    if f.card == 'map':
        if pre == '_size':
            return f.map.size(P.raw(m, v, f))
        if pre == 'clear_':
            ex.write(st, this, P.clear(m, v, f))
            return
        return extend(this, ('f', m, f))
    if pre == 'has_':
        return P.has(m, v, f)
    if pre == 'clear_':
        ex.write(st, this, P.clear(m, v, f))
        return
    if pre == '':
        if f.kind in ('str', 'msg'):
            return extend(this, ('f', m, f))
        r = P.get(m, v, f)
        if f.kind in ('int', 'case') and not is_c(r):
            st.assume(P.rng(r, f.rng))
            if f.kind == 'case':
                nums = [0] + [g.num for g in m.oneofs[f.name[:-5]]]
                st.assume(z3.Or(*[r == n for n in nums]))
        return r
    if pre == 'mutable_':
        ex.write(st, this, P.ensure(m, v, f))
        return extend(this, ('f', m, f))
    if pre == 'set_':
        ex.write(st, this, P.put(m, v, f, argval(ex, st, args[1], f, ci, args)))
        return
    raise Unsupported(ci.dem)


def argval(ex, st, a, f, ci, args=None):
    if f.kind == 'str':
        if isinstance(a, Ptr) and a.b:
            try:
                return strval(ex, st, a)
            except Unsupported:
                return data_of(ex, st, a, toint(args[2]) if args and len(args) > 2 else None)
        return data_of(ex, st, a, toint(args[2]) if args and len(args) > 2 else None)
    if f.kind == 'dbl':
        return a
    if f.kind == 'bool':
        return zbool(a)
    if f.kind == 'msg':
        return ex.read(st, a)
    return zint(a)


# ---------------------------------------------------------------- unordered helper on raw pointers
class PairMatcher:
    """std::pair<const K, V>& accessors are plain field accesses in IR"""


def all_contracts():
    return [(MapMatcher(), map_member), (SeqMatcher(), seq_member), (PM, proto_member)] + CONTRACTS
