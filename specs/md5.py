"""C31: utils/md5.{h,cc}.  The context holds the bytes fed so far; the digest
is md5 of them.  Class invariant of an MD5 object in logical state `fed`:
  not finalized and context == fed,  or  finalized and stored digest == md5(fed)."""
from dv.unit import *
from dv.lib import md5, hexfmt, rawbytes

TU = 'utils/md5.cc'
import os
INL = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tus', 'md5_inline.cc')
M = r'^scc::MD5::'


def layout(u):
    """(context, digest, finalized) offsets from the class type"""
    L = u.layout('google::service_control_client::MD5')
    return [L.off('ctx_', 'MD5_CTX'), L.off('digest_', r'unsigned char\['), L.off('finalized_', 'bool')], L.size


def md5_object(u, finalized):
    (oc, od, of), size = layout(u)
    b = u.block('md5', size)
    fed = fresh(Str, 'fed')
    u.assume(slen(fed) >= 0)
    if finalized:
        b.cells[oc] = fresh(Str, 'ctx')
        b.cells[od] = md5(fed)
        u.assume(slen(md5(fed)) == 16)
        b.cells[of] = 1
    else:
        b.cells[oc] = fed
        b.cells[of] = 0
    u.v.update(p=Ptr(b.id), fed=fed, oc=oc, od=od, of=of)
    return Ptr(b.id)


def state_is(u, st, fed, finalized):
    b = st.mem[u.v['p'].b]
    f = b.cells.get(u.v['of'])
    if finalized:
        return And(Eq(f, 1), Eq(b.cells.get(u.v['od']), md5(fed)))
    return And(Eq(f, 0), Eq(b.cells.get(u.v['oc']), fed))


def setup_ctor(u):
    (oc, od, of), size = layout(u)
    b = u.block('md5', size)
    u.v.update(p=Ptr(b.id), oc=oc, od=od, of=of)
    u.args = [Ptr(b.id)]


def post_ctor(u, st, ret):
    u.check(st, 'new-digest-has-fed-nothing', state_is(u, st, S.EMPTY, False))


def setup_update(u, how):
    p = md5_object(u, False)
    ps, s = u.string('data')
    u.v['data'] = s
    if how == 'raw':
        n = slen(s)
        u.args = [p, Obj('cstr', s=s), n]
    elif how == 'str':
        u.args = [p, ps]
    elif how == 'int':
        d = u.int('d', 32)
        u.v['data'] = rawbytes(d, z3.IntVal(4))
        u.args = [p, d]
    elif how == 'cstr':
        u.args = [p, Obj('cstr', s=s, z=True)]   # s: the text up to its terminator


def post_update(u, st, ret):
    u.check(st, 'exactly-the-data-appended', state_is(u, st, s_cat(u.v['fed'], u.v['data']), False))
    u.check(st, 'returns-itself', isinstance(ret, Ptr) and ret.same(u.v['p']))


def setup_digest(u, fin):
    p = md5_object(u, fin)
    r = u.block('ret', 32)
    u.v['ret'] = Ptr(r.id)
    u.args = [Ptr(r.id), p]


def post_digest(u, st, ret):
    d = u.read(st, u.v['ret'])
    u.check(st, 'digest-is-md5-of-everything-fed', Eq(d, md5(u.v['fed'])))
    u.check(st, 'digest-has-sixteen-bytes', slen(d) == 16)
    u.check(st, 'asking-again-gives-the-same', state_is(u, st, u.v['fed'], True))


def setup_call(u):
    p = md5_object(u, False)
    r = u.block('ret', 32)
    ps, s = u.string('data')
    u.v.update(ret=Ptr(r.id), data=s)
    u.args = [Ptr(r.id), p, Obj('cstr', s=s), slen(s)]


def post_call(u, st, ret):
    u.check(st, 'digest-is-md5-of-everything-fed', Eq(u.read(st, u.v['ret']), md5(s_cat(u.v['fed'], u.v['data']))))


def setup_debug(u):
    r = u.block('ret', 32)
    ps, s = u.string('digest')
    u.assume(slen(s) == 16)
    u.v.update(ret=Ptr(r.id), s=s)
    u.args = [Ptr(r.id), ps]


def post_debug(u, st, ret):
    want = S.EMPTY
    for i in range(16):
        b = S.byte_at(u.v['s'], z3.IntVal(i))
        want = s_cat(want, hexfmt(lit(b'%02x'), z3.If(b < 0, b + 256, b)))
    u.check(st, 'lowercase-hexadecimal-of-every-byte', Eq(u.read(st, u.v['ret']), want))


UNITS = [
    Unit('C31', 'MD5()', TU, M + r'MD5\(\)$', setup_ctor, post_ctor),
    Unit('C31', 'Update(data,size)', TU, M + r'Update\(void const\*, unsigned long\)', lambda u: setup_update(u, 'raw'), post_update),
    Unit('C31', 'Update(string)', INL, M + r'Update\(std::string const&\)', lambda u: setup_update(u, 'str'), post_update, mods=[TU]),
    Unit('C31', 'Update(char*)', INL, M + r'Update\(char const\*\)', lambda u: setup_update(u, 'cstr'), post_update, mods=[TU]),
    Unit('C31', 'Update(int)', INL, M + r'Update\(int\)', lambda u: setup_update(u, 'int'), post_update, mods=[TU]),
    Unit('C31', 'Digest/first', TU, M + r'Digest\(\)', lambda u: setup_digest(u, False), post_digest),
    Unit('C31', 'Digest/again', TU, M + r'Digest\(\)', lambda u: setup_digest(u, True), post_digest),
    Unit('C31', 'operator()', TU, M + r'operator\(\)\(', setup_call, post_call),
    Unit('C31', 'DebugString', TU, M + r'DebugString\(', setup_debug, post_debug, opts=dict(unroll=['DebugString'])),
]
