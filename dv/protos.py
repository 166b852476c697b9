"""Protobuf messages as algebraic datatypes, built from the descriptor set the
generated C++ classes come from."""
import z3
from .sorts import *
from . import sorts as S


def _varint(b, i):
    r = s = 0
    while True:
        x = b[i]
        i += 1
        r |= (x & 127) << s
        s += 7
        if not x & 128:
            return r, i


def _fields(b):
    i = 0
    while i < len(b):
        t, i = _varint(b, i)
        f, w = t >> 3, t & 7
        if w == 0:
            v, i = _varint(b, i)
        elif w == 1:
            v = b[i:i + 8]
            i += 8
        elif w == 2:
            n, i = _varint(b, i)
            v = b[i:i + n]
            i += n
        elif w == 5:
            v = b[i:i + 4]
            i += 4
        else:
            raise ValueError(w)
        yield f, v


class FD:
    pass


class MD:
    pass


MSGS = {}


def load(path):
    data = open(path, 'rb').read()
    for f, v in _fields(data):
        if f != 1:
            continue
        pkg = ''
        msgs = []
        for g, w in _fields(v):
            if g == 2:
                pkg = w.decode()
            elif g == 4:
                msgs.append(w)
        for m in msgs:
            _msg(m, '.' + pkg if pkg else '')


def _msg(b, pre):
    m = MD()
    m.fields, m.oneofs, m.map_entry = [], [], False
    nested = []
    for f, v in _fields(b):
        if f == 1:
            m.name = v.decode()
        elif f == 2:
            d = FD()
            d.oneof = None
            d.label = 1
            d.type_name = None
            d.p3opt = False
            for g, w in _fields(v):
                if g == 1:
                    d.name = w.decode()
                elif g == 3:
                    d.num = w
                elif g == 4:
                    d.label = w
                elif g == 5:
                    d.type = w
                elif g == 6:
                    d.type_name = w.decode()
                elif g == 9:
                    d.oneof = w
                elif g == 17:
                    d.p3opt = True
            m.fields.append(d)
        elif f == 3:
            nested.append(v)
        elif f == 7:
            for g, w in _fields(v):
                if g == 7:
                    m.map_entry = bool(w)
        elif f == 8:
            for g, w in _fields(v):
                if g == 1:
                    m.oneofs.append(w.decode())
    m.full = pre + '.' + m.name
    MSGS[m.full] = m
    for n in nested:
        _msg(n, m.full)


_SC = '.google.api.servicecontrol.v1.'
EXPAND = {_SC + n for n in ('Operation', 'MetricValue', 'MetricValueSet', 'Distribution', 'Distribution.LinearBuckets',
                            'Distribution.ExponentialBuckets', 'Distribution.ExplicitBuckets', 'CheckRequest',
                            'CheckResponse', 'ReportRequest', 'AllocateQuotaRequest', 'AllocateQuotaResponse',
                            'QuotaOperation', 'ReportResponse')} | {'.google.protobuf.Timestamp', '.google.type.Money'}

INT_RANGE = {3: (64, True), 4: (64, False), 5: (32, True), 13: (32, False), 14: (32, True), 17: (32, True),
             18: (64, True)}


class Field:
    """name, idx (datatype position), kind: int/bool/dbl/str/msg, card: one/rep/map, opt (submessage presence),
    oneof (Oneof or None), sort (datatype field sort), vsort (value sort)"""


class Msg:
    pass


_built = {}
_opaque = {}
BYSORT = {}


def cxxname(full):
    """descriptor full name -> canonical demangled C++ class name"""
    n = full[1:]
    for p, r in (('google.api.servicecontrol.v1.', ''), ('google.protobuf.', 'pb::')):
        if n.startswith(p):
            return r + n[len(p):].replace('.', '_')
    return n.replace('.', '::')


def value_sort(fd):
    t = fd.type
    if t in (1, 2):
        return Dbl, 'dbl'
    if t == 8:
        return z3.BoolSort(), 'bool'
    if t in (9, 12):
        return Str, 'str'
    if t == 11:
        return msg(fd.type_name).sort, 'msg'
    return z3.IntSort(), 'int'


def msg(full):
    if full in _built:
        return _built[full]
    m = Msg()
    m.full = full
    m.cxx = cxxname(full)
    d = MSGS.get(full)
    if full not in EXPAND:
        m.opaque = True
        m.sort = z3.DeclareSort('M_' + full.replace('.', '_'))
        m.default = z3.Const('default_' + full.replace('.', '_'), m.sort)
        m.fields = []
        m.by = {}
        _built[full] = m
        BYSORT[m.sort.get_id()] = m
        return m
    m.opaque = False
    m.fields = []
    m.by = {}
    m.oneofs = {}
    seen_oneof = {}
    dt = z3.Datatype('M_' + d.name)
    for fd in d.fields:
        f = Field()
        f.name, f.num = fd.name, fd.num
        f.msg = None
        f.opt = False
        f.oneof = None
        ent = MSGS.get(fd.type_name) if fd.type == 11 else None
        if fd.oneof is not None and not fd.p3opt:
            on = d.oneofs[fd.oneof]
            if on not in seen_oneof:
                c = Field()
                c.name = on + '_case'
                c.kind, c.card, c.opt, c.oneof, c.msg = 'case', 'one', False, None, None
                c.sort = c.vsort = z3.IntSort()
                c.rng = (32, True)
                c.idx = len(m.fields)
                m.fields.append(c)
                m.by[c.name] = c
                seen_oneof[on] = c
                m.oneofs[on] = []
            f.oneof = seen_oneof[on]
            m.oneofs[on].append(f)
        if ent is not None and ent.map_entry:
            kf = [x for x in ent.fields if x.name == 'key'][0]
            vf = [x for x in ent.fields if x.name == 'value'][0]
            ks, _ = value_sort(kf)
            vs, vk = value_sort(vf)
            f.card, f.kind = 'map', vk
            f.map = map_of(ks, vs)
            f.vsort = vs
            f.sort = f.map.sort
        else:
            vs, k = value_sort(fd)
            f.kind, f.vsort = k, vs
            if k == 'int':
                f.rng = INT_RANGE[fd.type]
            if k == 'msg':
                f.msg = msg(fd.type_name)
            if fd.label == 3:
                f.card = 'rep'
                f.seq = seq_of(vs)
                f.sort = f.seq.sort
            else:
                f.card = 'one'
                f.sort = vs
                if k == 'msg' and f.oneof is None:
                    f.opt = True
                    f.osort = opt_of(vs)
                    f.sort = f.osort.sort
        f.idx = len(m.fields)
        m.fields.append(f)
        m.by[f.name] = f
    if not m.fields:   # empty message
        dt.declare('mk_' + d.name)
    else:
        dt.declare('mk_' + d.name, *[('%s_%s' % (d.name, f.name), f.sort) for f in m.fields])
    m.sort = dt.create()
    m.mk = m.sort.constructor(0)
    m.acc = [m.sort.accessor(0, i) for i in range(len(m.fields))]
    _built[full] = m
    BYSORT[m.sort.get_id()] = m
    defs = [fdefault(f) for f in m.fields]
    m.default = m.mk(*defs) if defs else m.mk()
    return m


def fdefault(f):
    if f.card == 'rep':
        return f.seq.empty()
    if f.card == 'map':
        return f.map.empty()
    if f.opt:
        return f.osort.none
    if f.kind in ('int', 'case'):
        return z3.IntVal(0)
    if f.kind == 'bool':
        return z3.BoolVal(False)
    if f.kind == 'dbl':
        return fin(z3.RealVal(0))
    if f.kind == 'str':
        return EMPTY
    return f.msg.default


def raw(m, t, f):
    """raw datatype field"""
    if isinstance(f, str):
        f = m.by[f]
    if z3.is_app(t) and t.decl().eq(m.mk):
        return t.arg(f.idx)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = raw(m, t.arg(1), f), raw(m, t.arg(2), f)
        return a if a.eq(b) else z3.If(t.arg(0), a, b)
    return m.acc[f.idx](t)


def setraw(m, t, **kw):
    args = [kw[f.name] if f.name in kw else raw(m, t, f) for f in m.fields]
    args = [zint(a) if isinstance(a, int) and not isinstance(a, bool) else (z3.BoolVal(a) if isinstance(a, bool) else a)
            for a in args]
    return m.mk(*args)


def get(m, t, f):
    """value seen through the const accessor (default when absent)"""
    if isinstance(f, str):
        f = m.by[f]
    v = raw(m, t, f)
    if f.opt:
        h = f.osort.has(v)
        if h is True:
            return f.osort.the(v)
        if h is False:
            return f.msg.default
        return z3.If(h, f.osort.the(v), f.msg.default)
    if f.oneof is not None:
        c = Eq(raw(m, t, f.oneof), f.num)
        return Ite(c, v, fdefault(f))
    if f.kind in ('int', 'case') and f.card == 'one':
        return toint(v)
    return v


def has(m, t, f):
    if isinstance(f, str):
        f = m.by[f]
    v = raw(m, t, f)
    if f.opt:
        return f.osort.has(v)
    return Eq(raw(m, t, f.oneof), f.num)


def put(m, t, f, v):
    """effect of the setter"""
    if isinstance(f, str):
        f = m.by[f]
    kw = {}
    if f.opt:
        v = f.osort.some(v)
    if f.oneof is not None:
        for g in m.oneofs[f.oneof.name[:-5]]:
            if g is not f:
                kw[g.name] = fdefault(g)
        kw[f.oneof.name] = f.num
    kw[f.name] = v
    return setraw(m, t, **kw)


def clear(m, t, f):
    if isinstance(f, str):
        f = m.by[f]
    if f.oneof is not None:
        c = Eq(raw(m, t, f.oneof), f.num)
        return Ite(c, setraw(m, t, **{f.name: fdefault(f), f.oneof.name: 0}), t)
    return setraw(m, t, **{f.name: fdefault(f)})


def ensure(m, t, f):
    """effect of mutable_f(): submessage present"""
    if isinstance(f, str):
        f = m.by[f]
    if f.opt:
        v = raw(m, t, f)
        h = f.osort.has(v)
        if h is True:
            return t
        return setraw(m, t, **{f.name: f.osort.some(get(m, t, f))})
    if f.oneof is not None:
        c = Eq(raw(m, t, f.oneof), f.num)
        if c is True:
            return t
        return put(m, t, f, get(m, t, f))
    return t


def wf(m, t, depth=2):
    """type invariants of an arbitrary message value (ranges, lengths)"""
    out = []
    if m.opaque:
        return out
    for f in m.fields:
        v = raw(m, t, f)
        if f.oneof is not None:      # representation: an inactive member holds its default
            out.append(z3.Or(zbool(Eq(raw(m, t, f.oneof), f.num)), v == fdefault(f)))
        if f.card == 'rep':
            if not is_c(f.seq.len(v)):
                out.append(f.seq.len(v) >= 0)
                out.append(f.seq.len(v) <= 2 ** 31 - 1)
        elif f.card == 'map':
            if not is_c(f.map.size(v)):
                out.append(f.map.size(v) >= 0)
        elif f.kind in ('int', 'case'):
            out.append(rng(v, f.rng))
            if f.kind == 'case':
                nums = [0] + [g.num for g in m.oneofs[f.name[:-5]]]
                out.append(z3.Or(*[v == n for n in nums]))
        elif f.kind == 'str':
            out.append(slen(v) >= 0)
            out.append((slen(v) == 0) == (v == EMPTY))
        elif f.kind == 'msg' and depth > 0 and not f.msg.opaque:
            sub = f.osort.the(v) if f.opt else v
            out += [x for x in wf(f.msg, sub, depth - 1)]
    return out


def rng(v, r):
    w, signed = r
    if signed:
        return And(v >= -(1 << (w - 1)), v <= (1 << (w - 1)) - 1)
    # unsigned values are kept in the signed representation of their width
    return And(v >= -(1 << (w - 1)), v <= (1 << (w - 1)) - 1)


def by_cxx():
    return {m.cxx: m for m in _built.values()}


def all_cxx():
    return {cxxname(f): f for f in MSGS}
