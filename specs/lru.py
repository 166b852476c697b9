"""Contracts of utils/simple_lru_cache_inl.h (C21..C24), on an instantiation with an opaque value type.

Elements live in a region heap (z3 arrays per field).  Ghost arrays:
  where   0 not held, 1 in the main table, 2 removed but pinned (deferred)
  ord     when the element was (re)linked, so that every ring is sorted along its prev pointers
  up      how many of its pins were taken updating the eviction order
  hooked  handed to the removal hook
and sums over the elements held (tot, psum, dsum, dcnt), adjusted at every change of an element."""
import re
import z3
from dv import core, lib
from dv.core import *
from dv.core import Region, SPtr
from dv.lib import default_of
from dv.sorts import forall
from dv.unit import Unit, layout
from dv import sorts as S

TU = '/verif/tus/lru.cc'
I = z3.IntSort()
B = z3.BoolSort()
H = 1                                   # address of the list head embedded in the cache
ELEM = 'google::service_control_client::SimpleLRUCacheElem<long, struct verif::Val>'
RX = r'scc::SimpleLRUCacheBase<long, verif::Val.*>::'
BIG = 1 << 60
UNITS = []

GA = dict(where=I, live=B, ord=I, up=I, hooked=B, inl=B)      # ghost arrays
GS = ('tot', 'psum', 'dsum', 'dcnt', 'ordmax')                # ghost numbers


def gk(n):
    return 'e.' + n


class View:
    """the elements, tables and counters of one state"""

    def __init__(self, u, st):
        self.st, self.u = st, u
        g = st.ghost
        reg = u.v['reg']
        for n, o in u.v['off'].items():
            setattr(self, n, g['reg:elem:%d' % o])
        for n in list(GA) + list(GS):
            setattr(self, n, g[gk(n)])
        cells = st.mem[u.v['cache'].b].cells
        co = u.v['co']
        self.T, self.D = cells.get(co['table_']), cells.get(co['defer_'])
        for n in ('units_', 'pinned_units_', 'max_units_', 'max_idle_', 'lru_'):
            setattr(self, n, cells.get(co[n]))
        self.now = zint(g.get('now', 0))
        self.ms = u.v['ms']

    def has(self, m, k):
        return self.ms.has(m, k)

    def get(self, m, k):
        return self.ms.get(m, k)

    def M(self, x):
        w = self.where[x]
        return z3.Or(x == H, z3.And(w == 1, self.inl[x]), w == 2)

    def same(self, x, y):
        """in the same ring, both being members of one"""
        wx, wy = self.where[x], self.where[y]
        return z3.Or(z3.And(wx != 2, wy != 2), z3.And(wx == 2, wy == 2, self.key[x] == self.key[y]))

    def hd(self, x):
        return z3.If(self.where[x] == 2, self.get(self.D, self.key[x]), z3.IntVal(H))

    def over(self):
        return zint(self.units_) > zint(self.max_units_)

    def contrib(self, x):
        w, p, n = self.where[x], self.pin[x], self.units[x]
        return dict(tot=z3.If(w != 0, n, 0), psum=z3.If(z3.And(w == 1, p > 0), n, 0), dsum=z3.If(w == 2, n, 0),
                    dcnt=z3.If(w == 2, z3.IntVal(1), 0))


def wf(V, table=True):
    """representation invariant: [(name, formula)]; `table`: including that the main table holds exactly the held entries"""
    x, y, k = z3.Ints('x y k')
    w = V.where
    A = z3.And
    out = []

    def q(name, vs, body, pats):
        out.append((name, forall(vs, body, patterns=pats)))
    if table:
        q('C21,C23: table-entries-held', [k], z3.Implies(V.has(V.T, k), A(w[V.get(V.T, k)] == 1, V.key[V.get(V.T, k)] == k)),
          [V.has(V.T, k), V.get(V.T, k)])
        q('C21,C23: held-entries-in-table', [x], z3.Implies(w[x] == 1, A(V.has(V.T, V.key[x]), V.get(V.T, V.key[x]) == x)), [w[x]])
    q('C21,C23: deferred-heads-held', [k], z3.Implies(V.has(V.D, k), A(w[V.get(V.D, k)] == 2, V.key[V.get(V.D, k)] == k)),
      [V.has(V.D, k), V.get(V.D, k)])
    q('C21,C23: deferred-entries-pinned-and-in-table', [x], z3.Implies(w[x] == 2, A(V.has(V.D, V.key[x]), V.pin[x] > 0)), [w[x]])
    q('C23: held-entries-are-live', [x], A(w[x] >= 0, w[x] <= 2, w[H] == 0,
      z3.Implies(w[x] != 0, A(V.live[x], x != 0, x != H, V.value[x] != 0, z3.Not(V.hooked[x])))), [w[x]])
    q('C21: sizes-and-pins-in-range', [x], z3.Implies(w[x] != 0, A(V.pin[x] >= 0, V.pin[x] < 2 ** 31, V.units[x] >= 0, V.units[x] < BIG)), [w[x]])
    q('C22,C24: pins-of-each-kind', [x], z3.Implies(w[x] != 0, A(V.up[x] >= 0, V.up[x] <= V.pin[x])), [w[x]])
    q('C23: no-entry-is-lost', [x], z3.Implies(A(V.live[x], x != H), w[x] != 0), [V.live[x]])
    q('C22,C23,C24: ring-next', [x], z3.Implies(V.M(x), A(V.M(V.next[x]), V.same(x, V.next[x]), V.prev[V.next[x]] == x)), [V.next[x]])
    q('C22,C23,C24: ring-prev', [x], z3.Implies(V.M(x), A(V.M(V.prev[x]), V.same(x, V.prev[x]), V.next[V.prev[x]] == x)), [V.prev[x]])
    out.append(('C22,C23,C24: head-is-linked', V.inl[H]))
    q('C22,C23,C24: deferred-entries-are-linked', [x], z3.Implies(w[x] == 2, V.inl[x]), [w[x]])
    q('C22,C23,C24: next-of-unlisted', [x], V.inl[x] == (V.next[x] != 0), [V.next[x]])
    q('C22,C23,C24: prev-of-unlisted', [x], z3.Implies(w[x] == 1, V.inl[x] == (V.prev[x] != 0)), [V.prev[x]])
    q('C22,C23,C24: ring-head-oldest', [x], A(V.ord[H] == 0, z3.Implies(w[x] != 0, A(V.ord[x] > 0, V.ord[x] <= V.ordmax)),
      z3.Implies(A(w[x] == 2, x != V.hd(x)), V.ord[V.hd(x)] < V.ord[x])), [V.ord[x], w[x]])
    q('C22,C24: order-unique', [x, y], z3.Implies(A(w[x] != 0, w[y] != 0, V.ord[x] == V.ord[y]), x == y),
      [z3.MultiPattern(V.ord[x], V.ord[y])])
    q('C22,C23,C24: ring-sorted', [x], z3.Implies(A(V.M(x), V.prev[x] != V.hd(x)), V.ord[V.prev[x]] > V.ord[x]), [V.prev[x]])
    q('C22,C23,C24: ring-complete', [x, y], z3.Implies(A(V.M(x), V.M(y), V.same(x, y), V.ord[y] > V.ord[x]),
      A(V.prev[x] != V.hd(x), V.ord[V.prev[x]] <= V.ord[y])), [z3.MultiPattern(V.prev[x], V.ord[y])])
    q('C22,C24: list-sorted-by-use', [x, y], z3.Implies(A(w[x] == 1, w[y] == 1, V.inl[x], V.inl[y], V.ord[x] < V.ord[y]),
      V.last_use_[x] <= V.last_use_[y]), [z3.MultiPattern(V.last_use_[x], V.last_use_[y])])
    q('C24: use-times-past', [x], z3.Implies(w[x] != 0, A(V.last_use_[x] >= 0, V.last_use_[x] <= V.now)), [V.last_use_[x]])
    q('C22,C24: removable-entries-listed', [x], z3.Implies(w[x] == 1, A(
      z3.Implies(z3.Or(z3.Not(zbool(V.lru_)), V.pin[x] == 0), V.inl[x]),
      z3.Implies(A(zbool(V.lru_), V.inl[x]), V.up[x] == 0))), [w[x]])
    q('C23: values-distinct', [x, y], z3.Implies(A(w[x] != 0, w[y] != 0, V.value[x] == V.value[y]), x == y),
      [z3.MultiPattern(V.value[x], V.value[y])])
    out.append(('C21: total-size-exact', zint(V.units_) == V.tot))
    out.append(('C21: pinned-size-exact', zint(V.pinned_units_) == V.psum))
    return out


PTRS = ('next', 'prev')


class Elems(Region):
    def addr(self, ex, st, p):
        raise Unsupported('block pointer stored into an element')

    def check(self, ex, st, p, what):
        t = zint(p.t)
        if t.eq(z3.IntVal(H)):
            return
        goal = z3.And(t != 0, z3.Or(t == H, st.ghost[gk('live')][t]))
        for f in st.pc[-300:]:
            if f.eq(goal):
                return
        ex.oblige(st, 'C23: no-entry-used-after-its-disposal', goal, 'safety', detail=what)


def ghost_update(u, st, x, change):
    """performs a change of element x, adjusting the sums over the elements held"""
    a = View(u, st).contrib(x)
    change()
    b = View(u, st).contrib(x)
    for n in a:
        if not a[n].eq(b[n]):
            st.ghost[gk(n)] = z3.simplify(st.ghost[gk(n)] + b[n] - a[n])
    sum_facts(u, st)


def sum_facts(u, st):
    """the sums are over finitely many non-negative numbers (sizes of the entries held): a sum is at least its parts"""
    V = View(u, st)
    st.assume(z3.And(V.psum >= 0, V.dsum >= 0, V.tot >= V.psum, V.tot >= V.dsum, V.dcnt >= 0, V.tot < 4 * BIG))


def empty_sums(u, st):
    """a sum that is not zero has an element"""
    V = View(u, st)
    a, b = fresh(I, 'some'), fresh(I, 'some')
    st.assume(z3.Implies(V.tot != 0, V.where[a] != 0))
    st.assume(z3.Implies(V.psum != 0, z3.And(V.where[b] == 1, V.pin[b] > 0)))


def setg(st, n, x, v):
    st.ghost[gk(n)] = z3.Store(st.ghost[gk(n)], zint(x), v)


def mkregion(u):
    lay = u.layout(ELEM)
    off = {n: lay.off(n) for n in ('key', 'value', 'pin', 'units', 'next', 'prev', 'last_use_')}
    vals = Region('val', {})

    def load_int(bits):
        def f(ex, st, p, v):
            return v
        return f

    def load_ptr(ex, st, p, v):
        return SPtr(reg, v)

    def load_units(ex, st, p, v):
        # sums of non-negative numbers are at least any of their terms
        V = View(u, st)
        c = V.contrib(zint(p.t))
        st.assume(z3.And(V.psum >= 0, V.dsum >= 0, V.tot >= V.psum, V.tot >= V.dsum, V.dcnt >= 0))
        st.assume(z3.Implies(v >= 0, z3.And(c['tot'] <= V.tot, c['psum'] <= V.psum, c['dsum'] <= V.dsum, V.tot - c['tot'] >= V.psum - c['psum'])))
        return v

    def plain(ex, st, p, nv):
        a = 'reg:elem:%d' % p.o
        st.ghost[a] = z3.Store(st.ghost[a], zint(p.t), nv)

    def counted(ex, st, p, nv):
        d = u.v.get('on_pin')
        if d and p.o == off['pin'] and not st.ghost.get('pinned'):
            st.ghost['pinned'] = True
            x = zint(p.t)
            setg(st, 'up', x, z3.simplify(st.ghost[gk('up')][x] + z3.If(u.v['upd'], z3.IntVal(d), z3.IntVal(0))))
        ghost_update(u, st, zint(p.t), lambda: plain(ex, st, p, nv))

    def store_next(ex, st, p, nv):
        x = zint(p.t)
        plain(ex, st, p, nv)
        inl = st.ghost[gk('inl')][x]
        om = z3.simplify(st.ghost[gk('ordmax')] + 1)
        if not x.eq(z3.IntVal(H)):
            if not z3.is_true(z3.simplify(zint(nv) == 0)):
                st.ghost[gk('ord')] = z3.Store(st.ghost[gk('ord')], x, z3.If(z3.And(z3.Not(inl), nv != 0, x != H), om, st.ghost[gk('ord')][x]))
                st.ghost[gk('ordmax')] = om
            setg(st, 'inl', x, z3.Or(x == H, nv != 0))

    reg = Elems('elem', {
        off['key']: ('key', load_int(64), plain),
        off['value']: ('value', lambda ex, st, p, v: SPtr(vals, v), plain),
        off['pin']: ('pin', load_int(32), counted),
        off['units']: ('units', load_units, counted),
        off['next']: ('next', load_ptr, store_next),
        off['prev']: ('prev', load_ptr, plain),
        off['last_use_']: ('last_use_', load_int(64), plain),
    })

    def free(ex, st, p):
        x = zint(p.t)
        V = View(u, st)
        ex.oblige(st, 'C23: an-entry-is-freed-once', z3.And(x != 0, x != H, V.live[x]), 'safety')
        ex.oblige(st, 'C23: an-entry-freed-was-passed-to-the-removal-hook', V.hooked[x], 'safety')

        def ch():
            setg(st, 'where', x, z3.IntVal(0))
        ghost_update(u, st, x, ch)
        setg(st, 'live', x, z3.BoolVal(False))
    reg.free = free
    u.v.update(reg=reg, vals=vals, off=off, esize=lay.size)
    return reg


def arrays(u, st, tag, names):
    """fresh arrays for the fields and ghosts named"""
    for n in names:
        k = 'reg:elem:%d' % u.v['off'][n] if n in u.v['off'] else gk(n)
        sort = GA.get(n, I)
        st.ghost[k] = fresh(z3.ArraySort(I, sort), n + tag) if n in u.v['off'] or n in GA else fresh(I, n + tag)


def freshmap(u, st, tag):
    ms = u.v['ms']
    n = fresh(I, 'msize')
    st.assume(n >= 0)
    return ms.mk(fresh(z3.ArraySort(I, B), 'dom' + tag), fresh(z3.ArraySort(I, I), 'val' + tag), n)


def world(u, invariant=True, lru=None):
    reg = mkregion(u)
    txt = open(u.mod.path[:-3] + '.layout', errors='replace').read()
    base = re.search(r'\n +0 \| (class google::service_control_client::SimpleLRUCacheBase<long, struct verif::Val, .*)\n', txt).group(1)
    lay = layout(u.mod, base.split(' ', 1)[1])
    co = {n: lay.off(n) for n in ('table_', 'defer_', 'units_', 'max_units_', 'pinned_units_', 'head_', 'max_idle_', 'lru_')}
    b = u.block('cache', 256)
    cache = Ptr(b.id)
    ms = lib.map_of(I, I)
    u.v.update(cache=cache, co=co, ms=ms, base=base)
    st = u.st
    st.ghost['now'] = fresh(I, 'now0')
    st.assume(z3.And(st.ghost['now'] >= 0, st.ghost['now'] < 4 * 10 ** 15))
    arrays(u, st, '0', list(u.v['off']) + list(GA) + list(GS))
    u.ex.opts['redir'] = {b.id: (co['head_'], co['head_'] + u.v['esize'], reg, H)}
    u.ex.opts['ptr_region'] = reg
    del lib.REGION_PTRS[:]
    lib.REGION_PTRS.append((r'(scc::|google::service_control_client::)?SimpleLRUCacheElem<long, verif::Val>\*$', reg))
    vt = [n for n in u.mod.globals if n == '_ZTVN5verif5CacheE']
    u.v['vtable'] = u.ex.global_ptr(st, '_ZTVN5verif5CacheE', u.mod)
    b.cells[0] = Ptr(u.v['vtable'].b, 16)
    if invariant:
        b.cells[co['table_']], b.cells[co['defer_']] = freshmap(u, st, 'T'), freshmap(u, st, 'D')
        for n in ('units_', 'pinned_units_', 'max_units_', 'max_idle_'):
            b.cells[co[n]] = u.int(n)
        b.cells[co['lru_']] = fresh(B, 'lru') if lru is None else lru
        V = View(u, st)
        u.assume(*[f for n, f in wf(V)])
        u.assume(V.max_idle_ >= -1, V.tot >= 0, V.tot < BIG, V.live[H], V.psum >= 0, V.psum <= V.tot, V.dsum >= 0, V.dcnt >= 0, V.ordmax >= 0)
    u.v['V0'] = None
    return cache


def key(u, name='k'):
    k = u.int(name)
    return u.obj(name, k, 8), k


def keep(u):
    u.v['S0'] = u.st.copy()


def V0(u):
    return View(u, u.v['S0'])


# ------------------------------------------------------------------ the removal hook and the heap
def on_hook(u, ex, st, x):
    """the removal hook gets the value of entry x"""
    V = View(u, st)
    x = zint(x)
    ex.oblige(st, 'C23: a-value-is-disposed-of-once', z3.And(V.where[x] != 0, z3.Not(V.hooked[x])), 'safety')
    ex.oblige(st, 'C23: no-value-is-disposed-of-while-pinned', V.pin[x] == 0, 'safety')
    h = u.v.get('hook')
    if h:
        h(u, ex, st, x)
    setg(st, 'hooked', x, z3.BoolVal(True))


def h_remove_element(ex, st, ci):
    u = st_u(ex)
    val, k = ci.args[2], ex.read(st, ci.args[1])
    # which entry: the one not yet disposed of that holds this value
    x = fresh(I, 'disposed')
    V = View(u, st)
    y = z3.Int('y')
    v = val.t if isinstance(val, SPtr) else zint(0)
    ex.oblige(st, 'C23: the-hook-gets-a-held-value-with-its-key',
              z3.Exists([y], z3.And(V.where[y] != 0, V.value[y] == v, V.key[y] == zint(k))) if not known(u, st, v) is not None
              else z3.And(V.where[known(u, st, v)] != 0, V.key[known(u, st, v)] == zint(k)), 'safety')
    kx = known(u, st, v)
    if kx is None:
        st.assume(z3.And(V.where[x] != 0, V.value[x] == v))
        kx = x
    on_hook(u, ex, st, kx)


def known(u, st, v):
    """the element a value term was read from"""
    v = z3.simplify(v)
    if z3.is_select(v):
        a = v.arg(0)
        while z3.is_store(a):
            a = a.arg(0)
        return v.arg(1)
    return None


def st_u(ex):
    return ex.opts['u']


def h_new(ex, st, ci):
    u = st_u(ex)
    if not is_c(ci.args[0]) or ci.args[0] != u.v['esize']:
        raise NotImplementedError
    V = View(u, st)
    x = fresh(I, 'elem')
    st.assume(z3.And(x != 0, x != H, z3.Not(V.live[x]), V.where[x] == 0, z3.Not(V.hooked[x]), z3.Not(V.inl[x])))
    setg(st, 'live', x, z3.BoolVal(True))
    om = z3.simplify(V.ordmax + 1)
    setg(st, 'ord', x, om)
    st.ghost[gk('ordmax')] = om
    st.ghost['pending'] = st.ghost.get('pending', ()) + (x,)
    return SPtr(u.v['reg'], x)


def sync(u, st):
    """a new entry is held from the moment the main table refers to it"""
    for x in st.ghost.get('pending', ()):
        V = View(u, st)
        inT = z3.And(V.has(V.T, V.key[x]), V.get(V.T, V.key[x]) == x)

        def ch():
            setg(st, 'where', x, z3.If(inT, z3.IntVal(1), z3.IntVal(0)))
            setg(st, 'up', x, z3.IntVal(1))
        ghost_update(u, st, x, ch)
    if st.ghost.get('pending'):
        st.ghost['pending'] = ()


def name_arrays(u, st):
    """gives the current arrays names of their own (so that quantifier patterns apply to them)"""
    for n in list(u.v['off']) + list(GA):
        k = 'reg:elem:%d' % u.v['off'][n] if n in u.v['off'] else gk(n)
        a = st.ghost[k]
        if not z3.is_const(a):
            c = fresh(a.sort(), n)
            st.assume(c == a)
            st.ghost[k] = c


def require(u, ex, st, conds):
    for n, f in conds:
        ex.oblige(st, n, f, 'pre')


def changed(u, st, V, x, names, tag):
    """fresh arrays equal to the old ones except at x"""
    arrays(u, st, tag, names)
    W = View(u, st)
    y = z3.Int('y')
    for n in names:
        st.assume(forall([y], z3.Implies(y != x, getattr(W, n)[y] == getattr(V, n)[y]), patterns=[getattr(W, n)[y]]))
    return W


# ------------------------------------------------------------------ contract of Remove(Elem*)
def remove_elem_effect(u, ex, st, x):
    """the entry x leaves the main table; generator of the two cases (pinned: deferred, else: disposed of)"""
    V = View(u, st)
    cells = lambda s: s.wblk(u.v['cache'].b).cells
    co = u.v['co']

    def case(pinned):
        def run(s):
            if not pinned:
                on_hook(u, ex, s, x)
            V = View(u, s)

            def ch():
                setg(s, 'where', x, z3.IntVal(2 if pinned else 0))
            ghost_update(u, s, x, ch)
            c = cells(s)
            if pinned:
                c[co['pinned_units_']] = z3.simplify(zint(V.pinned_units_) - V.units[x])
                c[co['defer_']] = freshmap(u, s, 'D')
            else:
                c[co['units_']] = z3.simplify(zint(V.units_) - V.units[x])
                setg(s, 'live', x, z3.BoolVal(False))
            a = View(u, s)
            arrays(u, s, 'r', ('next', 'prev', 'inl', 'ord'))
            om = fresh(I, 'ordmax')
            s.ghost[gk('ordmax')] = om
            name_arrays(u, s)
            W = View(u, s)
            y = z3.Int('y')
            s.assume(om >= V.ordmax)
            s.assume(forall([y], z3.Implies(y != x, z3.And(W.ord[y] == V.ord[y], z3.Implies(V.where[y] != 2, W.inl[y] == V.inl[y]))),
                            patterns=[W.ord[y], W.inl[y]]))
            s.assume(z3.And(z3.Implies(W.where[x] == 2, W.ord[x] > V.ordmax)))
            for n, f in wf(W, table=False):
                s.assume(f)
        return run
    raise Fork([(V.pin[x] > 0, case(True)), (z3.Not(V.pin[x] > 0), case(False))])


def h_remove_elem(ex, st, ci):
    u = st_u(ex)
    p = ex.norm(ci.args[1])
    if not isinstance(p, SPtr):
        raise Unsupported('Remove of %r' % (p,))
    x = zint(p.t)
    sync(u, st)
    V = View(u, st)
    ex.oblige(st, 'C21,C23: only-an-entry-of-the-table-is-removed', V.where[x] == 1, 'pre')
    require(u, ex, st, unwrapped(u, st, V, wf(V, table=False)))
    load = u.v['reg'].fields[u.v['off']['units']][1]
    load(ex, st, SPtr(u.v['reg'], x, u.v['off']['units']), V.units[x])
    remove_elem_effect(u, ex, st, x)


# ------------------------------------------------------------------ contract of GarbageCollect
def gc_post(V, W):
    """V before, W after"""
    x, y = z3.Ints('x y')
    w0, w1 = V.where, W.where
    gone = lambda t: z3.And(w0[t] == 1, w1[t] == 0)
    return [
        ('C21,C22: only-unpinned-listed-entries-go', forall([x], z3.Or(w1[x] == w0[x], z3.And(gone(x), V.inl[x], V.pin[x] == 0)), patterns=[w1[x], w0[x]])),
        ('C22: nothing-goes-unless-over-capacity', forall([x], z3.Implies(gone(x), V.over()), patterns=[w1[x]])),
        ('C22: no-unpinned-entry-is-kept-over-capacity', z3.Or(z3.Not(W.over()), forall([x], z3.Implies(z3.And(w1[x] == 1, W.inl[x]), W.pin[x] > 0), patterns=[w1[x]]))),
        ('C22: least-recently-used-first', forall([x, y], z3.Implies(z3.And(gone(x), w1[y] == 1, V.inl[y], V.pin[y] == 0), V.ord[x] < V.ord[y]),
                                                  patterns=[z3.MultiPattern(w1[x], w1[y])])),
        ('C21,C22: kept-entries-keep-their-place', forall([x], z3.Implies(w1[x] != 0, z3.And(W.inl[x] == V.inl[x])), patterns=[w1[x]])),
    ]


FIXED = ('key', 'value', 'pin', 'units', 'last_use_', 'up')      # untouched by the removal of entries


def removal_effect(u, st, tag):
    """fresh state of everything the removal of entries can change"""
    arrays(u, st, tag, ('next', 'prev', 'where', 'live', 'hooked', 'inl', 'tot', 'psum', 'dsum', 'dcnt', 'ord', 'ordmax'))
    c = st.wblk(u.v['cache'].b).cells
    co = u.v['co']
    for n in ('units_', 'pinned_units_'):
        c[co[n]] = fresh(I, n + tag)
    c[co['table_']], c[co['defer_']] = freshmap(u, st, 'T' + tag), freshmap(u, st, 'D' + tag)


def mono(V, W):
    """facts common to all removals of entries"""
    x, k = z3.Ints('x k')
    return [
        ('C23: disposed-values-stay-disposed', forall([x], z3.And(z3.Implies(V.hooked[x], W.hooked[x]),
            z3.Implies(z3.And(V.where[x] != 0, W.where[x] == 0), W.hooked[x]), z3.Implies(W.live[x], V.live[x])), patterns=[W.hooked[x], W.live[x]])),
        ('C21: sizes-shrink', z3.And(W.tot >= 0, W.tot <= V.tot, W.psum >= 0, W.psum <= W.tot, W.ordmax >= V.ordmax, W.live[H])),
    ]


def same_ord(V, W):
    x = z3.Int('x')
    return ('C22,C24: order-kept', forall([x], z3.Implies(W.where[x] != 0, W.ord[x] == V.ord[x]), patterns=[W.ord[x]]))


def h_gc(ex, st, ci):
    u = st_u(ex)
    sync(u, st)
    name_arrays(u, st)
    V = View(u, st)
    require(u, ex, st, unwrapped(u, st, V, wf(V)))
    removal_effect(u, st, 'g')
    W = View(u, st)
    y = z3.Int('y')
    for n, f in wf(W) + gc_post(V, W) + mono(V, W) + [same_ord(V, W)]:
        st.assume(f)
    st.assume(forall([y], W.ord[y] == V.ord[y], patterns=[W.ord[y]]))


# ------------------------------------------------------------------ contract of DiscardIdle
def expired(V, lru, thr, x):
    return z3.And(V.where[x] == 1, V.inl[x], V.last_use_[x] < thr, z3.Or(V.pin[x] == 0, z3.Not(zbool(lru))))


def idle_post(V, W, thr):
    x = z3.Int('x')
    return [
        ('C24,C21: exactly-the-expired-entries-go', forall([x], W.where[x] == z3.If(expired(V, V.lru_, thr, x),
            z3.If(V.pin[x] > 0, z3.IntVal(2), z3.IntVal(0)), V.where[x]), patterns=[W.where[x]])),
        ('C22,C24: kept-entries-keep-their-place', forall([x], z3.Implies(W.where[x] == 1, z3.And(W.inl[x] == V.inl[x], W.ord[x] == V.ord[x])), patterns=[W.where[x]])),
    ]


def h_idle(ex, st, ci):
    u = st_u(ex)
    lim = zint(ci.args[1])
    sync(u, st)
    name_arrays(u, st)
    V = View(u, st)
    require(u, ex, st, unwrapped(u, st, V, wf(V)))
    now = fresh(I, 'now')

    def none(s):
        pass

    def some(s):
        s.assume(z3.And(now >= V.now, now < 4 * 10 ** 15))
        s.ghost['now'] = now
        u.v.setdefault('idle', []).append((s, now - lim))
        s.ghost['threshold'] = now - lim
        removal_effect(u, s, 'i')
        W = View(u, s)
        for n, f in wf(W) + idle_post(V, W, now - lim) + mono(V, W):
            s.assume(f)
    raise Fork([(lim < 0, none), (z3.Not(lim < 0), some)])


CONTRACTS = [
    (re.compile(r'operator new\(unsigned long\)'), h_new),
    (re.compile(r'verif::Cache::RemoveElement\('), h_remove_element),
]
C_REMOVE = (re.compile(RX + r'Remove\(scc::SimpleLRUCacheElem'), h_remove_elem)
C_GC = (re.compile(RX + r'GarbageCollect\('), h_gc)
C_IDLE = (re.compile(RX + r'DiscardIdle\('), h_idle)


# ------------------------------------------------------------------ loops
def cursors(c):
    """local variables holding element pointers at the entry of the loop"""
    return [b for b in c.s0.frames[-1].allocas if isinstance(c.s0.mem[b].cells.get(0), SPtr) and c.s0.mem[b].cells[0].reg.name == 'elem']


def cursor(c, i):
    b = cursors(c)[i]
    v = c.ex.norm(c.st.mem[b].cells[0])
    return zint(v.t)


def conj(fn, idx, name=None):
    """candidate: one conjunct of a list computed from (u, state)"""
    def f(c):
        return fn(c)[idx][1]
    return f


def wf_candidates(table=True):
    names = []

    class D:      # count conjuncts
        pass
    n = 25 if table else 23
    out = []
    for i in range(n):
        def f(c, i=i):
            fs = wf(View(st_u(c.ex), c.st), table)
            return fs[i][1]
        out.append(('representation-%d' % i, f))
    return out


def per_cursor(name, fn, n=3):
    out = []
    for i in range(n):
        def f(c, i=i):
            u = st_u(c.ex)
            return fn(c, u, View(u, c.s0), View(u, c.st), cursor(c, i))
        out.append((name + ('' if i == 0 else '-%d' % i), f))
    return out


def plain_cand(name, fn):
    def f(c):
        u = st_u(c.ex)
        return fn(c, u, View(u, c.s0), View(u, c.st))
    return [(name, f)]


def start(f):
    def g(u):
        u.ex.opts['u'] = u
        u.ex.opts['ematch'] = True
        core.EMATCH_ONLY[0] = True
        r = f(u)
        keep(u)
        return r
    return g


def finish(u, st):
    sync(u, st)
    name_arrays(u, st)
    empty_sums(u, st)
    return V0(u), View(u, st)


def unwrapped(u, st, W, fs):
    if not u.v.get('unwrap'):
        return fs
    pairs = []
    for n in ('units_', 'pinned_units_', 'psum', 'tot'):
        unwrap(st, getattr(W, n), pairs)
    return [(n, z3.simplify(z3.substitute(f, *pairs)) if pairs and not core.has_quantifier(f) else f) for n, f in fs]


def unwrap(st, t, pairs):
    """x % m is x when x is within 0..m-1 (proved here, else left alone): innermost first"""
    if not z3.is_expr(t) or not z3.is_app(t) or any(p.eq(t) for p, _ in pairs):
        return
    for x in t.children():
        unwrap(st, x, pairs)
    if z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)):
        a = z3.substitute(t.arg(0), *pairs) if pairs else t.arg(0)
        if check_valid(st.pc, z3.And(a >= 0, a < t.arg(1)), 4000)[0] == 'proved':
            pairs.append((t, a))


SETTINGS = ('max_units_', 'max_idle_', 'lru_')


def check_wf(u, st, W, table=True, settings=SETTINGS):
    V = View(u, u.v['S0'])
    if V.T is not None:
        u.check(st, 'C21,C22,C24: settings-kept', z3.And(*[zint(getattr(W, n)) == zint(getattr(V, n)) if n != 'lru_' else zbool(W.lru_) == zbool(V.lru_)
                                                          for n in settings]))
    for n, f in unwrapped(u, st, W, wf(W, table)):
        u.check(st, n, f)


def frame(V, W, exc=(), only=None):
    """entries other than `exc` are untouched"""
    x = z3.Int('x')
    ne = z3.And(*[x != e for e in exc]) if exc else z3.BoolVal(True)
    eqs = [getattr(W, n)[x] == getattr(V, n)[x] for n in ('where', 'key', 'value', 'pin', 'units', 'last_use_', 'up', 'hooked')]
    return [
        ('C21,C23,C24: other-entries-untouched', forall([x], z3.Implies(z3.And(ne, V.where[x] != 0), z3.And(*eqs)))),
        ('C22,C24: other-entries-keep-their-place', forall([x], z3.Implies(z3.And(ne, V.where[x] == 1), z3.And(W.ord[x] == V.ord[x], W.inl[x] == V.inl[x])))),
    ]


def checks(u, st, fs):
    for n, f in fs:
        u.check(st, n, f)


# ================================================================== GarbageCollect
def setup_gc(u):
    c = world(u)
    u.args = [c]

    def hook(u, ex, st, x):
        V = View(u, st)
        y = z3.Int('y')
        ex.oblige(st, 'C22: evicts-only-over-capacity', V.tot > zint(V.max_units_), 'safety')
        ex.oblige(st, 'C22: evicts-the-least-recently-used', forall([y], z3.Implies(z3.And(V.where[y] == 1, V.inl[y], V.pin[y] == 0), V.ord[x] <= V.ord[y])), 'safety')
    u.v['hook'] = hook


def gc_visited(V, W, e, x):
    """x was passed by the walk from the oldest entry on"""
    return z3.And(V.where[x] == 1, V.inl[x], z3.Or(e == H, V.ord[x] < V.ord[e]))


def inv_gc(c, u, V, W, e):
    x = z3.Int('x')
    return z3.And(forall([x], z3.Implies(V.where[x] != 0, W.where[x] == z3.If(z3.And(gc_visited(V, W, e, x), V.pin[x] == 0), z3.IntVal(0), V.where[x])), patterns=[W.where[x]]))


def inv_at(c, u, V, W, e):
    """the walk is at the head or at an entry of the list"""
    return z3.And(W.M(e), W.where[e] != 2, V.where[e] == W.where[e], V.M(e), z3.Implies(e != H, V.inl[e]))


def inv_over(c, u, V, W, e):
    x = z3.Int('x')
    return forall([x], z3.Implies(z3.And(V.where[x] == 1, W.where[x] == 0), V.over()), patterns=[W.where[x]])


def inv_mono(c, u, V, W):
    return z3.And(*[f for n, f in mono(V, W)])


def inv_ord(c, u, V, W):
    x = z3.Int('x')
    return forall([x], z3.And(W.ord[x] == V.ord[x], z3.Implies(W.where[x] != 0, W.inl[x] == V.inl[x])), patterns=[W.ord[x], W.inl[x]])


def inv_new(c, u, V, W):
    x = z3.Int('x')
    return forall([x], z3.Implies(W.where[x] != 0, V.where[x] != 0), patterns=[W.where[x]])


def post_gc(u, st, ret):
    V, W = finish(u, st)
    check_wf(u, st, W)
    checks(u, st, gc_post(V, W) + mono(V, W) + [same_ord(V, W)])
    x = z3.Int('x')
    u.check(st, 'C22: order-kept-everywhere', forall([x], W.ord[x] == V.ord[x], patterns=[W.ord[x]]))
    u.check(st, 'C21,C23: other-entries-untouched', forall([x], z3.Implies(W.where[x] != 0, z3.And(
        *[getattr(W, n)[x] == getattr(V, n)[x] for n in FIXED]))))


UNITS.append(Unit(['C21', 'C22', 'C23'], 'GarbageCollect', TU, RX + r'GarbageCollect\(', start(setup_gc), post_gc,
                  opts=dict(candidates=wf_candidates() + per_cursor('at-a-listed-entry', inv_at) + per_cursor('walked-so-far', inv_gc) + per_cursor('over', inv_over, 1) +
                            plain_cand('mono', inv_mono) + plain_cand('order', inv_ord) + plain_cand('no-new', inv_new), iter_check='C23: no-iterator-used-after-erase'),
                  contracts=CONTRACTS))


# ================================================================== Remove(Elem*)
def setup_remove_elem(u):
    c = world(u)
    x = u.int('e')
    V = View(u, u.st)
    u.assume(V.where[x] == 1)
    # the caller may have taken it out of the table already
    gone = fresh(B, 'erased')
    ms = u.v['ms']
    b = u.st.wblk(c.b)
    b.cells[u.v['co']['table_']] = freshmap(u, u.st, 'T1')
    u.args = [c, SPtr(u.v['reg'], x)]
    u.v['x'] = x


def post_remove_elem(u, st, ret):
    x = u.v['x']
    V = V0(u)
    live = st.ghost[gk('live')][x]

    def ch():
        setg(st, 'where', x, z3.If(live, z3.IntVal(2), z3.IntVal(0)))
    ghost_update(u, st, x, ch)
    W = View(u, st)
    u.check(st, 'C23,C21: disposed-of-iff-unpinned', z3.And(live == (V.pin[x] > 0), W.hooked[x] == z3.Not(live)))
    check_wf(u, st, W, table=False)
    checks(u, st, frame(V, W, [x]))
    u.check(st, 'C22: order-of-deferred', z3.And(z3.Implies(live, W.ord[x] > V.ordmax), W.ordmax >= V.ordmax))
    u.check(st, 'C21: table-untouched', z3.And(W.T == V.T, z3.Implies(z3.Not(live), W.D == V.D)))
    y = z3.Int('y')
    u.check(st, 'C21,C23: entry-unchanged', z3.Implies(live, z3.And(*[getattr(W, n)[x] == getattr(V, n)[x] for n in FIXED])))
    u.check(st, 'C22,C23: places-kept', forall([y], z3.Implies(y != x, z3.And(W.ord[y] == V.ord[y], z3.Implies(V.where[y] != 2, W.inl[y] == V.inl[y])))))


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'Remove(Elem*)', TU, RX + r'Remove\(scc::SimpleLRUCacheElem', start(setup_remove_elem), post_remove_elem,
                  opts=dict(merge=False, iter_check='C23: no-iterator-used-after-erase'), contracts=CONTRACTS))


# ================================================================== Remove(k)
def removed(V, W, x):
    """x was taken out of the main table: put aside when pinned, else disposed of"""
    return z3.And(W.where[x] == z3.If(V.pin[x] > 0, z3.IntVal(2), z3.IntVal(0)), W.hooked[x] == z3.Not(V.pin[x] > 0),
                  W.live[x] == (V.pin[x] > 0), z3.Implies(V.pin[x] > 0, same_entry(V, W, x)))


def same_entry(V, W, x):
    return z3.And(*[getattr(W, n)[x] == getattr(V, n)[x] for n in ('key', 'value', 'pin', 'units', 'last_use_')])


def setup_remove_key(u):
    c = world(u)
    kp, k = key(u)
    u.args = [c, kp]
    u.v['k'] = k
    V = View(u, u.st)
    u.v['x'] = V.get(V.T, k)
    return [(u.st, u.args)]


def sizes(u, st, V, W, x):
    """the totals after Remove of x"""
    p = V.pin[x] > 0
    n = V.units[x]
    return z3.And(zint(W.units_) == V.tot - z3.If(p, 0, n), zint(W.pinned_units_) == V.psum - z3.If(p, n, 0))


def post_remove_key(u, st, ret):
    V, W = finish(u, st)
    k, x = u.v['k'], u.v['x']
    had = V.has(V.T, k)
    check_wf(u, st, W)
    u.check(st, 'C21: key-gone', z3.Not(W.has(W.T, k)))
    u.check(st, 'C21,C23: entry-removed', z3.Implies(had, z3.And(removed(V, W, x), sizes(u, st, V, W, x))))
    y = z3.Int('y')
    u.check(st, 'C21,C23: nothing-else-removed', forall([y], z3.Implies(z3.Or(y != x, z3.Not(had)), W.where[y] == V.where[y]), patterns=[W.where[y]]))
    checks(u, st, frame(V, W, [z3.If(had, x, z3.IntVal(0))]))


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'Remove', TU, RX + r'Remove\(long const&\)', start(setup_remove_key), post_remove_key,
                  opts=dict(merge=False, iter_check='C23: no-iterator-used-after-erase'), contracts=CONTRACTS + [C_REMOVE]))


# ================================================================== InsertPinned
def new_value(u, st):
    """a value the cache does not hold"""
    v = u.int('v')
    V = View(u, st)
    y = z3.Int('y')
    u.assume(v != 0, forall([y], z3.Implies(V.where[y] != 0, V.value[y] != v), patterns=[V.value[y]]))
    u.v['v'] = v
    return SPtr(u.v['vals'], v)


def setup_insert(u):
    c = world(u)
    kp, k = key(u)
    v = new_value(u, u.st)
    n = u.int('n')
    V = View(u, u.st)
    u.assume(n >= 0, n < BIG)
    u.args = [c, kp, v, n]
    u.v.update(k=k, n=n)

    def hook(u, ex, st, x):
        # only the entry replaced, or one evicted to make room
        u.v.setdefault('hooks', []).append(x)
    return [(u.st, u.args)]


def inserted_facts(u, st, V, W, pinned):
    """the state after the insertion, before it may be disposed of again"""
    k, v, n = u.v['k'], u.v['v'], u.v['n']
    e = W.get(W.T, k)
    old = V.get(V.T, k)
    had = V.has(V.T, k)
    y = z3.Int('y')
    total = V.tot + n - z3.If(z3.And(had, z3.Not(V.pin[old] > 0)), V.units[old], 0)
    isold = lambda t: z3.And(had, t == old)
    out = [
        ('C21: key-maps-to-the-new-value', z3.And(W.has(W.T, k), W.value[e] == v, W.key[e] == k, W.units[e] == n, W.where[e] == 1, z3.Not(V.live[e]))),
        ('C21,C23: replaced-entry-removed', z3.Implies(had, removed(V, W, old))),
        ('C21,C23: only-evicted-entries-go', forall([y], z3.Implies(z3.And(V.where[y] != 0, z3.Not(isold(y))), z3.Or(z3.And(W.where[y] == V.where[y], same_entry(V, W, y)),
            z3.And(V.where[y] == 1, V.inl[y], V.pin[y] == 0, W.where[y] == 0, total > zint(V.max_units_)))), patterns=[W.where[y]])),
        ('C21,C23: nothing-else-appears', forall([y], z3.Implies(z3.And(V.where[y] == 0, y != e), W.where[y] == 0), patterns=[W.where[y]])),
        ('C22: no-unpinned-entry-is-kept-over-capacity', z3.Or(z3.Not(W.over()), forall([y], z3.Implies(z3.And(W.where[y] == 1, W.inl[y]), W.pin[y] > 0), patterns=[W.where[y]]))),
        ('C22: least-recently-used-first', forall([y, T2], z3.Implies(z3.And(V.where[y] == 1, W.where[y] == 0, z3.Not(isold(y)), W.where[T2] == 1, V.where[T2] == 1, V.inl[T2], V.pin[T2] == 0),
            V.ord[y] < V.ord[T2]), patterns=[z3.MultiPattern(W.where[y], W.where[T2])])),
        ('C22,C24: kept-entries-keep-their-place', forall([y], z3.Implies(z3.And(V.where[y] == 1, W.where[y] == 1), z3.And(W.ord[y] == V.ord[y], W.inl[y] == V.inl[y])), patterns=[W.where[y]])),
        ('C24: insertion-time', z3.And(W.last_use_[e] == W.now, W.now >= V.now)),
        ('C22,C24: new-entry-is-the-most-recent', z3.Implies(W.inl[e], W.ord[e] > V.ordmax)),
        ('C21: total', zint(W.units_) <= total),
    ]
    return out


T2 = z3.Int('y2')


def post_insert(u, st, ret):
    V, W = finish(u, st)
    e = W.get(W.T, u.v['k'])
    check_wf(u, st, W)
    checks(u, st, inserted_facts(u, st, V, W, True))
    u.check(st, 'C21,C23: new-entry-pinned-once', z3.And(W.pin[e] == 1, z3.Not(W.hooked[e]), W.up[e] == 1, W.inl[e] == z3.Not(zbool(V.lru_))))


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'InsertPinned', TU, RX + r'InsertPinned\(', start(setup_insert), post_insert,
                  opts=dict(merge=False, iter_check='C23: no-iterator-used-after-erase'), contracts=CONTRACTS + [C_REMOVE, C_GC], weight=3))


# ================================================================== DiscardIdle
def setup_idle(u):
    c = world(u)
    lim = u.int('limit')
    u.args = [c, lim]
    u.v['lim'] = lim
    V = View(u, u.st)
    u.assume(lim >= -1)

    def hook(u, ex, st, x):
        V = View(u, st)
        ex.oblige(st, 'C24: disposes-of-expired-entries-only', z3.And(lim >= 0, V.last_use_[x] < V.now - lim), 'safety')
    u.v['hook'] = hook


def idle_visited(V, e, x):
    return z3.And(V.where[x] == 1, V.inl[x], z3.Or(e == H, V.ord[x] < V.ord[e]))


def inv_idle(c, u, V, W, e):
    x = z3.Int('x')
    lru = zbool(V.lru_)
    g = z3.And(idle_visited(V, e, x), z3.Or(V.pin[x] == 0, z3.Not(lru)))
    return z3.And(forall([x], W.where[x] == z3.If(g, z3.If(V.pin[x] > 0, z3.IntVal(2), z3.IntVal(0)), V.where[x]), patterns=[W.where[x]]))


def inv_idle_old(c, u, V, W, e):
    x = z3.Int('x')
    lim = u.v['lim']
    return forall([x], z3.Implies(idle_visited(V, e, x), V.last_use_[x] < W.now - lim), patterns=[V.last_use_[x], W.where[x]])


def int_locals(c):
    return [b for b in c.s0.frames[-1].allocas if z3.is_int(c.st.mem[b].cells.get(0)) or isinstance(c.st.mem[b].cells.get(0), int)]


def below_rest(i):
    def f(c):
        u = st_u(c.ex)
        V = View(u, c.s0)
        e = cursor(c, 0)
        x = z3.Int('x')
        v = zint(c.st.mem[int_locals(c)[i]].cells[0])
        return forall([x], z3.Implies(z3.And(V.where[x] == 1, V.inl[x], z3.Not(idle_visited(V, e, x))), v <= V.last_use_[x]), patterns=[V.last_use_[x]])
    return f


def inv_kept(c, u, V, W):
    x = z3.Int('x')
    return forall([x], z3.Implies(W.where[x] == 1, z3.And(W.ord[x] == V.ord[x], W.inl[x] == V.inl[x])), patterns=[W.where[x]])


def post_idle(u, st, ret):
    V, W = finish(u, st)
    lim = u.v['lim']
    check_wf(u, st, W)
    thr = W.now - lim
    x = z3.Int('x')
    u.check(st, 'C24: no-limit-nothing-expires', z3.Implies(lim < 0, forall([x], W.where[x] == V.where[x], patterns=[W.where[x]])))
    for n, f in idle_post(V, W, thr) + mono(V, W):
        u.check(st, n, z3.Implies(lim >= 0, f))
    u.check(st, 'C24: judged-at-the-present-time', W.now >= V.now)
    u.check(st, 'C21,C23: entries-untouched', forall([x], z3.Implies(W.where[x] != 0, z3.And(*[getattr(W, n)[x] == getattr(V, n)[x] for n in FIXED])), patterns=[W.where[x]]))


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'DiscardIdle', TU, RX + r'DiscardIdle\(', start(setup_idle), post_idle,
                  opts=dict(candidates=wf_candidates() + per_cursor('at-a-listed-entry', inv_at) + per_cursor('expired-so-far', inv_idle) + per_cursor('expired', inv_idle_old) +
                            [('last-use-%d' % i, below_rest(i)) for i in range(4)] +
                            plain_cand('mono', inv_mono) + plain_cand('order', inv_kept) + plain_cand('no-new', inv_new), iter_check='C23: no-iterator-used-after-erase'),
                  contracts=CONTRACTS + [C_REMOVE], weight=3))


# ================================================================== LookupWithOptions
def options(u):
    o = fresh(B, 'update_order')
    u.v['upd'] = o
    return u.obj('options', o, 1)


def pins(u, delta):
    """the pin count changed by this call is one taken with the options given"""
    u.v['on_pin'] = delta


def setup_lookup(u):
    c = world(u)
    kp, k = key(u)
    V = View(u, u.st)
    x = V.get(V.T, k)
    u.assume(z3.Implies(V.has(V.T, k), V.pin[x] < 2 ** 31 - 1))
    u.args = [c, kp, options(u)]
    u.v.update(k=k, x=x)
    pins(u, 1)


def post_lookup(u, st, ret):
    V, W = finish(u, st)
    k, x, lru, upd = u.v['k'], u.v['x'], zbool(V.lru_), u.v['upd']
    thr = W.now - zint(V.max_idle_)
    gone = lambda y: z3.And(zint(V.max_idle_) >= 0, expired(V, lru, thr, y))
    hit = z3.And(V.has(V.T, k), z3.Not(gone(x)))
    r = zint(ret.t) if isinstance(ret, SPtr) else zint(0)
    y = z3.Int('y')
    check_wf(u, st, W)
    u.check(st, 'C21,C24: returns-the-unexpired-entry', r == z3.If(hit, V.value[x], z3.IntVal(0)))
    u.check(st, 'C23: entry-returned-is-pinned', z3.Implies(hit, z3.And(W.where[x] == 1, W.pin[x] == V.pin[x] + 1, W.up[x] == V.up[x] + z3.If(upd, 1, 0))))
    u.check(st, 'C22: entry-in-use-leaves-the-eviction-order', z3.Implies(hit, W.inl[x] == z3.And(V.inl[x], z3.Not(z3.And(lru, upd))))) 
    u.check(st, 'C21,C24: entry-returned-is-unchanged', z3.Implies(hit, z3.And(*[getattr(W, n)[x] == getattr(V, n)[x] for n in ('key', 'value', 'units', 'last_use_')])))
    u.check(st, 'C24,C21: exactly-the-expired-entries-go', forall([y], W.where[y] == z3.If(gone(y), z3.If(V.pin[y] > 0, z3.IntVal(2), z3.IntVal(0)), V.where[y]), patterns=[W.where[y]]))
    fx = frame_gone(V, W, z3.If(hit, x, z3.IntVal(0)))
    checks(u, st, fx)
    u.check(st, 'C21: total-size-kept-on-a-hit-or-miss', z3.Implies(z3.Not(zint(V.max_idle_) >= 0), zint(W.units_) == zint(V.units_)))


def frame_gone(V, W, x):
    y = z3.Int('y')
    return [('C21,C23,C24: other-entries-untouched', forall([y], z3.Implies(z3.And(y != x, W.where[y] != 0), z3.And(*[getattr(W, n)[y] == getattr(V, n)[y] for n in FIXED])), patterns=[W.where[y]])),
            ('C22,C24: other-entries-keep-their-place', forall([y], z3.Implies(z3.And(y != x, W.where[y] == 1), z3.And(W.ord[y] == V.ord[y], W.inl[y] == V.inl[y])), patterns=[W.where[y]])),
            ('C23: disposed-of-iff-gone', forall([y], z3.Implies(V.where[y] != 0, W.hooked[y] == (W.where[y] == 0)), patterns=[W.hooked[y]]))]


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'LookupWithOptions', TU, RX + r'LookupWithOptions\(', start(setup_lookup), post_lookup,
                  opts=dict(merge=False, iter_check='C23: no-iterator-used-after-erase'), contracts=CONTRACTS + [C_IDLE], weight=2))


# ================================================================== ReleaseWithOptions
def setup_release(u):
    c = world(u)
    kp, k = key(u)
    V = View(u, u.st)
    x, v = u.int('x'), u.int('v')
    o = options(u)
    upd = u.v['upd']
    u.assume(V.where[x] != 0, V.key[x] == k, V.value[x] == v, V.pin[x] > 0, z3.If(upd, V.up[x] > 0, V.pin[x] > V.up[x]))
    u.args = [c, kp, SPtr(u.v['vals'], v), o]
    u.v.update(k=k, x=x, v=v, unwrap=True)
    pins(u, -1)


def inv_release(c, u, V, W, e):
    """walk of a deferred ring along prev: everything passed is not the entry looked for"""
    x = u.v['x']
    hd = V.get(V.D, u.v['k'])
    return z3.And(V.has(V.D, u.v['k']), W.where[e] == 2, W.key[e] == u.v['k'], W.where[hd] == 2,
                  z3.Implies(W.where[x] == 2, z3.Or(x == hd, z3.And(e != hd, W.ord[x] >= W.ord[e]))))


def inv_same(c, u, V, W):
    return z3.And(*[getattr(W, n) == getattr(V, n) for n in list(u.v['off']) + list(GA) if not getattr(W, n).eq(getattr(V, n))])


def release_facts(V, W, x, lru, upd):
    last = V.pin[x] == 1
    kick = z3.And(V.where[x] == 1, V.tot > zint(V.max_units_))
    kept = W.where[x] != 0
    y = z3.Int('y')
    return [
        ('C23,C22: last-pin-of-a-removed-or-surplus-entry-disposes-of-it', W.where[x] == z3.If(z3.And(last, z3.Or(V.where[x] == 2, kick)), z3.IntVal(0), V.where[x])),
        ('C23: disposed-of-iff-gone', W.hooked[x] == (W.where[x] == 0)),
        ('C23: one-pin-less', z3.Implies(kept, z3.And(W.pin[x] == V.pin[x] - 1, W.up[x] == V.up[x] - z3.If(upd, 1, 0)))),
        ('C21: entry-unchanged', z3.Implies(kept, z3.And(*[getattr(W, n)[x] == getattr(V, n)[x] for n in ('key', 'value', 'units')]))),
        ('C22: unpinned-entry-is-in-the-eviction-order', z3.Implies(z3.And(kept, V.where[x] == 1), z3.And(
            W.inl[x] == z3.Or(V.inl[x], z3.And(lru, last)),
            z3.If(V.inl[x], W.ord[x] == V.ord[x], z3.Implies(W.inl[x], W.ord[x] > V.ordmax))))),
        ('C24: use-refreshes-the-idle-time', z3.Implies(z3.And(kept, V.where[x] == 1, lru, upd), z3.And(W.last_use_[x] == W.now, W.now >= V.now))),
        ('C24: age-and-unordered-use-do-not', z3.Implies(z3.And(kept, z3.Or(z3.Not(lru), V.inl[x])), W.last_use_[x] == V.last_use_[x])),
        ('C21,C23: nothing-else-goes', forall([y], z3.Implies(y != x, W.where[y] == V.where[y]), patterns=[W.where[y]])),
        ('C21: total-size', zint(W.units_) == V.tot - z3.If(kept, 0, V.units[x])),
    ] + frame_gone(V, W, x)


def post_release(u, st, ret):
    V, W = finish(u, st)
    check_wf(u, st, W)
    checks(u, st, release_facts(V, W, u.v['x'], zbool(V.lru_), u.v['upd']))


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'ReleaseWithOptions', TU, RX + r'ReleaseWithOptions\(', start(setup_release), post_release,
                  opts=dict(merge=False, iter_check='C23: no-iterator-used-after-erase', candidates=per_cursor('not-yet-found', inv_release) + plain_cand('same', inv_same)),
                  contracts=CONTRACTS + [C_REMOVE], weight=3))


# ================================================================== RemoveUnpinned
def setup_all(u):
    c = world(u)
    u.args = [c]


def inv_unpinned(c, u, V, W, e):
    """walk from the most recent entry on"""
    x = z3.Int('x')
    vis = z3.And(V.where[x] == 1, V.inl[x], z3.Or(e == H, V.ord[x] > V.ord[e]))
    return z3.And(forall([x], W.where[x] == z3.If(z3.And(vis, V.pin[x] == 0), z3.IntVal(0), V.where[x]), patterns=[W.where[x]]))


def inv_untouched(c, u, V, W):
    x = z3.Int('x')
    return forall([x], z3.Implies(W.where[x] != 0, z3.And(*[getattr(W, n)[x] == getattr(V, n)[x] for n in FIXED])), patterns=[W.where[x]])


def post_unpinned(u, st, ret):
    V, W = finish(u, st)
    check_wf(u, st, W)
    y = z3.Int('y')
    u.check(st, 'C21,C23: exactly-the-unpinned-entries-go', forall([y], W.where[y] == z3.If(z3.And(V.where[y] == 1, V.pin[y] == 0), z3.IntVal(0), V.where[y]), patterns=[W.where[y]]))
    checks(u, st, frame_gone(V, W, z3.IntVal(0)))


def inv_hooked(c, u, V, W):
    y = z3.Int('y')
    return forall([y], z3.Implies(V.where[y] != 0, W.hooked[y] == (W.where[y] == 0)), patterns=[W.hooked[y]])


COMMON = plain_cand('mono', inv_mono) + plain_cand('order', inv_kept) + plain_cand('no-new', inv_new) + plain_cand('untouched', inv_untouched) + plain_cand('hooked', inv_hooked)
UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'RemoveUnpinned', TU, RX + r'RemoveUnpinned\(', start(setup_all), post_unpinned,
                  opts=dict(candidates=wf_candidates() + per_cursor('at-a-listed-entry', inv_at) + per_cursor('removed-so-far', inv_unpinned) + COMMON, iter_check='C23: no-iterator-used-after-erase'),
                  contracts=CONTRACTS + [C_REMOVE], weight=3))


# ================================================================== RemoveAll
def iters(c):
    out = []
    for b in c.st.frames[-1].allocas:
        o = c.st.mem[b].cells.get(0)
        if isinstance(o, Obj) and o.kind == 'iter' and o.mode == 'pos':
            out.append(o)
    return out


def inv_removeall(c):
    u = st_u(c.ex)
    V, W = View(u, c.s0), View(u, c.st)
    it = iters(c)[0]
    x = z3.Int('x')
    done = it.idx(V.key[x]) < toint(it.pos)
    return forall([x], W.where[x] == z3.If(z3.And(V.where[x] == 1, done), z3.If(V.pin[x] > 0, z3.IntVal(2), z3.IntVal(0)), V.where[x]), patterns=[W.where[x]])


def inv_hookdone(c):
    u = st_u(c.ex)
    V, W = View(u, c.s0), View(u, c.st)
    x = z3.Int('x')
    return forall([x], z3.Implies(V.where[x] != 0, W.hooked[x] == (W.where[x] == 0)), patterns=[W.hooked[x]])


def inv_table_same(c, u, V, W):
    return W.T == V.T


def post_removeall(u, st, ret):
    V, W = finish(u, st)
    check_wf(u, st, W)
    y = z3.Int('y')
    u.check(st, 'C21,C23: every-entry-is-removed', forall([y], W.where[y] == z3.If(z3.And(V.where[y] == 1, V.pin[y] == 0), z3.IntVal(0), z3.If(V.where[y] == 1, z3.IntVal(2), V.where[y])), patterns=[W.where[y]]))
    u.check(st, 'C21: no-pinned-size-left', zint(W.pinned_units_) == 0)
    checks(u, st, frame_gone(V, W, z3.IntVal(0)))


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'RemoveAll', TU, RX + r'RemoveAll\(', start(setup_all), post_removeall,
                  opts=dict(candidates=wf_candidates(False) + [('removed-so-far', inv_removeall), ('hooked-so-far', inv_hookdone)] + plain_cand('table-same', inv_table_same) + COMMON,
                            iter_check='C23: no-iterator-used-after-erase'),
                  contracts=CONTRACTS + [C_REMOVE], weight=2))


# ================================================================== Clear
def setup_clear(u):
    c = world(u)
    V = View(u, u.st)
    x = z3.Int('x')
    u.assume(forall([x], z3.Implies(V.where[x] != 0, V.pin[x] == 0), patterns=[V.where[x]]))
    u.args = [c]


def inv_clear(c):
    u = st_u(c.ex)
    V, W = View(u, c.s0), View(u, c.st)
    it = iters(c)[0]
    x = z3.Int('x')
    done = it.idx(V.key[x]) < toint(it.pos)
    return forall([x], W.where[x] == z3.If(z3.And(V.where[x] == 1, done), z3.IntVal(0), V.where[x]), patterns=[W.where[x]])


def post_clear(u, st, ret):
    V, W = finish(u, st)
    check_wf(u, st, W)
    y = z3.Int('y')
    u.check(st, 'C21,C23: cache-is-empty', z3.And(forall([y], W.where[y] == 0, patterns=[W.where[y]]), zint(W.units_) == 0, zint(W.pinned_units_) == 0))
    checks(u, st, frame_gone(V, W, z3.IntVal(0)))


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'Clear', TU, RX + r'Clear\(', start(setup_clear), post_clear,
                  opts=dict(candidates=wf_candidates(False) + [('cleared-so-far', inv_clear), ('hooked-so-far', inv_hookdone)] + plain_cand('table-same', inv_table_same) + COMMON),
                  contracts=CONTRACTS, weight=2))


# ================================================================== Insert = InsertPinned, then Release
def setup_insert_only(u):
    r = setup_insert(u)
    pins(u, 0)
    u.v['upd'] = z3.BoolVal(True)
    return r


def post_insert_only(u, st, ret):
    V, W = finish(u, st)
    k, v, n = u.v['k'], u.v['v'], u.v['n']
    check_wf(u, st, W)
    e = W.get(W.T, k)
    y = z3.Int('y')
    ok = W.has(W.T, k)
    u.check(st, 'C21: key-maps-to-the-new-value-or-to-none', z3.Implies(ok, z3.And(W.value[e] == v, W.units[e] == n, W.pin[e] == 0, W.inl[e])))
    u.check(st, 'C22: the-new-entry-goes-only-when-over-capacity', z3.Or(ok, st.ghost['surplus']))
    u.check(st, 'C22: no-unpinned-entry-is-kept-over-capacity', z3.Or(z3.Not(W.over()), forall([y], z3.Implies(z3.And(W.where[y] == 1, W.inl[y]), W.pin[y] > 0), patterns=[W.where[y]])))


def h_insert_pinned(ex, st, ci):
    """contract of InsertPinned (proved above)"""
    u = st_u(ex)
    V = View(u, st)
    require(u, ex, st, unwrapped(u, st, V, wf(V)))
    c = st.wblk(u.v['cache'].b).cells
    arrays(u, st, 'p', list(u.v['off']) + list(GA) + list(GS))
    for n in ('units_', 'pinned_units_'):
        c[u.v['co'][n]] = fresh(I, n + 'p')
    c[u.v['co']['table_']], c[u.v['co']['defer_']] = freshmap(u, st, 'Tp'), freshmap(u, st, 'Dp')
    now = fresh(I, 'now')
    st.ghost['now'] = now
    st.assume(z3.And(now >= V.now, now < 4 * 10 ** 15))
    W = View(u, st)
    e = W.get(W.T, u.v['k'])
    for n, f in wf(W) + inserted_facts(u, st, V, W, True):
        st.assume(f)
    st.assume(z3.And(W.pin[e] == 1, z3.Not(W.hooked[e]), W.up[e] == 1, W.inl[e] == z3.Not(zbool(V.lru_))))
    st.assume(z3.And(W.tot >= 0, W.psum >= 0, W.tot < 4 * BIG, W.live[H]))
    st.ghost['surplus'] = W.over()


C_INSERT = (re.compile(RX + r'InsertPinned\('), h_insert_pinned)


def h_release(ex, st, ci):
    """contract of ReleaseWithOptions (proved above), for an entry of the main table"""
    u = st_u(ex)
    V = View(u, st)
    k, v = zint(ex.read(st, ci.args[1])), zint(ci.args[2].t) if isinstance(ci.args[2], SPtr) else zint(0)
    upd = zbool(ex.read(st, ci.args[3]))
    x = V.get(V.T, k)
    require(u, ex, st, unwrapped(u, st, V, wf(V)))
    ex.oblige(st, 'C23: release-matches-a-pin', z3.And(V.has(V.T, k), V.value[x] == v, V.pin[x] > 0, z3.If(upd, V.up[x] > 0, V.pin[x] > V.up[x])), 'pre')
    c = st.wblk(u.v['cache'].b).cells
    arrays(u, st, 'q', list(u.v['off']) + list(GA) + list(GS))
    for n in ('units_', 'pinned_units_'):
        c[u.v['co'][n]] = fresh(I, n + 'q')
    c[u.v['co']['table_']], c[u.v['co']['defer_']] = freshmap(u, st, 'Tq'), freshmap(u, st, 'Dq')
    now = fresh(I, 'now')
    st.ghost['now'] = now
    st.assume(z3.And(now >= V.now, now < 4 * 10 ** 15))
    W = View(u, st)
    for n, f in wf(W) + release_facts(V, W, x, zbool(V.lru_), upd):
        st.assume(f)
    st.assume(z3.And(W.tot >= 0, W.psum >= 0, W.live[H]))


C_RELEASE = (re.compile(RX + r'ReleaseWithOptions\('), h_release)
UNITS.append(Unit(['C21', 'C22', 'C23'], 'Insert', TU, RX + r'Insert\(', start(setup_insert_only), post_insert_only,
                  opts=dict(merge=False), contracts=CONTRACTS + [C_INSERT, C_RELEASE]))


# ================================================================== UpdateSize
def setup_update(u):
    c = world(u)
    kp, k = key(u)
    v, n = u.int('v'), u.int('n')
    u.assume(n >= 0, n < BIG)
    V = View(u, u.st)
    u.args = [c, kp, SPtr(u.v['vals'], v), n]
    u.v.update(unwrap=True, k=k, v=v, n=n)


def matches(u, V, x):
    """the entries whose size is changed"""
    k, v = u.v['k'], u.v['v']
    m = V.get(V.T, k)
    intable = z3.And(V.has(V.T, k), z3.Or(v == 0, V.value[m] == v))
    return z3.Or(z3.And(intable, x == m), z3.And(z3.Not(intable), V.where[x] == 2, V.key[x] == k, z3.Or(v == 0, V.value[x] == v)))


def ring_cursor(c, u, V, W, e):
    """the walk of the deferred ring of the key is at one of its entries"""
    return z3.And(V.has(V.D, u.v['k']), V.where[e] == 2, V.key[e] == u.v['k'], W.D == V.D)


def inv_resized(c, u, V, W, e):
    x = z3.Int('x')
    hd = V.get(V.D, u.v['k'])
    done = z3.And(e != hd, z3.Or(x == hd, V.ord[x] < V.ord[e]), V.where[x] == 2, V.key[x] == u.v['k'], z3.Or(u.v['v'] == 0, V.value[x] == u.v['v']))
    return forall([x], W.units[x] == z3.If(done, u.v['n'], V.units[x]), patterns=[W.units[x]])


def inv_ptrs(c, u, V, W):
    return z3.And(*[getattr(W, n) == getattr(V, n) for n in list(u.v['off']) + list(GA) if n != 'units'])


def post_update(u, st, ret):
    V, W = finish(u, st)
    check_wf(u, st, W)
    x = z3.Int('x')
    u.check(st, 'C21: exactly-the-entries-named-are-resized', forall([x], z3.Implies(W.where[x] != 0, W.units[x] == z3.If(matches(u, V, x), u.v['n'], V.units[x])), patterns=[W.where[x]]))
    u.check(st, 'C21,C23: entries-untouched', forall([x], z3.Implies(W.where[x] != 0, z3.And(*[getattr(W, n)[x] == getattr(V, n)[x] for n in FIXED if n != 'units'])), patterns=[W.where[x]]))
    checks(u, st, [f for f in gc_post(V, W) if 'over-capacity' not in f[0] or 'kept' in f[0]] + [same_ord(V, W)])
    u.check(st, 'C23: disposed-of-iff-gone', forall([x], z3.Implies(V.where[x] != 0, W.hooked[x] == (W.where[x] == 0)), patterns=[W.hooked[x]]))


UNITS.append(Unit(['C21', 'C22', 'C23'], 'UpdateSize', TU, RX + r'UpdateSize\(', start(setup_update), post_update,
                  opts=dict(merge=False, candidates=per_cursor('ring', ring_cursor) + per_cursor('resized-so-far', inv_resized) + plain_cand('links', inv_ptrs) + wf_candidates()),
                  contracts=CONTRACTS + [C_GC], weight=2))


# ================================================================== StillInUse
def inv_notfound(c, u, V, W, e):
    x = z3.Int('x')
    hd = V.get(V.D, u.v['k'])
    done = z3.And(e != hd, z3.Or(x == hd, V.ord[x] < V.ord[e]), V.where[x] == 2, V.key[x] == u.v['k'])
    return forall([x], z3.Implies(done, z3.And(u.v['v'] != 0, V.value[x] != u.v['v'])), patterns=[V.value[x], V.where[x]])


def setup_inuse(u):
    c = world(u)
    kp, k = key(u)
    v = u.int('v')
    u.args = [c, kp, SPtr(u.v['vals'], v)]
    u.v.update(k=k, v=v)


def unchanged(u, st, V, W):
    same = all(getattr(W, n).eq(getattr(V, n)) for n in list(u.v['off']) + list(GA)) and W.T.eq(V.T) and W.D.eq(V.D)
    u.check(st, 'C21: reading-changes-nothing', z3.And(same, zint(W.units_) == zint(V.units_), zint(W.pinned_units_) == zint(V.pinned_units_)))


def post_inuse(u, st, ret):
    V, W = V0(u), View(u, st)
    y = z3.Int('y')
    k, v = u.v['k'], u.v['v']
    none = forall([y], z3.Not(z3.And(V.where[y] != 0, V.key[y] == k, z3.Or(v == 0, V.value[y] == v))), patterns=[V.where[y]])
    u.check(st, 'C21: in-use-iff-held', zbool(ret) == z3.Not(none))
    unchanged(u, st, V, W)


UNITS.append(Unit(['C21'], 'StillInUse', TU, RX + r'StillInUse\(.*, verif::Val const', start(setup_inuse), post_inuse,
                  opts=dict(merge=False, candidates=per_cursor('ring', ring_cursor) + per_cursor('not-yet-found', inv_notfound) + plain_cand('links', inv_ptrs)), contracts=CONTRACTS))


# ================================================================== SetMaxSize, SetTimeout, RemoveExpiredEntries
def setup_maxsize(u):
    c = world(u)
    n = u.int('n')
    u.args = [c, n]
    u.v['n'] = n


def post_maxsize(u, st, ret):
    V, W = finish(u, st)
    check_wf(u, st, W, settings=('max_idle_', 'lru_'))
    u.check(st, 'C22: limit-set', zint(W.max_units_) == u.v['n'])
    # as if the limit had been the new one all along
    V.max_units_ = u.v['n']
    checks(u, st, gc_post(V, W) + [same_ord(V, W)])


UNITS.append(Unit(['C22', 'C21', 'C23'], 'SetMaxSize', TU, RX + r'SetMaxSize\(', start(setup_maxsize), post_maxsize, opts=dict(merge=False), contracts=CONTRACTS + [C_GC]))


def setup_expire(u):
    c = world(u)
    u.args = [c]


def expiry_checks(u, st, V, W, lru, lim, settings=SETTINGS):
    x = z3.Int('x')
    thr = W.now - lim
    gone = lambda y: z3.And(lim >= 0, expired(V, lru, thr, y))
    u.check(st, 'C24,C21: exactly-the-expired-entries-go', forall([x], W.where[x] == z3.If(gone(x), z3.If(V.pin[x] > 0, z3.IntVal(2), z3.IntVal(0)), V.where[x]), patterns=[W.where[x]]))
    checks(u, st, frame_gone(V, W, z3.IntVal(0)))
    check_wf(u, st, W, settings=settings)


def post_expire(u, st, ret):
    V, W = finish(u, st)
    expiry_checks(u, st, V, W, V.lru_, zint(V.max_idle_))


UNITS.append(Unit(['C24', 'C21', 'C22', 'C23'], 'RemoveExpiredEntries', TU, RX + r'RemoveExpiredEntries\(', start(setup_expire), post_expire, opts=dict(merge=False), contracts=CONTRACTS + [C_IDLE]))


def setup_timeout(lru):
    def f(u):
        c = world(u, lru=z3.BoolVal(lru))     # the mode is chosen once, before entries are pinned
        d = fresh(S.Dbl, 'seconds')
        u.assume(z3.Not(zbool(S.d_isnan(d))))
        u.args = [c, d]
        u.v['d'] = d
    return f


def post_timeout(lru):
    def f(u, st, ret):
        V, W = finish(u, st)
        d = u.v['d']
        lim = zint(W.max_idle_)
        fin = zbool(S.d_isfin(d))
        r = S.d_r(d)
        none = z3.Or(z3.Not(fin), r < 0)
        u.check(st, 'C24: no-limit-iff-negative-or-infinite', z3.And(z3.Implies(none, lim == -1), z3.Implies(z3.Not(none), lim >= 0)))
        us = r * 1000000
        u.check(st, 'C24: limit-in-microseconds', z3.Implies(z3.Not(none), lim == z3.If(us >= z3.RealVal(2 ** 63), z3.IntVal(2 ** 63 - 1), z3.ToInt(us))))
        u.check(st, 'C24: mode-set', zbool(W.lru_) == lru)
        expiry_checks(u, st, V, W, V.lru_, lim, ('max_units_',))
    return f


for nm, lru in (('SetMaxIdleSeconds', True), ('SetAgeBasedEviction', False)):
    UNITS.append(Unit(['C24', 'C21', 'C22', 'C23'], nm, TU, RX + nm + r'\(', start(setup_timeout(lru)), post_timeout(lru), opts=dict(merge=False), contracts=CONTRACTS + [C_IDLE]))


# ================================================================== accessors
def getter(name, rx, fn, prop='C21', witharg=False, pre=None):
    def setup(u):
        c = world(u)
        u.args = [c]
        if witharg:
            kp, k = key(u)
            u.args.append(kp)
            u.v['k'] = k
        if pre:
            u.assume(pre(u, View(u, u.st)))

    def post(u, st, ret):
        V, W = V0(u), View(u, st)
        u.check(st, '%s: %s' % (prop, name), zint(ret) == fn(u, V))
        unchanged(u, st, V, W)
    UNITS.append(Unit([prop], name, TU, RX + rx, start(setup), post, contracts=CONTRACTS))


getter('Size', r'Size\(\)', lambda u, V: V.tot)
getter('PinnedSize', r'PinnedSize\(\)', lambda u, V: V.psum)
getter('MaxSize', r'MaxSize\(\)', lambda u, V: zint(V.max_units_), 'C22')
getter('Entries', r'Entries\(\)', lambda u, V: zint(V.ms.size(V.T)))
timeof = lambda u, V: z3.If(V.has(V.T, u.v['k']), V.last_use_[V.get(V.T, u.v['k'])], z3.IntVal(-1))
getter('GetLastUseTime', r'GetLastUseTime\(', timeof, 'C24', True, lambda u, V: zbool(V.lru_))
getter('GetInsertionTime', r'GetInsertionTime\(', timeof, 'C24', True, lambda u, V: z3.Not(zbool(V.lru_)))


# ================================================================== construction
def setup_ctor(u):
    c = world(u, invariant=False)
    n = u.int('n')
    st = u.st
    V = None
    x = z3.Int('x')
    # nothing is held by a cache under construction
    g = st.ghost
    u.assume(forall([x], z3.And(g[gk('where')][x] == 0), patterns=[g[gk('where')][x]]), forall([x], z3.Implies(g[gk('live')][x], x == H), patterns=[g[gk('live')][x]]))
    u.assume(forall([x], z3.Implies(x != H, z3.And(g[gk('inl')][x] == False, g['reg:elem:%d' % u.v['off']['next']][x] == 0)), patterns=[g[gk('inl')][x]]))
    u.assume(g[gk('live')][H], g[gk('inl')][H], g[gk('ord')][H] == 0)
    for n_ in GS:
        g[gk(n_)] = z3.IntVal(0)
    u.args = [c, n]
    u.v['n'] = n


def post_ctor(u, st, ret):
    W = View(u, st)
    check_wf(u, st, W)
    u.check(st, 'C21: empty-at-first', z3.And(zint(W.units_) == 0, zint(W.pinned_units_) == 0, W.ms.size(W.T) == 0, W.ms.size(W.D) == 0))
    u.check(st, 'C22: limit-as-given', zint(W.max_units_) == u.v['n'])
    u.check(st, 'C24: no-expiry-at-first', z3.And(zint(W.max_idle_) == -1, zbool(W.lru_)))


UNITS.append(Unit(['C21', 'C22', 'C23', 'C24'], 'constructor', TU, RX + r'SimpleLRUCacheBase\(long\)', start(setup_ctor), post_ctor, contracts=CONTRACTS))


# ================================================================== DeferredSize, DeferredEntries
def rank(V, x):
    return z3.If(x == V.hd(x), z3.IntVal(0), V.ord[x])


CNT = z3.Function('deferred_before', I, I, I)      # how many deferred entries come before (index of key, rank), and their total size
SUM = z3.Function('deferred_size_before', I, I, I)


def setup_count(u):
    c = world(u)
    V = View(u, u.st)
    u.v.update(n=u.obj('n', u.int('n'), 8), s=u.obj('s', u.int('s'), 8))
    u.args = [c, u.v['n'], u.v['s']]
    ms, D, st = V.ms, V.D, u.st
    ordf, idx = lib.uord_fns(ms, Ptr(c.b, u.v['co']['defer_']), ms.dom(D))
    e, y, i = z3.Ints('e y i')
    two = lambda t: V.where[t] == 2
    nx = V.prev[e]
    # the order of the walk leaves no entry out ...
    u.check(st, 'C21: ring-walk-skips-nothing', forall([e, y], z3.Implies(z3.And(two(e), two(y), V.key[e] == V.key[y]), z3.And(
        z3.Implies(nx != V.hd(e), z3.And(two(nx), V.key[nx] == V.key[e], rank(V, nx) > rank(V, e), z3.Or(rank(V, y) <= rank(V, e), rank(V, y) >= rank(V, nx)))),
        z3.Implies(nx == V.hd(e), rank(V, y) <= rank(V, e)),
        z3.Implies(rank(V, y) == rank(V, e), y == e), rank(V, y) >= 0)), patterns=[z3.MultiPattern(V.prev[e], V.where[y])]))
    # ... so that counting along it counts every deferred entry once (CNT and SUM are sums over finite sets of entries)
    u.assume(CNT(0, 0) == 0, SUM(0, 0) == 0)
    k = V.key[e]
    step = lambda f, d: z3.If(nx != V.hd(e), f(idx(k), rank(V, nx)) == f(idx(k), rank(V, e)) + d, f(idx(k) + 1, 0) == f(idx(k), rank(V, e)) + d)
    u.assume(forall([e], z3.Implies(two(e), z3.And(step(CNT, 1), step(SUM, V.units[e]))), patterns=[V.prev[e]]))
    u.assume(CNT(ms.size(D), 0) == V.dcnt, SUM(ms.size(D), 0) == V.dsum)
    a, b = z3.Ints('a b')
    u.assume(forall([a, b], z3.And(CNT(a, b) >= 0, CNT(a, b) <= V.dcnt), patterns=[CNT(a, b)]), forall([a, b], z3.And(SUM(a, b) >= 0, SUM(a, b) <= V.dsum), patterns=[SUM(a, b)]))
    u.assume(V.dcnt < 4 * BIG, V.dsum < 4 * BIG)
    u.v.update(idx=idx, ordf=ordf)


def counted_so_far(what):
    def f(c):
        u = st_u(c.ex)
        V = View(u, c.s0)
        p = u.v['n' if what is CNT else 's']
        v = zint(c.st.mem[p.b].cells[0])
        i = toint(iters(c)[0].pos)
        return v == what(zint(i), 0)
    return f


def counted_in_ring(what, j):
    def f(c):
        u = st_u(c.ex)
        V = View(u, c.s0)
        e = cursor(c, j)
        p = u.v['n' if what is CNT else 's']
        v = zint(c.st.mem[p.b].cells[0])
        k = V.key[e]
        return z3.And(V.where[e] == 2, V.has(V.D, k), u.v['idx'](k) == zint(iters(c)[0].pos), v == what(u.v['idx'](k), rank(V, e)))
    return f


def post_count(u, st, ret):
    V, W = V0(u), View(u, st)
    u.check(st, 'C21: number-of-deferred-entries', zint(st.mem[u.v['n'].b].cells[0]) == V.dcnt)
    u.check(st, 'C21: size-of-deferred-entries', zint(st.mem[u.v['s'].b].cells[0]) == V.dsum)
    unchanged(u, st, V, W)


UNITS.append(Unit(['C21'], 'CountDeferredEntries', TU, RX + r'CountDeferredEntries\(', start(setup_count), post_count,
                  opts=dict(candidates=[('count', counted_so_far(CNT)), ('size', counted_so_far(SUM))] +
                            [('ring-count-%d' % j, counted_in_ring(CNT, j)) for j in range(2)] + [('ring-size-%d' % j, counted_in_ring(SUM, j)) for j in range(2)]),
                  contracts=CONTRACTS))


def h_count(ex, st, ci):
    V = View(st_u(ex), st)
    ex.write(st, ci.args[1], V.dcnt)
    ex.write(st, ci.args[2], V.dsum)


C_COUNT = (re.compile(RX + r'CountDeferredEntries\('), h_count)
for nm in ('DeferredSize', 'DeferredEntries'):
    getter(nm, nm + r'\(', lambda u, V, nm=nm: V.dsum if nm == 'DeferredSize' else V.dcnt)
    UNITS[-1].contracts.append(C_COUNT)


# ================================================================== ScopedLookup
SC = RX + r'ScopedLookup::'


def h_ev(name):
    def f(ex, st, ci):
        st.ghost['ev'] = st.ghost.get('ev', ()) + ((name,) + tuple(ci.args),)
        if name == 'lookup':
            return SPtr(st_u(ex).v['vals'], st_u(ex).v['found'])
    return f


C_SCOPED = [(re.compile(RX + r'LookupWithOptions\('), h_ev('lookup')), (re.compile(RX + r'ReleaseWithOptions\('), h_ev('release'))]


def setup_scoped(withopt):
    def f(u):
        c = world(u)
        kp, k = key(u)
        lay = u.layout(u.v['base'].split(' ', 1)[1] + '::ScopedLookup')
        b = u.block('scoped', lay.size)
        u.v.update(k=k, sl=Ptr(b.id), lay=lay, found=u.int('found'), o=None)
        u.args = [Ptr(b.id), c, kp]
        if withopt:
            u.args.append(options(u))
    return f


def the_call(u, st, name):
    ev = [e for e in st.ghost.get('ev', ()) if e[0] == name]
    return ev


def option_of(u, st, p):
    return zbool(u.ex.read(st, p))


def post_scoped(withopt):
    def f(u, st, ret):
        ev = st.ghost.get('ev', ())
        u.check(st, 'C21,C23: scoped-lookup-looks-up-once', len(ev) == 1 and ev[0][0] == 'lookup' and u.ex.ptr_eq(st, ev[0][1], u.v['cache']) is True)
        if len(ev) != 1:
            return
        o = option_of(u, st, ev[0][3])
        want = u.v['upd'] if withopt else z3.BoolVal(True)
        u.check(st, 'C21,C23: scoped-lookup-key-and-options', z3.And(zint(u.ex.read(st, ev[0][2])) == u.v['k'], o == want))
        lay, sl = u.v['lay'], u.v['sl']
        cell = lambda n: u.ex.read(st, Ptr(sl.b, lay.off(n)))
        v = cell('value_')
        u.check(st, 'C21,C23: scoped-lookup-remembers', z3.And(zint(v.t if isinstance(v, SPtr) else 0) == u.v['found'], zint(cell('key_')) == u.v['k'],
                option_of(u, st, Ptr(sl.b, lay.off('options_'))) == want, zbool(u.ex.ptr_eq(st, cell('cache_'), u.v['cache']))))
    return f


for wo, rx in ((False, r'ScopedLookup\([^,]*<long, verif::Val.*>\*, long const&\)$'), (True, r'ScopedLookup\(.*long const&, scc::SimpleLRUCacheOptions const&\)$')):
    UNITS.append(Unit(['C21', 'C23'], 'ScopedLookup' + ('(options)' if wo else ''), TU, SC + rx, start(setup_scoped(wo)), post_scoped(wo), contracts=CONTRACTS + C_SCOPED))


def setup_unscoped(u):
    c = world(u)
    lay = u.layout(u.v['base'].split(' ', 1)[1] + '::ScopedLookup')
    b = u.block('scoped', lay.size)
    found, k, o = u.int('found'), u.int('k'), fresh(B, 'update_order')
    b.cells[lay.off('cache_')] = c
    b.cells[lay.off('key_')] = k
    b.cells[lay.off('options_')] = o
    b.cells[lay.off('value_')] = SPtr(u.v['vals'], found)
    u.v.update(found=found, k=k, o=o)
    u.args = [Ptr(b.id)]


def post_unscoped(u, st, ret):
    ev = st.ghost.get('ev', ())
    u.check(st, 'C23: released-iff-found', z3.Implies(u.v['found'] == 0, z3.BoolVal(len(ev) == 0)))
    u.check(st, 'C23: released-iff-found', z3.Implies(u.v['found'] != 0, z3.BoolVal(len(ev) == 1 and ev[0][0] == 'release')))
    if len(ev) == 1:
        e = ev[0]
        u.check(st, 'C23: releases-what-was-looked-up', z3.And(zint(u.ex.read(st, e[2])) == u.v['k'], zint(e[3].t) == u.v['found'], option_of(u, st, e[4]) == u.v['o'],
                zbool(u.ex.ptr_eq(st, e[1], u.v['cache']))))


UNITS.append(Unit(['C23'], '~ScopedLookup', TU, SC + r'~ScopedLookup\(', start(setup_unscoped), post_unscoped, contracts=CONTRACTS + C_SCOPED))
