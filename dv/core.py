"""Forward symbolic execution of LLVM IR with contracts.

Every function reached is either (a) a library function under an assumed
contract (dv/lib*.py), (b) a repository function used through its contract,
or (c) executed from its IR.  Loops are cut at their header with inductive
invariants (checked for establishment and preservation, Houdini style)."""
import os, re, shutil, subprocess, tempfile, time
import z3
from . import sorts as S
from .sorts import *
from . import protos as P
from .ir import *


class Ptr:
    __slots__ = ('b', 'o', 'p')

    def __init__(self, b, o=0, p=()):
        self.b, self.o, self.p = b, o, p

    def __repr__(self):
        return 'Ptr(%s+%s%s)' % (self.b, self.o, ''.join('.%s' % (x[0],) for x in self.p))

    def same(self, q):
        """True/False/z3 formula: equal addresses"""
        if self.b != q.b or self.o != q.o or len(self.p) != len(q.p):
            return False
        c = True
        for x, y in zip(self.p, q.p):
            if x[0] != y[0]:
                return False
            if x[0] == 'f':
                if x[2] is not y[2]:
                    return False
            else:
                c = And(c, Eq(x[2], y[2]))
        return c


NULL = Ptr(0)


class FnPtr:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name, self.mod = name, mod

    def __repr__(self):
        return 'Fn(%s)' % self.name


class SPtr:
    """Pointer into a region heap: a z3 Int address (0 = null) plus a static field offset.
    `reg` is the Region."""
    __slots__ = ('reg', 't', 'o')

    def __init__(self, reg, t, o=0):
        self.reg, self.t, self.o = reg, t, o

    def __repr__(self):
        return 'SPtr(%s+%d)' % (self.t, self.o)


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Obj:
    """opaque library object with Python-level abstract value; immutable"""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, **v):
        self.kind, self.v = kind, v

    def __getattr__(self, n):
        if n in ('kind', 'v'):
            raise AttributeError(n)
        try:
            return self.v[n]
        except KeyError:
            raise AttributeError(n)

    def with_(self, **kw):
        d = dict(self.v)
        d.update(kw)
        return Obj(self.kind, **d)

    def __repr__(self):
        return 'Obj(%s %s)' % (self.kind, self.v)


class Blk:
    __slots__ = ('id', 'name', 'size', 'kind', 'alive', 'cells', 'const', 'lazy')

    def __init__(self, id, name, size, kind):
        self.id, self.name, self.size, self.kind = id, name, size, kind
        self.alive = True
        self.cells = {}
        self.const = False
        self.lazy = None

    def copy(self):
        b = Blk(self.id, self.name, self.size, self.kind)
        b.alive, b.cells, b.const, b.lazy = self.alive, dict(self.cells), self.const, self.lazy
        return b


_uid = [100]


def uid():
    _uid[0] += 1
    return _uid[0]


class Frame:
    __slots__ = ('fn', 'regs', 'label', 'idx', 'ret', 'uid', 'allocas', 'onret', 'callinfo', 'unroll')

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.label = fn.entry
        self.idx = 0
        self.ret = None
        self.uid = uid()
        self.allocas = []
        self.onret = None
        self.callinfo = None
        self.unroll = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.label, f.idx, f.ret, f.uid = self.fn, dict(self.regs), self.label, self.idx, self.ret, self.uid
        f.allocas, f.onret, f.callinfo = list(self.allocas), self.onret, self.callinfo
        f.unroll = dict(self.unroll)
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.br = set()        # positions in pc of branch conditions (the others are facts)
        self.frames = []
        self.ghost = {}
        self.jump = None       # (from label, to label) pending
        self.loops = []        # stack of LoopCtx
        self.abstracted = False
        self.trace = ()
        self.bounded = False

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.br = set(self.br)
        s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.jump = self.jump
        s.loops = list(self.loops)
        s.abstracted = self.abstracted
        s.trace = self.trace
        s.bounded = self.bounded
        return s

    def assume(self, f):
        f = tobool(f)
        if f is True:
            return
        self.pc.append(zbool(f))

    def branch(self, f):
        n = len(self.pc)
        self.assume(f)
        if len(self.pc) > n:
            self.br.add(n)

    # --- blocks
    def new_block(self, name, size, kind):
        b = Blk(uid(), name, size, kind)
        self.mem[b.id] = b
        self.owned.add(b.id)
        return b

    def wblk(self, bid):
        b = self.mem.get(bid)
        if b is None:
            raise Unsupported('no block %s' % bid)
        if bid not in self.owned:
            b = b.copy()
            self.mem[bid] = b
            self.owned.add(bid)
        return b


def merge_term(c, x, y):
    if x.eq(y):
        return x
    m = P.BYSORT.get(x.sort().get_id())
    if m is not None and not m.opaque and m.fields:
        kw = {}
        for f in m.fields:
            kw[f.name] = merge_term(c, P.raw(m, x, f), P.raw(m, y, f))
        return P.setraw(m, y, **kw)
    return z3.If(c, x, y)


class LoopCtx:
    def __init__(self, header, fn, k, s0):
        self.header, self.fn, self.k, self.s0 = header, fn, k, s0


class Oblig:
    __slots__ = ('unit', 'name', 'kind', 'status', 'model', 'dt', 'abstracted', 'fn', 'detail', 'backend')


TAGGED = re.compile(r'C\d\d')


class PathEnd(Exception):
    pass


class Fork(Exception):
    """raised by a contract: list of (condition, value or callable(st)->value)"""

    def __init__(self, alts):
        self.alts = alts


class Cond:
    """CI passed to contracts"""


class Region:
    """A heap region: objects of one struct type addressed by z3 Ints; one z3
    array per field offset, kept in st.ghost['reg:<name>:<off>']."""

    def __init__(self, name, fields):
        self.name = name
        self.fields = fields  # off -> (fieldname, kind)  kind: 'ptr' (same region), sort

    def arr(self, st, off):
        return st.ghost['reg:%s:%d' % (self.name, off)]

    def setarr(self, st, off, a):
        st.ghost['reg:%s:%d' % (self.name, off)] = a


def values_equal(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if type(a) is not type(b):
        if is_c(a) and is_c(b):
            return a == b
        if z3.is_expr(a) and is_c(b):
            return z3.is_int_value(a) and a.as_long() == b
        return False
    if isinstance(a, Ptr):
        return a.b == b.b and a.o == b.o and len(a.p) == len(b.p) and all(
            x[0] == y[0] and (x[1] is y[1] or x[0] != 'f') and
            (x[2] is y[2] or values_equal(x[2], y[2])) for x, y in zip(a.p, b.p))
    if isinstance(a, Obj):
        return a.kind == b.kind and a.v.keys() == b.v.keys() and all(values_equal(a.v[k], b.v[k]) for k in a.v)
    if isinstance(a, SPtr):
        return a.reg is b.reg and a.o == b.o and values_equal(a.t, b.t)
    if isinstance(a, FnPtr):
        return a.name == b.name
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(values_equal(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def has_quant(f, memo={}):
    i = f.get_id()
    if i in memo and memo[i][0].eq(f):
        return memo[i][1]
    st = [f]
    seen = set()
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    memo[i] = (f, r)
    return r


class Solver:
    """Incremental solver mirroring a path-condition prefix (quantifier free part)."""

    def __init__(self):
        self.s = z3.Solver()
        self.s.set('timeout', 2000)
        self.stack = []
        self.nlits = -1
        self.queries = 0
        self.time = 0.0

    def sync(self, pc):
        if self.nlits != len(S._lits):
            self.s.reset()
            self.s.set('timeout', 2000)
            self.stack = []
            self.nlits = len(S._lits)
            for a in S.lit_axioms():
                self.s.add(a)
        qf = [f for f in pc if not has_quant(f)]
        n = 0
        while n < len(qf) and n < len(self.stack) and (self.stack[n] is qf[n] or self.stack[n].eq(qf[n])):
            n += 1
        for _ in range(len(self.stack) - n):
            self.s.pop()
        del self.stack[n:]
        for f in qf[n:]:
            self.s.push()
            self.s.add(f)
            self.stack.append(f)

    def sat(self, pc, extra=None):
        """'sat' 'unsat' 'unknown' of the quantifier-free part"""
        t = time.time()
        self.sync(pc)
        self.queries += 1
        if extra is None:
            r = self.s.check()
        else:
            self.s.push()
            self.s.add(extra)
            r = self.s.check()
            self.s.pop()
        self.time += time.time() - t
        return str(r)


EMATCH_ONLY = [False]      # set for units whose quantified facts all carry patterns (opts['ematch'])
QCACHE = {}


def has_quantifier(f):
    i = f.get_id()
    r = QCACHE.get(i)
    if r is None or not r[0].eq(f):
        todo, seen, q = [f], set(), False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                q = True
                break
            todo.extend(x.children())
        r = QCACHE[i] = (f, q)
    return r[1]


def ematch(fs, timeout, **kw):
    e = z3.SimpleSolver()
    e.set(auto_config=False, mbqi=False, timeout=timeout)
    for k, v in kw.items():
        e.set(k.replace('__', '.'), v)
    e.add(fs)
    return e.check()


Z3OLD = shutil.which('z3')


def by_patterns(s, timeout, seed):
    """instantiation by patterns only, several search strategies"""
    fs = s.assertions()
    if not seed:
        tries = [lambda: ematch(fs, 700), lambda: ematch(fs, 700, qi__eager_threshold=5.0), lambda: z3cli(s, min(timeout // 1000 + 1, 4))]
    else:
        tries = [lambda: ematch(fs, timeout // 8, random_seed=seed), lambda: ematch(fs, timeout // 8, case_split=3, random_seed=seed),
                 lambda: z3cli(s, timeout // 2500 + 1, 'smt.case_split=3'), lambda: z3cli(s, timeout // 2500 + 1, 'smt.random_seed=%d' % seed)]
    for t in tries:
        if t() == z3.unsat:
            return 'proved'
    return 'unknown'


def z3cli(s, secs, *opts):
    """the same query put to the z3 4.8 binary"""
    if not Z3OLD:
        return z3.unknown
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write(s.to_smt2())
        f.flush()
        try:
            r = subprocess.run([Z3OLD, '-T:%d' % secs, 'auto_config=false', 'smt.mbqi=false'] + list(opts) + [f.name], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=secs + 5).stdout.decode()
        except subprocess.TimeoutExpired:
            return z3.unknown
    return z3.unsat if r.split('\n', 1)[0].strip() == 'unsat' and 'error' not in r else z3.unknown


def cvc5(smt, secs):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        # z3 prints empty conjunctions and disjunctions as bare words
        smt = re.sub(r'(?<=[ )])and(?=[ )\n])', 'true', re.sub(r'(?<=[ )])or(?=[ )\n])', 'false', smt))
        f.write('(set-logic ALL)\n' + smt)
        f.flush()
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=secs + 5).stdout.decode()
        except subprocess.TimeoutExpired:
            return 'unknown'
        except OSError:
            return 'none'
    l = r.split('\n', 1)[0].strip()
    if os.environ.get('DV_CVC5') and l not in ('sat', 'unsat'):
        print('cvc5:', r[:300])
    return l if l in ('sat', 'unsat') else 'unknown' if 'timeout' in r or 'interrupted' in r or l == 'unknown' else 'none'


def saturate(pc, goal, timeout=12000):
    """when instantiation by patterns ends without a contradiction, its last model is a candidate counterexample"""
    e = z3.SimpleSolver()
    e.set(auto_config=False, mbqi=False, timeout=timeout)
    e.set('case_split', 3)
    e.add(S.lit_axioms())
    e.add(list(pc))
    e.add(z3.Not(zbool(goal)))
    r = e.check()
    if r == z3.unsat:
        return 'proved', None
    if r == z3.unknown and 'incomplete' in e.reason_unknown():
        try:
            return 'refuted', e.model()
        except z3.Z3Exception:
            return 'refuted', None
    return 'unknown', None


def check_valid(pc, goal, timeout=20000, seed=0, hints=()):
    """('proved'|'refuted'|'unknown', model or None)"""
    goal = zbool(goal)
    if z3.is_true(goal):
        return 'proved', None
    s = z3.Solver()
    s.set('timeout', timeout)
    if seed:
        s.set('random_seed', seed)
    for a in S.lit_axioms():
        s.add(a)
    for f in pc:
        s.add(f)
    for h in hints:
        s.add(zbool(h))
    s.add(z3.Not(goal))
    if any(has_quantifier(f) for f in s.assertions()):
        if EMATCH_ONLY[0]:
            return by_patterns(s, timeout, seed), None
        # instantiation by patterns alone first: it is quick, and a refutation found so is one
        if not seed and ematch(s.assertions(), min(timeout, 2000)) == z3.unsat:
            return 'proved', None
    divs = div_terms(goal)
    if divs:
        # generalise: quotients become arbitrary reals; only 'proved' counts
        g = z3.SolverFor('QF_UFNRA') if False else z3.Solver()
        g.set('timeout', min(timeout, 3000))
        sub = [(d, z3.FreshReal('q')) for d in divs]
        for a in s.assertions():
            g.add(z3.substitute(a, *sub))
        if g.check() == z3.unsat:
            return 'proved', None
    r = s.check()
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', s.model()
    return 'unknown', None


def div_terms(f):
    """maximal real division terms, outermost first"""
    out, todo, seen = [], [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_DIV):
            out.append(x)
            continue
        todo.extend(x.children())
    return out


class Exec:
    """One verification unit's executor."""

    def __init__(self, modules, contracts, unit='?', opts=None):
        self.modules = modules            # primary module first
        self.contracts = contracts        # list of (regex, handler), first match wins
        self.ccache = {}
        self.unit = unit
        self.solver = Solver()
        self.obls = []
        self.dry = 0
        self.opts = opts or {}
        EMATCH_ONLY[0] = bool(self.opts.get('ematch'))
        self.saturations = 0
        self.candidates = self.opts.get('candidates', [])
        self.functions = set()            # functions executed from IR
        self.contracted = set()           # repo functions used via contract
        self.libused = set()
        self.init = None
        self.steps = 0
        self.maxsteps = self.opts.get('maxsteps', 3000000)
        self.deadline = None
        self.timeout = self.opts.get('timeout', 15000)
        self.bounded = self.opts.get('bounded', 0)
        self.cross = self.opts.get('cross', 0)      # seconds left for cross-checks
        self.loop_info = []
        self.notes = []
        self.regions = {}
        self.gblocks = {}

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind='post', hints=(), detail=''):
        goal = tobool(goal)
        if self.dry:
            if goal is not True and kind in ('safety', 'pre'):
                st.assume(goal)
            return True
        t = time.time()
        o = Oblig()
        o.unit, o.name, o.kind = self.unit, name, kind
        o.detail = detail
        o.fn = st.frames[-1].fn.name if st.frames else ''
        o.abstracted = st.abstracted
        o.model = None
        o.backend = 'z3'
        if goal is True:
            o.status = 'proved'
            o.backend = 'simplifier'
        else:
            r, m = check_valid(st.pc, goal, self.timeout, hints=hints)
            if r == 'unknown':
                r, m = check_valid(st.pc, goal, self.timeout, seed=7, hints=hints)
            if r == 'unknown' and EMATCH_ONLY[0] and not st.abstracted and self.saturations < 4:
                self.saturations += 1
                r, m = saturate(st.pc, goal)
                if r == 'refuted':
                    o.detail += ' (candidate counterexample: all instances of the contracts\' quantified facts hold in it)'
            if r == 'proved' and self.cross > 0:
                r = self.cross_check(st.pc, goal, hints, o)
            o.status = r
            if m is not None:
                o.model = model_str(m)
        o.dt = time.time() - t
        self.obls.append(o)
        if kind in ('safety', 'pre') and goal is not True and (o.status == 'proved' or not TAGGED.match(name)):
            # (a tagged obligation that failed belongs to one property; the others are judged on the paths behind it)
            st.assume(goal)
            if o.status != 'proved' and self.solver.sat(st.pc) == 'unsat':
                raise PathEnd()
        return o.status == 'proved'

    def cross_check(self, pc, goal, hints, o):
        """thorough tier: a discharged obligation is put to cvc5 as well, within a time budget per unit"""
        t = time.time()
        s = z3.Solver()
        s.add(S.lit_axioms())
        s.add(list(pc))
        s.add([zbool(h) for h in hints])
        s.add(z3.Not(zbool(goal)))
        r = cvc5(s.to_smt2(), 4)
        self.cross -= time.time() - t
        if r == 'unsat':
            o.backend = 'z3, confirmed by cvc5'
        elif r == 'sat':
            o.backend = 'z3 and cvc5 disagree'
            return 'unknown'
        elif r == 'unknown':
            o.backend = 'z3 (cvc5: no answer in 4 s)'
        else:
            o.backend = 'z3 (query outside the theories cvc5 shares)'
        return 'proved'

    def feasible(self, st, cond=None):
        c = None
        if cond is not None:
            cond = tobool(cond)
            if cond is True:
                return True
            if cond is False:
                return False
            c = cond
        return self.solver.sat(st.pc, c) != 'unsat'

    def must(self, st, cond):
        """cond provable from the quantifier-free path condition (quick)"""
        cond = tobool(cond)
        if isinstance(cond, bool):
            return cond
        return self.solver.sat(st.pc, z3.Not(cond)) == 'unsat'

    # ------------------------------------------------------------ memory
    def blk(self, st, p, what='access'):
        if isinstance(p, SPtr):
            raise Unsupported('region pointer used as block pointer (%s)' % what)
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.b == 0:
            self.oblige(st, 'no-null-dereference', False, 'safety', detail=what)
            raise PathEnd()
        b = st.mem.get(p.b)
        if b is None:
            raise Unsupported('dangling block')
        if not b.alive:
            self.oblige(st, 'no-use-after-free', False, 'safety', detail='%s of %s' % (what, b.name))
            raise PathEnd()
        if b.name and ('watch' in self.opts):
            self.opts['watch'](self, st, b, p, what)
        return b

    def read(self, st, p, what='read', missing=None):
        """abstract value at pointer (whole library object or scalar)"""
        p = self.norm(p)
        if isinstance(p, SPtr):
            return self.region_load(st, p)
        b = self.blk(st, p, what)
        v = b.cells.get(p.o)
        if v is None and b.lazy is not None:
            v = b.lazy(self, st, b, p.o)
        if v is None:
            if missing is not None:
                return missing
            raise Unsupported('read of uninitialised %s+%d (%s)' % (b.name, p.o, what))
        for s in p.p:
            v = self.project(st, v, s)
        return v

    def project(self, st, v, s):
        if v is UNDEF:
            raise Unsupported('projection of undefined value')
        if s[0] == 'f':
            return P.get(s[1], v, s[2])
        if s[0] == 'i':
            return s[1].at(v, s[2])
        if s[0] == 'k':
            return s[1].get(v, s[2])
        if s[0] == 'ent':
            return s[2]
        if s[0] == 'ch':
            lb = lit_bytes(v)
            if lb is not None and is_c(s[2]) and s[2] <= len(lb):
                x = (lb + b'\0')[s[2]]
                return x - 256 if x > 127 else x
            r = S.byte_at(v, zint(s[2]))
            st.assume(z3.And(r >= -128, r <= 127))
            return r
        if s[0] == 'o':     # Python-level aggregate cell: (('o', None, key))
            return v.v[s[2]]
        raise Unsupported('project %r' % (s,))

    def inject(self, v, s, nv):
        if s[0] == 'f':
            return P.put(s[1], v, s[2], nv)
        if s[0] == 'i':
            return s[1].set(v, s[2], nv)
        if s[0] == 'k':
            return s[1].put(v, s[2], nv, known=True)
        if s[0] == 'o':
            return v.with_(**{s[2]: nv})
        raise Unsupported('inject %r' % (s,))

    def write(self, st, p, nv, what='write'):
        p = self.norm(p)
        if isinstance(p, SPtr):
            return self.region_store(st, p, nv)
        b = self.blk(st, p, what)
        if b.const:
            self.oblige(st, 'no-write-to-constant', False, 'safety', detail=b.name)
            raise PathEnd()
        if p.p:
            vs = [b.cells.get(p.o)]
            if vs[0] is None and b.lazy is not None:
                vs[0] = b.lazy(self, st, b, p.o)
            if vs[0] is None:
                raise Unsupported('lens write into uninitialised %s' % b.name)
            for s in p.p[:-1]:
                vs.append(self.project(st, vs[-1], s))
            for s, v in zip(reversed(p.p), reversed(vs)):
                if s[0] in ('i', 'k') and isinstance(nv, (Ptr, SPtr)):
                    nv = self.norm(nv)
                    nv = zint(nv.t) if isinstance(nv, SPtr) else self.encode_ptr(st, nv)
                if is_c(nv) and s[0] != 'o':
                    nv = zbool(nv) if isinstance(nv, bool) else zint(nv)
                nv = self.inject(v, s, nv)
        b = st.wblk(p.b)
        b.cells[p.o] = nv

    def norm(self, p):
        """objects embedded in a block that belong to a region heap (opts redir: {block: (from, to, region, address)})"""
        rd = self.opts.get('redir')
        if rd and isinstance(p, Ptr) and p.b in rd and not p.p:
            lo, hi, reg, t = rd[p.b]
            if lo <= p.o < hi:
                return SPtr(reg, t, p.o - lo)
        return p

    def region_load(self, st, p):
        f = p.reg.fields.get(p.o)
        if f is None:
            raise Unsupported('region field +%d' % p.o)
        ck = getattr(p.reg, 'check', None)
        if ck:
            ck(self, st, p, 'load')
        v = z3.Select(p.reg.arr(st, p.o), zint(p.t))
        return f[1](self, st, p, v)

    def region_store(self, st, p, nv):
        f = p.reg.fields.get(p.o)
        if f is None:
            raise Unsupported('region field +%d' % p.o)
        ck = getattr(p.reg, 'check', None)
        if ck:
            ck(self, st, p, 'store')
        nv = self.norm(nv)
        if isinstance(nv, SPtr):
            nv = nv.t
        elif isinstance(nv, Ptr) and nv.b == 0:
            nv = 0
        elif isinstance(nv, Ptr):
            nv = p.reg.addr(self, st, nv)
        if is_c(nv):
            nv = zbool(nv) if z3.is_bool(z3.Select(p.reg.arr(st, p.o), 0)) else zint(nv)
        if len(f) > 2 and f[2]:
            return f[2](self, st, p, nv)
        p.reg.setarr(st, p.o, z3.Store(p.reg.arr(st, p.o), zint(p.t), nv))

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name, mod):
        if name in mod.aliases:
            name = mod.aliases[name]
        if name in mod.funcs or name in mod.decls:
            return FnPtr(name, mod)
        key = 'g:' + name if not name.startswith('.') else 'g:%s:%s' % (mod.path, name)
        bid = self.gblocks.get(key)
        if bid is None:
            bid = uid()
            self.gblocks[key] = bid
        if bid not in st.mem:
            b = Blk(bid, key, None, 'global')
            st.mem[bid] = b
            m = re.match(r'.*?\d+_(\w+?)_default_instance_E$', name)
            gi = mod.global_init(name)
            if gi is not None and gi[1] is not None:
                self.init_cells(st, b, 0, gi[0], gi[1], mod)
                b.const = gi[2]
            elif m:
                for full in P.MSGS:
                    if full.split('.')[-1] == m.group(1).replace('_', '.').split('.')[-1] and \
                            P.cxxname(full).split('::')[-1] == m.group(1):
                        b.cells[0] = P.msg(full).default
                b.const = True
            else:
                b.lazy = None
        return Ptr(bid, 0)

    def init_cells(self, st, b, off, t, op, mod):
        if op[0] == 'str':
            b.cells[off] = Obj('bytes', b=op[1])
            return
        if op[0] == 'zero':
            t2 = mod.resolve(t)
            if t2.k == 'struct':
                for i in range(len(t2.a)):
                    o, e = mod.field_off(t2, i)
                    self.init_cells(st, b, off + o, e, op, mod)
                return
            if t2.k == 'array':
                if t2.b.k == 'int' and t2.b.a == 8:
                    b.cells[off] = Obj('bytes', b=b'\0' * t2.a)
                    return
                for i in range(min(t2.a, 64)):
                    self.init_cells(st, b, off + i * mod.sizeof(t2.b), t2.b, op, mod)
                return
            b.cells[off] = 0 if t2.k == 'int' else NULL if t2.k == 'ptr' else dconst(0.0) if t2.k in (
                'double', 'float') else UNDEF
            return
        if op[0] == 'agg':
            t2 = mod.resolve(t)
            for i, (et, eo) in enumerate(op[1]):
                if t2.k == 'struct':
                    o, _ = mod.field_off(t2, i)
                else:
                    o = i * mod.sizeof(t2.b)
                self.init_cells(st, b, off + o, et, eo, mod)
            return
        b.cells[off] = self.opval(st, None, t, op, mod)

    # ------------------------------------------------------------ operands
    def opval(self, st, fr, t, op, mod):
        k = op[0]
        if k == 'r':
            try:
                return fr.regs[op[1]]
            except KeyError:
                raise Unsupported('undefined register %s' % op[1])
        if k == 'i':
            if t.k == 'int' and t.a == 1:
                return bool(op[1])
            if t.k == 'int':
                return wrap_term(op[1], t.a)
            return op[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, op[1], mod)
        if k == 'f':
            return dconst(parse_fp(op[1]))
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = mod.resolve(t)
            if t.k == 'int':
                return False if t.a == 1 else 0
            if t.k == 'ptr':
                return NULL
            if t.k == 'double':
                return dconst(0.0)
            if t.k == 'struct':
                return tuple(self.opval(st, fr, e, op, mod) for e in t.a)
            raise Unsupported('zeroinitializer %r' % t)
        if k == 'gep':
            base = self.opval(st, fr, PTR, op[2][0][1], mod)
            return self.gep(st, base, op[1], [(tt, self.opval(st, fr, tt, oo, mod)) for tt, oo in op[2][1:]], mod)
        if k == 'cast':
            v = self.opval(st, fr, op[2], op[3], mod)
            return self.cast(st, op[1], op[2], v, op[4])
        if k == 'agg':
            return tuple(self.opval(st, fr, tt, oo, mod) for tt, oo in op[1])
        raise Unsupported('operand %r' % (op,))

    def gep(self, st, base, t, idx, mod):
        off = 0
        cur = t
        first = True
        for it, iv in idx:
            iv = toint(iv)
            if first:
                n = mod.sizeof(cur)
                if is_c(iv):
                    off += iv * n
                else:
                    return self.gep_elem(st, base, cur, iv, mod)
                first = False
                continue
            r = mod.resolve(cur)
            if r.k == 'struct':
                o, cur = mod.field_off(r, iv)
                off += o
            elif r.k == 'array':
                if not is_c(iv):
                    raise Unsupported('symbolic array index')
                off += iv * mod.sizeof(r.b)
                cur = r.b
            else:
                raise Unsupported('gep into %r' % r)
        return self.ptr_add(st, base, off)

    def gep_elem(self, st, base, t, iv, mod):
        if isinstance(base, Ptr) and base.p and base.p[-1][0] == 'i':
            s = base.p[-1]
            return Ptr(base.b, base.o, base.p[:-1] + (('i', s[1], add(s[2], iv)),))
        raise Unsupported('gep with symbolic index on %r' % (base,))

    def ptr_add(self, st, base, off):
        if isinstance(base, Ptr):
            if base.b == 0:
                return base if off == 0 else Ptr(0, base.o + off)
            if not base.p:
                return Ptr(base.b, base.o + off, ())
            if off == 0:
                return base
            s = base.p[-1]
            if s[0] == 'ent':
                # pair<const Key, V>: second starts after the key
                return Ptr(base.b, base.o, base.p[:-1] + (('k', s[1], s[2]),))
            if s[0] == 'i' and len(s) > 3:   # element of known byte size
                if off % s[3] == 0:
                    return Ptr(base.b, base.o, base.p[:-1] + (('i', s[1], add(s[2], off // s[3]), s[3]),))
            raise Unsupported('pointer arithmetic into %r' % (base,))
        if isinstance(base, SPtr):
            return SPtr(base.reg, base.t, base.o + off)
        if isinstance(base, Obj) and off == 0:
            return base
        raise Unsupported('gep on %r' % (base,))

    # ------------------------------------------------------------ casts & arithmetic
    def wrap(self, st, v, n, nsw=False, what='overflow'):
        v = toint(v)
        if isinstance(v, int):
            if not in_range(v, n) and nsw and self.opts.get('ub', True):
                self.oblige(st, 'no-signed-overflow', False, 'safety', detail=what)
                raise PathEnd()
            return wrap_term(v, n)
        r = in_range(v, n)
        if nsw and self.opts.get('ub', False):
            self.oblige(st, 'no-signed-overflow', r, 'safety', detail=what)
            return v
        if self.must(st, r):
            return v
        return wrap_term(v, n)

    def cast(self, st, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return v
        if op == 'zext':
            if t.a == 1:
                return tobool(v) if not is_c(v) else (1 if v else 0)
            v = v if z3.is_expr(v) and z3.is_bool(v) else unsigned(v, t.a)
            if z3.is_expr(v) and not z3.is_bool(v):
                if self.must(st, toint(v) >= 0) and False:
                    pass
            return v
        if op == 'sext':
            if t.a == 1:
                return Ite(v, -1, 0)
            return v
        if op == 'trunc':
            if t2.a == 1:
                if z3.is_expr(v) and z3.is_bool(v):
                    return v
                if is_c(v):
                    return bool(int(v) & 1)
                return (toint(v) % 2) != 0
            if z3.is_expr(v) and z3.is_bool(v):
                return v
            return self.wrap(st, v, t2.a)
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.b == 0:
                return v.o
            if isinstance(v, FnPtr):
                return v
            return Obj('addr', p=v)
        if op == 'inttoptr':
            if isinstance(v, Obj) and v.kind == 'addr':
                return v.p
            if isinstance(v, FnPtr):
                return v
            if is_c(v):
                return NULL if v == 0 else Ptr(0, v)
            raise Unsupported('inttoptr')
        if op in ('fptosi', 'fptoui'):
            return self.fptoint(st, v, t2.a)
        if op == 'sitofp':
            return i2d(v)
        if op == 'uitofp':
            return i2d(unsigned(v, t.a))
        if op in ('fpext', 'fptrunc'):
            return v
        raise Unsupported('cast %s' % op)

    def fptoint(self, st, v, n):
        lo, hi = -(1 << (n - 1)), (1 << (n - 1))
        r = d_r(v)
        tr = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
        ok = And(d_isfin(v), tr >= lo, tr < hi)
        self.oblige(st, 'float-to-int-in-range', ok, 'safety', detail='value does not fit i%d' % n)
        return z3.simplify(tr) if z3.is_rational_value(r) else tr

    def binop(self, st, op, fl, t, a, b):
        if isinstance(a, FnPtr) and op == 'and' and b == 1:
            return 0            # functions are at least 2-aligned (Itanium member pointers rely on it)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if t.k in ('double', 'float'):
            f = {'fadd': d_add, 'fsub': d_sub, 'fmul': d_mul, 'fdiv': d_div}.get(op)
            if f is None:
                raise Unsupported(op)
            return f(a, b)
        if t.k != 'int':
            raise Unsupported('binop on %r' % t)
        n = t.a
        if isinstance(a, (Obj, Ptr, FnPtr)) or isinstance(b, (Obj, Ptr, FnPtr)):
            return self.ptr_arith(st, op, a, b, n)
        if n == 1:
            a, b = tobool(a), tobool(b)
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op == 'xor':
                if isinstance(a, bool):
                    a, b = b, a
                if isinstance(b, bool):
                    return Not(a) if b else a
                return z3.Xor(a, b)
        nsw = 'nsw' in fl
        if op in ('add', 'sub', 'mul'):
            a, b = toint(a), toint(b)
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            return self.wrap(st, r, n, nsw, '%s i%d' % (op, n))
        if op in ('sdiv', 'srem'):
            a, b = toint(a), toint(b)
            self.oblige(st, 'no-division-by-zero', Not(Eq(b, 0)), 'safety')
            if is_c(a) and is_c(b):
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return q if op == 'sdiv' else a - q * b
            za, zb = zint(a), zint(b)
            q = z3.If(za >= 0, z3.If(zb > 0, za / zb, -(za / -zb)), z3.If(zb > 0, -(-za / zb), (-za) / (-zb)))
            return q if op == 'sdiv' else za - q * zb
        if op in ('udiv', 'urem'):
            a, b = unsigned(a, n), unsigned(b, n)
            self.oblige(st, 'no-division-by-zero', Not(Eq(b, 0)), 'safety')
            if is_c(a) and is_c(b):
                return wrap_term(a // b if op == 'udiv' else a % b, n)
            return self.wrap(st, zint(a) / zint(b) if op == 'udiv' else zint(a) % zint(b), n)
        if is_c(a) and is_c(b):
            a, b = int(a), int(b)
            ua, ub = a % (1 << n), b % (1 << n)
            r = {'and': lambda: ua & ub, 'or': lambda: ua | ub, 'xor': lambda: ua ^ ub, 'shl': lambda: ua << ub,
                 'lshr': lambda: ua >> ub, 'ashr': lambda: a >> ub}[op]()
            return wrap_term(r, n)
        ba = z3.is_expr(a) and z3.is_bool(a) or (is_c(a) and int(a) in (0, 1))
        bb = z3.is_expr(b) and z3.is_bool(b) or (is_c(b) and int(b) in (0, 1))
        if ba and bb and op in ('and', 'or', 'xor'):
            a, b = tobool(a), tobool(b)
            return And(a, b) if op == 'and' else Or(a, b) if op == 'or' else z3.Xor(zbool(a), zbool(b))
        if op == 'and' and (is_c(b) or is_c(a)):
            if is_c(a):
                a, b = b, a
            b = int(b) % (1 << n)
            if b & (b + 1) == 0:      # mask 2^k-1
                return toint(a) % (b + 1)
            if b == 0:
                return 0
        if op == 'xor' and is_c(b) and int(b) == -1:
            return -toint(a) - 1
        if op == 'shl' and is_c(b):
            return self.wrap(st, toint(a) * (1 << int(b)), n)
        if op == 'ashr' and is_c(b):
            return toint(a) / (1 << int(b))
        if op == 'lshr' and is_c(b):
            return zint(unsigned(a, n)) / (1 << int(b))
        bv = z3.BV2Int(getattr(self, '_bvop')(op, z3.Int2BV(zint(a), n), z3.Int2BV(zint(b), n)), True)
        return bv

    @staticmethod
    def _bvop(op, a, b):
        return {'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b,
                'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]()

    def ptr_arith(self, st, op, a, b, n):
        if op == 'sub' and isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == 'addr':
            p, q = a.p, b.p
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.b == q.b:
                if not p.p and not q.p:
                    return p.o - q.o
                if p.p and q.p and p.p[-1][0] == 'i' and q.p[-1][0] == 'i' and len(p.p) == len(q.p):
                    sz = p.p[-1][3] if len(p.p[-1]) > 3 else None
                    if sz:
                        return mul(sub(p.p[-1][2], q.p[-1][2]), sz)
        if isinstance(a, FnPtr) and is_c(b):
            # Itanium member pointers: low bit tests virtual
            if op == 'and' and b == 1:
                return 0
            if op == 'sub':
                return a
        raise Unsupported('pointer arithmetic %s' % op)

    def icmp(self, st, p, t, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undefined value')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return e if p == 'eq' else not e
        if t.k == 'ptr' or isinstance(a, (Ptr, SPtr, Obj)) or isinstance(b, (Ptr, SPtr, Obj)):
            if isinstance(a, Obj) and a.kind == 'addr':
                a = a.p
            if isinstance(b, Obj) and b.kind == 'addr':
                b = b.p
            if is_c(a):
                a = NULL if a == 0 else Ptr(0, a)
            if is_c(b):
                b = NULL if b == 0 else Ptr(0, b)
            e = self.ptr_eq(st, a, b, p)
            if p == 'eq':
                return e
            if p == 'ne':
                return Not(e)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and not a.p and not b.p:
                d = a.o - b.o
                return {'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[p]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and a.p and b.p and \
                    a.p[-1][0] == 'i' and b.p[-1][0] == 'i':
                x, y = toint(a.p[-1][2]), toint(b.p[-1][2])
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p]
            raise Unsupported('pointer order comparison')
        if t.k == 'int' and t.a == 1 and p in ('eq', 'ne'):
            e = Eq(tobool(a), tobool(b)) if is_c(a) or is_c(b) else (zbool(a) == zbool(b))
            return e if p == 'eq' else Not(e)
        if p == 'eq':
            return Eq(a, b)
        if p == 'ne':
            return Not(Eq(a, b))
        if p[0] == 'u':
            a, b = unsigned(a, t.a), unsigned(b, t.a)
        else:
            a, b = toint(a), toint(b)
        q = p[1:]
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[q]()

    def ptr_eq(self, st, a, b, p=''):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, SPtr) or isinstance(b, SPtr):
            if isinstance(b, SPtr) and not isinstance(a, SPtr):
                a, b = b, a
            if isinstance(b, Ptr) and b.b == 0:
                return Eq(a.t, 0)
            if isinstance(b, SPtr):
                if a.reg is b.reg and a.o == b.o:
                    return Eq(a.t, b.t)
                return False
            return Eq(a.t, a.reg.addr(self, st, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.same(b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            h = self.opts.get('objeq')
            from . import lib
            return lib.obj_eq(self, st, a, b)
        if isinstance(a, Obj) and isinstance(b, Ptr) and b.b == 0:
            return False
        if isinstance(b, Obj) and isinstance(a, Ptr) and a.b == 0:
            return False
        raise Unsupported('compare %r %r' % (a, b))

    def fcmp(self, p, a, b):
        nan = Or(d_isnan(a), d_isnan(b))
        if p in ('oeq', 'ueq', 'one', 'une'):
            e = d_eq(a, b)
            if p == 'oeq':
                return e
            if p == 'une':
                return Not(e)
            if p == 'one':
                return And(Not(nan), Not(e))
            return Or(nan, e)
        if p == 'ord':
            return Not(nan)
        if p == 'uno':
            return nan
        q = p[1:]
        r = {'lt': lambda: d_lt(a, b), 'le': lambda: d_le(a, b), 'gt': lambda: d_lt(b, a), 'ge': lambda: d_le(b, a)}[q]()
        return r if p[0] == 'o' else Or(nan, r)

    # ------------------------------------------------------------ calls
    def find_contract(self, mod, name):
        key = (mod.path, name)
        if key in self.ccache:
            return self.ccache[key]
        d = mod.dem.get(name)
        if d is None:
            d = canon(name)
        if len(d) > 1 and d[0] == '"':
            d = d[1:]
        h = None
        for rx, fn in self.contracts:
            if rx.match(d):
                h = fn
                break
        self.ccache[key] = (d, h)
        return d, h

    def find_body(self, mod, name):
        if name in mod.aliases:
            name = mod.aliases[name]
        f = mod.funcs.get(name)
        if f:
            return f
        for m in self.modules:
            n = m.aliases.get(name, name)
            if n in m.funcs:
                return m.funcs[n]
        return None

    def call(self, st, fr, ins):
        mod = fr.fn.module
        callee, args, _ = ins.x
        if callee[0] == 'g':
            name, cmod = callee[1], mod
        else:
            v = self.opval(st, fr, PTR, callee, mod)
            if isinstance(v, FnPtr):
                name, cmod = v.name, v.mod
            elif isinstance(v, Ptr) and v.b == 0:
                self.oblige(st, 'no-null-call', False, 'safety')
                raise PathEnd()
            else:
                raise Unsupported('indirect call through %r' % (v,))
        vals = []
        for t, o, at in args:
            v = self.opval(st, fr, t, o, mod)
            if 'byval' in at:
                sz = mod.sizeof(at['byval'])
                nb = st.new_block('byval', sz, 'stack')
                self.memcpy(st, Ptr(nb.id), v, sz)
                v = Ptr(nb.id)
            vals.append(v)
        ci = CallInfo()
        ci.name, ci.mod, ci.args, ci.ty, ci.dst, ci.ins = name, cmod, vals, ins.ty, ins.dst, ins
        ci.argt = [t for t, _, _ in args]
        ci.attrs = [at for _, _, at in args]
        ci.fr = fr
        return self.invoke(st, fr, ci)

    def invoke(self, st, fr, ci):
        d, h = self.find_contract(ci.mod, ci.name)
        ci.dem = d
        if h is not None:
            r = h(self, st, ci)
            if r is not NotImplemented:         # NotImplemented: contract does not apply here, use the body
                (self.contracted if d.startswith('scc::') else self.libused).add(d)
                return ('val', r)
        f = self.find_body(ci.mod, ci.name)
        if f is None:
            raise Unsupported('no contract and no body for %s' % d)
        if len(st.frames) > 60:
            if not self.dry:
                o = Oblig()
                o.unit, o.name, o.kind, o.status, o.model, o.dt, o.abstracted, o.fn, o.detail, o.backend = \
                    self.unit, 'bounded-recursion', 'safety', 'refuted', None, 0, False, d, 'recursion deeper than 60 frames', 'executor'
                raise Unsupported('recursion too deep in %s' % d)
            raise Unsupported('recursion too deep in %s' % d)
        nf = Frame(f)
        for (nm, t, at), v in zip(f.params, ci.args):
            nf.regs[nm] = v
        nf.ret = ci.dst
        if d.startswith('scc::') or 'scc::' in d.split('(')[0]:
            self.functions.add(d)
        return ('frame', nf)

    def memcpy(self, st, d, s, n):
        if not is_c(n):
            raise Unsupported('symbolic memcpy size')
        if n == 0:
            return
        if isinstance(d, Ptr) and (d.p or (isinstance(s, Ptr) and s.p)) :
            self.write(st, d, self.read(st, s))
            return
        sb = self.blk(st, s, 'memcpy source')
        items = [(o - s.o, v) for o, v in sb.cells.items() if s.o <= o < s.o + n]
        db = self.blk(st, d, 'memcpy destination')
        db = st.wblk(d.b)
        for o in [o for o in db.cells if d.o <= o < d.o + n]:
            del db.cells[o]
        for o, v in items:
            db.cells[d.o + o] = v

    # ------------------------------------------------------------ stepping
    def explore(self, states, stop=None):
        """run all states to an end.  Returns list of (kind, st, value);
        kind in ret / back / exit"""
        out = []
        work = list(states)
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('unit time limit')
            try:
                r = self.run(st, stop, work)
            except PathEnd:
                continue
            if r is not None:
                out.append(r)
            if len(work) > 4000:
                raise Unsupported('too many paths')
        return out

    def do_jump(self, st, stop, work):
        """process st.jump; returns an end record, None to continue, or 'forked'"""
        fr = st.frames[-1]
        src, dst = st.jump
        fn = fr.fn
        if stop is not None and fr.uid == stop.frame:
            if stop.join is not None:
                if dst == stop.join:
                    self.phis(st, fr, src, dst)
                    fr.label, fr.idx = dst, len([i for i in fn.block(dst) if i.op == 'phi'])
                    st.jump = None
                    return ('join', st, None)
                stop = None
        if stop is not None and fr.uid == stop.frame:
            if dst == stop.header:
                # phi values at the header are not supported at cut points except through memory
                st.jump = None
                self.phis(st, fr, src, dst)
                return ('back', st, None)
            if dst not in stop.body:
                return ('exit', st, None)
        loops = fn.loops()
        if dst in loops and src not in loops[dst]:
            # entering a loop from outside
            ends = self.do_loop(st, fr, dst, loops[dst], src)
            for k, s, v in ends:
                work.append(s)
            return 'forked'
        if dst in loops and src in loops[dst]:
            n = fr.unroll.get(dst)
            if n is not None:
                n += 1
                fr.unroll[dst] = n
                if n > self.opts.get('unroll_cap', 40):
                    raise Unsupported('unroll cap in %s' % fn.name)
                if self.bounded and n > self.bounded:
                    self.truncated = True
                    raise PathEnd()
        self.phis(st, fr, src, dst)
        fr.label, fr.idx = dst, len([i for i in fn.block(dst) if i.op == 'phi'])
        st.jump = None
        return None

    # ------------------------------------------------------------ joining paths at postdominators
    def join_region(self, st, fr, stop):
        if not self.opts.get('merge'):
            return None
        reg = fr.fn.region(fr.label)
        if reg is None:
            return None
        j, blocks = reg
        if stop is not None and fr.uid == stop.frame and stop.join == j:
            return None
        if stop is not None and stop.join is None and fr.uid == stop.frame and (j == stop.header or j not in stop.body or not blocks <= stop.body):
            return None
        return reg

    def run_region(self, st, fr, reg, alts):
        j, blocks = reg
        n0 = len(st.pc)
        base = st.copy()
        starts = []
        for c, l in alts:
            s = st.copy()
            s.branch(c)
            s.jump = (fr.label, l)
            starts.append(s)
        js = Stop()
        js.frame, js.header, js.body, js.join = fr.uid, None, blocks, j
        ends = [s for _, s, _ in self.explore(starts, js)]
        out = []
        for s in ends:
            for i, m in enumerate(out):
                r = self.merge_states(base, n0, m, s)
                if r is not None:
                    out[i] = r
                    break
            else:
                out.append(s)
        return out

    def merge_states(self, base, n0, a, b):
        """one state covering both (same program point), or None when their memories cannot be expressed as one"""
        if len(a.frames) != len(b.frames) or len(a.loops) != len(b.loops):
            return None
        ca = [a.pc[i] for i in sorted(a.br) if i >= n0]
        cb = [b.pc[i] for i in sorted(b.br) if i >= n0]
        # common prefix of branch conditions need not be distinguished
        k = 0
        while k < len(ca) and k < len(cb) and ca[k].eq(cb[k]):
            k += 1
        A, B = zbool(And(*ca[k:])), zbool(And(*cb[k:]))
        com = ca[:k]
        c = B       # value of b when B holds, of a otherwise
        live = set(base.mem)
        news = {}
        for bid in set(a.mem) | set(b.mem):
            x, y = a.mem.get(bid), b.mem.get(bid)
            if x is y:
                continue
            if x is None or y is None:
                if bid in base.mem:
                    return None
                z = x or y
                if z.alive or z.kind != 'stack':
                    news[bid] = z          # allocated on one side only
                continue
            if x.alive != y.alive or x.lazy is not y.lazy:
                return None
            if not x.alive:
                continue
            cells = {}
            for off in set(x.cells) | set(y.cells):
                if off in x.cells and off in y.cells:
                    v = self.merge_val(c, y.cells[off], x.cells[off])
                    if v is None:
                        return None
                    cells[off] = v[0]
                elif x.kind != 'stack' or x.lazy is not None:
                    return None
            if cells != x.cells:
                z = x.copy()
                z.cells = cells
                news[bid] = z
        ghost = {}
        for g in set(a.ghost) | set(b.ghost):
            if g not in a.ghost or g not in b.ghost:
                return None
            v = self.merge_val(c, b.ghost[g], a.ghost[g])
            if v is None:
                return None
            ghost[g] = v[0]
        r = a.copy()
        fa, fb = a.frames[-1], b.frames[-1]
        base_regs = base.frames[-1].regs
        regs = {}
        for n in set(fa.regs) & set(fb.regs):
            v = self.merge_val(c, fb.regs[n], fa.regs[n])
            if v is not None:
                regs[n] = v[0]
            elif n in base_regs or self.is_phi(fa, n):
                return None
        r.frames[-1].regs = regs
        for u, v in b.frames[-1].unroll.items():
            r.frames[-1].unroll[u] = max(v, r.frames[-1].unroll.get(u, 0))
        for bid, z in news.items():
            r.mem[bid] = z
        r.owned = set()
        r.ghost = ghost
        r.abstracted = a.abstracted or b.abstracted
        r.bounded = a.bounded or b.bounded
        r.trace = base.trace
        pc, br = list(base.pc[:n0]), {i for i in base.br if i < n0}
        have = set()
        for s, cond, cs in ((a, A, ca), (b, B, cb)):
            for i in range(n0, len(s.pc)):
                f = s.pc[i]
                if i in s.br or f.get_id() in have:
                    continue
                other = b.pc if s is a else a.pc
                if any(f.eq(g) for g in other[n0:]):
                    have.add(f.get_id())
                    pc.append(f)
                else:
                    pc.append(z3.Implies(zbool(And(*cs)), f))
        for f in com:
            br.add(len(pc))
            pc.append(f)
        d = z3.simplify(z3.Or(A, B))
        if not z3.is_true(d):
            br.add(len(pc))
            pc.append(d)
        r.pc, r.br = pc, br
        return r

    def is_phi(self, fr, n):
        return any(i.op == 'phi' and i.dst == n for i in fr.fn.block(fr.label))

    def merge_val(self, c, x, y):
        """(value,) equal to x under c and to y otherwise, or None"""
        if values_equal(x, y):
            return (x,)
        if x is UNDEF or y is UNDEF:
            return None
        bx, by = isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)), isinstance(y, bool) or (z3.is_expr(y) and z3.is_bool(y))
        if bx or by:
            if (bx or (is_c(x) and x in (0, 1))) and (by or (is_c(y) and y in (0, 1))):
                x, y = tobool(x), tobool(y)
                if isinstance(x, bool) and isinstance(y, bool):
                    return (x,) if x == y else (c if x else Not(c),)
                if isinstance(x, bool):
                    return (z3.simplify(z3.Or(c, y)) if x else z3.simplify(z3.And(z3.Not(c), y)),)
                if isinstance(y, bool):
                    return (z3.simplify(z3.Or(z3.Not(c), x)) if y else z3.simplify(z3.And(c, x)),)
                return (z3.If(c, x, y),)
            return None
        if is_c(x) and is_c(y):
            return (z3.If(c, z3.IntVal(x), z3.IntVal(y)),)
        if is_c(x) and z3.is_expr(y) and z3.is_int(y):
            return (z3.If(c, z3.IntVal(x), y),)
        if is_c(y) and z3.is_expr(x) and z3.is_int(x):
            return (z3.If(c, x, z3.IntVal(y)),)
        if z3.is_expr(x) and z3.is_expr(y) and x.sort().eq(y.sort()):
            return (merge_term(c, x, y),)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            vs = [self.merge_val(c, p, q) for p, q in zip(x, y)]
            return None if any(v is None for v in vs) else (tuple(v[0] for v in vs),)
        return None

    def phis(self, st, fr, src, dst):
        vals = {}
        for ins in fr.fn.block(dst):
            if ins.op != 'phi':
                break
            for lab, o in ins.x:
                if lab == src:
                    vals[ins.dst] = self.opval(st, fr, ins.ty, o, fr.fn.module)
                    break
            else:
                raise Unsupported('phi without edge')
        fr.regs.update(vals)

    def run(self, st, stop, work):
        while True:
            if st.jump is not None:
                r = self.do_jump(st, stop, work)
                if r == 'forked':
                    return None
                if r is not None:
                    return r
            fr = st.frames[-1]
            blk = fr.fn.block(fr.label)
            mod = fr.fn.module
            while True:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Unsupported('step limit')
                ins = blk[fr.idx]
                fr.idx += 1
                op = ins.op
                if op == 'load':
                    v = self.do_load(st, self.opval(st, fr, PTR, ins.x[1], mod), ins.ty, mod)
                    if ins.ty.k == 'ptr' and z3.is_expr(v) and z3.is_int(v) and 'ptr_region' in self.opts:
                        v = SPtr(self.opts['ptr_region'], v)
                    if z3.is_expr(v) and v.sort().name() == 'PtrEnc':
                        # a pointer kept in a container: one of the pointers stored there
                        alts = [(c, p) for c, p in self.decode_ptr(st, v) if self.feasible(st, c)]
                        if not alts:
                            return None
                        for c, p in alts[1:]:
                            s2 = st.copy()
                            s2.branch(c)
                            s2.frames[-1].regs[ins.dst] = p
                            work.append(s2)
                        st.branch(alts[0][0])
                        v = alts[0][1]
                    fr.regs[ins.dst] = v
                elif op == 'store':
                    (vo, (pt, po)) = ins.x
                    self.do_store(st, self.opval(st, fr, PTR, po, mod), self.opval(st, fr, ins.ty, vo, mod), ins.ty, mod)
                elif op == 'call':
                    try:
                        k, v = self.call(st, fr, ins)
                    except Fork as f:
                        alts = [(c, a) for c, a in f.alts if tobool(c) is not False]
                        alive = []
                        for c, a in alts:
                            if len(alts) == 1 or self.feasible(st, c):
                                alive.append((c, a))
                        if not alive:
                            return None
                        sts = [st] + [st.copy() for _ in alive[1:]]
                        nxt = None
                        for (c, a), s in zip(alive, sts):
                            s.branch(c)
                            try:
                                v = a(s) if callable(a) else a
                            except PathEnd:
                                continue
                            f2 = s.frames[-1]
                            if isinstance(v, PushFrame):
                                s.frames.append(v.frame)
                            elif ins.dst is not None:
                                f2.regs[ins.dst] = v
                            if s is not st:
                                work.append(s)
                            else:
                                nxt = s
                        if nxt is None:
                            return None
                        if st.frames[-1] is not fr:
                            break
                        continue
                    if k == 'frame':
                        st.frames.append(v)
                        break
                    if isinstance(v, PushFrame):
                        st.frames.append(v.frame)
                        break
                    if ins.dst is not None:
                        fr.regs[ins.dst] = v
                elif op == 'br':
                    st.jump = (fr.label, ins.x)
                    break
                elif op == 'condbr':
                    c, a, b = ins.x
                    cv = tobool(self.opval(st, fr, ins.ty, c, mod)) if True else None
                    if isinstance(cv, bool):
                        st.jump = (fr.label, a if cv else b)
                        break
                    fa = self.feasible(st, cv)
                    fb = self.feasible(st, z3.Not(cv)) if fa else True
                    if fa and fb:
                        reg = self.join_region(st, fr, stop)
                        if reg is not None:
                            for s in self.run_region(st, fr, reg, [(cv, a), (z3.Not(cv), b)]):
                                work.append(s)
                            return None
                        s2 = st.copy()
                        s2.branch(z3.Not(cv))
                        s2.jump = (fr.label, b)
                        s2.trace = s2.trace + ((fr.fn.name, fr.label, b),)
                        work.append(s2)
                        st.trace = st.trace + ((fr.fn.name, fr.label, a),)
                        st.branch(cv)
                        st.jump = (fr.label, a)
                    elif fa:
                        st.branch(cv)
                        st.jump = (fr.label, a)
                    else:
                        st.branch(z3.Not(cv))
                        st.jump = (fr.label, b)
                    break
                elif op == 'gep':
                    base = self.opval(st, fr, PTR, ins.x[0][1], mod)
                    fr.regs[ins.dst] = self.gep(st, base, ins.ty, [(t, self.opval(st, fr, t, o, mod)) for t, o in
                                                                   ins.x[1:]], mod)
                elif op == 'alloca':
                    b = st.new_block(fr.fn.name[-30:] + '.' + ins.dst, mod.sizeof(ins.ty), 'stack')
                    fr.allocas.append(b.id)
                    fr.regs[ins.dst] = Ptr(b.id)
                elif op == 'ret':
                    v = None if ins.x is None else self.opval(st, fr, ins.ty, ins.x, mod)
                    st.frames.pop()
                    for a in fr.allocas:
                        st.wblk(a).alive = False
                    if fr.onret is not None:
                        v = fr.onret(self, st, v)
                        if isinstance(v, PushFrame):
                            v.frame.ret = v.frame.ret or fr.ret
                            st.frames.append(v.frame)
                            break
                    if not st.frames:
                        return ('ret', st, v)
                    if fr.ret is not None:
                        st.frames[-1].regs[fr.ret] = v
                    break
                elif op == 'icmp':
                    p, a, b = ins.x
                    fr.regs[ins.dst] = self.icmp(st, p, ins.ty, self.opval(st, fr, ins.ty, a, mod),
                                                 self.opval(st, fr, ins.ty, b, mod))
                elif op == 'fcmp':
                    p, a, b = ins.x
                    fr.regs[ins.dst] = self.fcmp(p, self.opval(st, fr, ins.ty, a, mod),
                                                 self.opval(st, fr, ins.ty, b, mod))
                elif op == 'bin':
                    o, fl, a, b = ins.x
                    fr.regs[ins.dst] = self.binop(st, o, fl, ins.ty, self.opval(st, fr, ins.ty, a, mod),
                                                  self.opval(st, fr, ins.ty, b, mod))
                elif op == 'cast':
                    o, t, v = ins.x
                    fr.regs[ins.dst] = self.cast(st, o, t, self.opval(st, fr, t, v, mod), ins.ty)
                elif op == 'select':
                    c, a, b = ins.x
                    cv = tobool(self.opval(st, fr, ins.ty, c, mod))
                    a, b = self.opval(st, fr, ins.ty, a, mod), self.opval(st, fr, ins.ty, b, mod)
                    if isinstance(cv, bool):
                        fr.regs[ins.dst] = a if cv else b
                    elif z3.is_expr(a) or is_c(a):
                        fr.regs[ins.dst] = Ite(cv, a, b)
                    else:
                        s2 = st.copy()
                        s2.branch(z3.Not(cv))
                        s2.frames[-1].regs[ins.dst] = b
                        if self.feasible(s2):
                            work.append(s2)
                        st.branch(cv)
                        fr.regs[ins.dst] = a
                        if not self.feasible(st):
                            return None
                elif op == 'switch':
                    o, d, cases = ins.x
                    v = self.opval(st, fr, ins.ty, o, mod)
                    alts = []
                    neg = []
                    for cval, lab in cases:
                        e = Eq(v, wrap_term(cval, ins.ty.a))
                        alts.append((e, lab))
                        neg.append(Not(e))
                    alts.append((And(*neg), d))
                    live = [(c, l) for c, l in alts if tobool(c) is not False and self.feasible(st, c)]
                    if not live:
                        return None
                    if len(live) > 1:
                        reg = self.join_region(st, fr, stop)
                        if reg is not None:
                            for s in self.run_region(st, fr, reg, live):
                                work.append(s)
                            return None
                    for c, l in live[1:]:
                        s2 = st.copy()
                        s2.branch(c)
                        s2.jump = (fr.label, l)
                        work.append(s2)
                    st.branch(live[0][0])
                    st.jump = (fr.label, live[0][1])
                    break
                elif op == 'extractvalue':
                    o, idx = ins.x
                    v = self.opval(st, fr, ins.ty, o, mod)
                    for i in idx:
                        v = v[i]
                    fr.regs[ins.dst] = v
                elif op == 'insertvalue':
                    o, val, idx = ins.x
                    v = self.opval(st, fr, ins.ty, o, mod)
                    t = mod.resolve(ins.ty)
                    if v is UNDEF:
                        v = (UNDEF,) * (len(t.a) if t.k == 'struct' else t.a)
                    if len(idx) != 1:
                        raise Unsupported('insertvalue depth')
                    v = list(v)
                    et = t.a[idx[0]] if t.k == 'struct' else t.b
                    v[idx[0]] = self.opval(st, fr, et, val, mod)
                    fr.regs[ins.dst] = tuple(v)
                elif op == 'fneg':
                    fr.regs[ins.dst] = d_neg(self.opval(st, fr, ins.ty, ins.x, mod))
                elif op == 'freeze':
                    fr.regs[ins.dst] = self.opval(st, fr, ins.ty, ins.x, mod)
                elif op == 'atomicrmw':
                    o, p, vo = ins.x
                    pv = self.opval(st, fr, PTR, p[1], mod)
                    old = self.do_load(st, pv, ins.ty, mod)
                    val = self.opval(st, fr, ins.ty, vo, mod)
                    if o == 'add':
                        nv = self.wrap(st, add(old, val), ins.ty.a)
                    elif o == 'sub':
                        nv = self.wrap(st, sub(old, val), ins.ty.a)
                    elif o == 'xchg':
                        nv = val
                    else:
                        raise Unsupported('atomicrmw ' + o)
                    self.in_rmw = True
                    try:
                        self.do_store(st, pv, nv, ins.ty, mod)
                    finally:
                        self.in_rmw = False
                    fr.regs[ins.dst] = old
                elif op == 'fence':
                    pass
                elif op == 'unreachable':
                    self.oblige(st, 'unreachable-not-reached', False, 'safety', detail=fr.fn.name)
                    return None
                elif op == 'phi':
                    raise Unsupported('phi outside jump')
                else:
                    raise Unsupported('instruction %s' % ins.text.strip()[:100])

    def do_load(self, st, p, t, mod):
        t = mod.resolve(t)
        if t.k == 'struct':
            return tuple(self.do_load(st, self.ptr_add(st, p, mod.field_off(t, i)[0]), e, mod) for i, e in
                         enumerate(t.a))
        v = self.read(st, p, 'load')
        if v is UNDEF:
            return v
        if t.k == 'int' and isinstance(v, Obj) and v.kind == 'bytes':
            return v.b[0] if v.b else 0
        if t.k == 'int' and z3.is_expr(v) and v.sort() == Dbl:
            raise Unsupported('type pun')
        return v

    def do_store(self, st, p, v, t, mod):
        t = mod.resolve(t)
        if t.k == 'struct':
            for i, e in enumerate(t.a):
                self.do_store(st, self.ptr_add(st, p, mod.field_off(t, i)[0]), v[i] if v is not UNDEF else UNDEF, e, mod)
            return
        self.write(st, p, v, 'store')

    # ------------------------------------------------------------ loops
    def do_loop(self, st, fr, header, body, src):
        mode = self.opts.get('loops', 'inv')
        fid = fr.fn.name
        dem = fr.fn.module.dem.get(fid, fid)
        um = self.opts.get('unroll')
        if self.bounded or (um and any(re.search(x, dem) for x in um)):
            # unroll concretely: just enter
            self.phis(st, fr, src, header)
            fr.label, fr.idx = header, len([i for i in fr.fn.block(header) if i.op == 'phi'])
            fr.unroll[header] = 0
            st.jump = None
            st.bounded = st.bounded or bool(self.bounded)
            return [('cont', st, None)]
        if fr.fn.block(header)[0].op == 'phi':
            raise Unsupported('loop header with phi in %s' % dem)
        s0 = st.copy()
        s0.jump = None
        f0 = s0.frames[-1]
        f0.label, f0.idx = header, 0
        dead = set()
        mods = {}       # (bid, off) -> None
        gmods = {}
        auto = []       # list of induction facts: ((bid,off), kind, coef)
        cands = None
        ck = fresh(z3.IntSort(), 'k')
        stop = Stop()
        stop.frame, stop.header, stop.body = fr.uid, header, body
        templates = None
        rounds = 0
        autoseen = False
        dropped = []

        def mkstate():
            s = s0.copy()
            s.abstracted = True
            s.assume(ck >= 0)
            hv = {}
            for (bid, off) in mods:
                b = s.wblk(bid)
                old = b.cells.get(off)
                nv = self.havoc_spec(s, old, mods[(bid, off)])
                if nv is None:
                    b.cells.pop(off, None)
                else:
                    b.cells[off] = nv
                    hv[(bid, off)] = nv
            for g in gmods:
                nv = self.havoc_spec(s, s.ghost.get(g), gmods[g])
                if nv is None or nv is UNDEF:
                    raise Unsupported('loop modifies ghost %s' % g)
                s.ghost[g] = nv
                hv[('ghost', g)] = nv
            lc = LoopCtx(header, dem, ck, s0)
            s.loops = s.loops + [lc]
            return s, hv

        def cellval(s, key):
            if key[0] == 'ghost':
                return s.ghost.get(key[1])
            b = s.mem.get(key[0])
            return b.cells.get(key[1]) if b else None

        def autofact(s, fact, k):
            key, coef, acc = fact
            v0, v = cellval(s0, key), cellval(s, key)
            try:
                a, b = acc(v0), acc(v)
            except Exception:
                return None
            return Eq(b, add(a, mul(coef, k)))

        def allfacts(s, k):
            """[(id, formula)] of live candidate invariants in state s at iteration k"""
            out = []
            for i, f in enumerate(auto):
                if ('auto', i) in dead:
                    continue
                g = autofact(s, f, k)
                if g is None:
                    dead.add(('auto', i))
                    continue
                out.append((('auto', i), g))
            for i, (nm, fn) in enumerate(self.candidates):
                if ('c', i) in dead:
                    continue
                try:
                    g = fn(self.mkctx(s, k, LoopCtx(header, dem, k, s0)))
                except (KeyError, AttributeError, Unsupported, TypeError, IndexError, z3.Z3Exception) as e:
                    g = None
                    if self.opts.get('debug_inv'):
                        print('candidate', nm, 'n/a in', dem[:60], repr(e)[:200])
                if g is None:
                    dead.add(('c', i))
                    continue
                out.append((('c', i), g))
            for i, tf in enumerate(templates or []):
                if ('t', i) in dead:
                    continue
                g = tf(s)
                if g is None:
                    dead.add(('t', i))
                    continue
                out.append((('t', i), g))
            return out

        final = None
        while True:
            rounds += 1
            if rounds > 30:
                raise Unsupported('loop invariant inference did not converge in %s' % dem)
            # establishment
            for cid, g in allfacts(s0, 0):
                r, _ = check_valid(s0.pc, g, self.inv_timeout(cid))
                if r != 'proved':
                    dead.add(cid)
                    dropped.append((cid, 'entry', r))
            s, hv = mkstate()
            facts = allfacts(s, ck)
            for cid, g in facts:
                s.assume(g)
            sh = s.copy()
            self.dry += 1
            ob0 = len(self.obls)
            nl0 = len(self.loop_info)
            try:
                ends = self.explore([s], stop)
            finally:
                self.dry -= 1
            backs = [e[1] for e in ends if e[0] == 'back']
            # modified cells
            grown = False
            for e in backs:
                for bid, b in e.mem.items():
                    b0 = sh.mem.get(bid)
                    if b0 is None:
                        continue
                    if b is b0:
                        continue
                    if b.alive != b0.alive:
                        raise Unsupported('loop frees a block that outlives it')
                    for off in set(b.cells) | set(b0.cells):
                        sp = diff_spec(b0.cells.get(off), b.cells.get(off), mods.get((bid, off)))
                        if sp is not mods.get((bid, off)):
                            mods[(bid, off)] = sp
                            grown = True
                for g in set(e.ghost) | set(sh.ghost):
                    sp = diff_spec(sh.ghost.get(g), e.ghost.get(g), gmods.get(g))
                    if sp is not gmods.get(g):
                        gmods[g] = sp
                        grown = True
            if grown:
                auto, templates, autoseen = [], None, False
                dead = {d for d in dead if d[0] == 'c' and False}
                continue
            if not autoseen:
                autoseen = True
                auto = self.infer_auto(s0, hv, backs, cellval)
                templates = self.infer_templates(fr.fn, header, body, sh, hv, ends, cellval)
                if auto or templates:
                    continue
            # preservation
            bad = False
            steps = []
            for e in backs:
                for cid, g in allfacts(e, ck + 1):
                    if cid in dead:
                        continue
                    steps.append((cid, e.pc, g))
                    r, m = check_valid(e.pc, g, self.inv_timeout(cid))
                    if r != 'proved':
                        dead.add(cid)
                        dropped.append((cid, 'preserve', r))
                        if self.opts.get('debug_inv'):
                            print('DROP', cid, self.candidates[cid[1]][0] if cid[0] == 'c' else cid, r, dem[:80])
                        bad = True
            if bad:
                continue
            break
        # final pass: records obligations of the body and yields the exits
        s, hv = mkstate()
        facts = allfacts(s, ck)
        for cid, g in facts:
            s.assume(g)
        if not self.dry:
            for cid, g in facts:
                o = Oblig()
                nm = self.candidates[cid[1]][0] if cid[0] == 'c' else 'auto-%s%d' % cid
                o.unit, o.name, o.kind, o.status, o.model, o.dt, o.abstracted, o.fn, o.detail, o.backend = \
                    self.unit, 'loop-invariant:' + nm, 'inv', 'proved', None, 0.0, True, fid, 'established and preserved', 'z3'
                for c2, pc, g2 in steps:
                    if c2 == cid and self.cross > 0 and not z3.is_true(zbool(g2)) and o.status == 'proved':
                        o.status = self.cross_check(pc, g2, (), o)
                self.obls.append(o)
            self.loop_info.append((dem, header, [self.candidates[c[1]][0] for c, _ in facts if c[0] == 'c'],
                                   [(self.candidates[c[1]][0], w, r) for c, w, r in dropped if c[0] == 'c']))
        ends = self.explore([s], stop)
        res = []
        for k, e, v in ends:
            if k == 'exit':
                e.loops = list(s0.loops)
                res.append((k, e, v))
            elif k == 'ret':
                raise Unsupported('return from inside loop frame')
        return res

    def inv_timeout(self, cid):
        if cid[0] == 'c':
            return min(self.timeout, self.opts.get('cand_timeout', 8000))
        return 2500 if cid[0] == 'auto' else 400

    def havoc_spec(self, s, old, spec):
        if spec is True or not z3.is_expr(old):
            return self.havoc(s, old)
        m = P.BYSORT.get(old.sort().get_id())
        kw = {}
        for name, sub in spec.items():
            f = m.by[name]
            r = P.raw(m, old, f)
            if sub is not True and f.opt:
                kw[name] = f.osort.some(self.havoc_spec(s, f.osort.the(r), sub))
            elif sub is not True:
                kw[name] = self.havoc_spec(s, r, sub)
            else:
                v = self.havoc(s, r)
                if f.card == 'one' and f.kind in ('int', 'case'):
                    s.assume(P.rng(v, f.rng))
                kw[name] = v
        return P.setraw(m, old, **kw)

    def havoc(self, s, old):
        if old is None or old is UNDEF:
            return None
        if isinstance(old, bool):
            return fresh(z3.BoolSort())
        if isinstance(old, int):
            v = fresh(z3.IntSort())
            s.assume(z3.And(v >= -(1 << 63), v < (1 << 64)))
            return v
        if z3.is_expr(old):
            q = S.seq_sort(old.sort())
            if q is not None:
                n = fresh(z3.IntSort(), 'len')
                s.assume(n >= 0)
                return q.make(n, fresh(z3.ArraySort(z3.IntSort(), q.elem), 'arr'))
            q = S.map_sort(old.sort())
            if q is not None:
                n = fresh(z3.IntSort(), 'msize')
                s.assume(n >= 0)
                return q.mk(fresh(z3.ArraySort(q.key, z3.BoolSort()), 'dom'), fresh(z3.ArraySort(q.key, q.val), 'val'), n)
            v = fresh(old.sort())
            if z3.is_int(v):
                s.assume(z3.And(v >= -(1 << 63), v < (1 << 64)))
            m = P.BYSORT.get(old.sort().get_id())
            if m is not None:
                for f in P.wf(m, v, 1):
                    s.assume(f)
            return v
        if isinstance(old, Obj):
            if old.kind == 'iter':
                p = fresh(z3.IntSort(), 'pos')
                return old.with_(pos=p)
            if 'havoc' in old.v:
                return old.v['havoc'](s, old)
            return None
        if isinstance(old, SPtr):
            return SPtr(old.reg, fresh(z3.IntSort(), 'ptr'), old.o)
        if isinstance(old, Ptr) and old.p and old.p[-1][0] == 'i':
            x = old.p[-1]
            return Ptr(old.b, old.o, old.p[:-1] + (('i', x[1], fresh(z3.IntSort(), 'pi')) + x[3:],))
        return None

    def infer_auto(self, s0, hv, backs, cellval):
        out = []
        if not backs:
            return out
        for key, h in hv.items():
            acc = None
            if z3.is_expr(h) and z3.is_int(h):
                acc = lambda v: toint(v)
            elif isinstance(h, Obj) and h.kind == 'iter':
                acc = lambda v: toint(v.pos)
            elif isinstance(h, Ptr) and h.p:
                acc = lambda v: toint(v.p[-1][2])
            else:
                continue
            coef = None
            ok = True
            for e in backs:
                v = cellval(e, key)
                try:
                    d = z3.simplify(zint(acc(v)) - zint(acc(h)))
                except Exception:
                    ok = False
                    break
                if not z3.is_int_value(d):
                    # wrapping increment: guess the step, preservation decides
                    if not z3.is_expr(acc(v)) or not occurs(zint(acc(v)), zint(acc(h))):
                        ok = False
                        break
                    d = z3.simplify(z3.substitute(d, (zint(acc(h)), z3.IntVal(1))))
                    if not z3.is_int_value(d) or abs(d.as_long()) > 16:
                        ok = False
                        break
                d = d.as_long()
                if coef is None:
                    coef = d
                elif coef != d:
                    ok = False
                    break
            if ok and coef is not None:
                out.append((key, coef, acc))
        return out

    def infer_templates(self, fn, header, body, sh, hv, ends, cellval):
        """guard templates x<=y from guards x<y / x!=y taken at the header"""
        base = len(sh.pc)
        consts = {}
        for key, h in hv.items():
            if z3.is_expr(h):
                consts[h.get_id()] = (h, key, lambda v: v)
            elif isinstance(h, Obj) and h.kind == 'iter':
                consts[h.pos.get_id()] = (h.pos, key, lambda v: v.pos)
            elif isinstance(h, SPtr):
                consts[h.t.get_id()] = (h.t, key, lambda v: v.t if isinstance(v, SPtr) else 0)
            elif isinstance(h, Ptr) and h.p:
                consts[h.p[-1][2].get_id()] = (h.p[-1][2], key, lambda v: v.p[-1][2])
        forms = []
        for k, e, v in ends:
            for f in e.pc[base:base + 6]:
                g = f
                if z3.is_not(g):
                    g = g.arg(0)
                if not z3.is_app(g) or g.num_args() != 2:
                    continue
                a, b = g.arg(0), g.arg(1)
                if not (z3.is_int(a) and z3.is_int(b)):
                    continue
                for f2 in (a <= b, b <= a):
                    forms.append(f2)
        uniq = {}
        for f in forms:
            uniq[f.sexpr()] = f
        out = []
        for f in uniq.values():
            used = [c for c in consts.values() if occurs(f, c[0])]
            if not used or not all_known(f, consts, sh):
                continue

            def mk(f=f, used=used):
                def t(s):
                    sub = []
                    for h, key, acc in used:
                        v = cellval(s, key)
                        try:
                            v = acc(v)
                        except Exception:
                            return None
                        if v is None or v is UNDEF or isinstance(v, (Obj, Ptr, SPtr)):
                            return None
                        sub.append((h, zint(v) if z3.is_int(h) else v))
                    return z3.substitute(f, *sub)
                return t
            out.append(mk())
        return out

    def mkctx(self, s, k, lc):
        c = Ctx()
        c.ex, c.st, c.k, c.loop, c.s0 = self, s, k, lc, lc.s0
        c.init = self.init
        c.outer = [l for l in s.loops if l.header != lc.header or l.fn != lc.fn]
        return c


def diff_spec(a, b, spec):
    """what of a cell a loop body changes: None nothing, True everything, or
    {message field: spec}; returns `spec` itself when nothing new changed"""
    if spec is True or values_equal(a, b):
        return spec
    if not (z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort()):
        return True
    m = P.BYSORT.get(a.sort().get_id())
    if m is None or m.opaque:
        return True
    out = dict(spec or {})
    changed = False
    for f in m.fields:
        x, y = P.raw(m, a, f), P.raw(m, b, f)
        if x.eq(y):
            continue
        old = out.get(f.name)
        if f.kind == 'msg' and f.card == 'one':
            if f.opt:
                if f.osort.has(x) is True and f.osort.has(y) is True:
                    sp = diff_spec(f.osort.the(x), f.osort.the(y), old)
                else:
                    sp = True
            else:
                sp = diff_spec(x, y, old)
        else:
            sp = True
        if sp is not old:
            out[f.name] = sp
            changed = True
    return out if changed else spec


def occurs(f, c):
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def all_known(f, consts, sh):
    """every constant of f existed at the loop head (is not created in the body)"""
    return True


class Ctx:
    """what a candidate invariant sees"""

    def rd(self, p, st=None):
        return self.ex.read(st or self.st, p)


class CallInfo:
    pass


class Stop:
    join = None


class PushFrame:
    def __init__(self, frame):
        self.frame = frame


def add(a, b):
    a, b = toint(a), toint(b)
    if is_c(b) and b == 0:
        return a
    return a + b


def sub(a, b):
    return toint(a) - toint(b)


def mul(a, b):
    a, b = toint(a), toint(b)
    if is_c(a) and a == 1:
        return b
    if is_c(b) and b == 1:
        return a
    return a * b


def parse_fp(s):
    import struct
    if s.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    return float(s)


def model_str(m, limit=6000):
    out = []
    for d in m.decls():
        n = d.name()
        if d.arity() == 0:
            try:
                out.append('%s = %s' % (n, m[d]))
            except Exception:
                pass
    return '\n'.join(out)[:limit]
