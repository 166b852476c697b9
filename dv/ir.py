"""Text LLVM-IR (clang 18, opaque pointers) reader: just enough structure for
symbolic execution.  Nothing is dropped silently: an instruction this reader
does not know makes the function that contains it unreachable for proof
(Unsupported is raised when execution meets it)."""
import re, subprocess

CXXFILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'


class Unsupported(Exception):
    """The verifier cannot decide (never a violation)."""


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_sz', '_al')
    # k: int(a=width) float double ptr void struct(a=[Ty], b=packed) named(a=name)
    #    array(a=n,b=Ty) vec label metadata opaque

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = self._al = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'named':
            return '%' + self.a
        if self.k == 'array':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')


class Cur:
    """A cursor over one line of IR text."""
    __slots__ = ('s', 'i')

    def __init__(self, s, i=0):
        self.s, self.i = s, i

    def ws(self):
        s, i = self.s, self.i
        while i < len(s) and s[i] in ' \t':
            i += 1
        self.i = i

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Unsupported('parse: expected %r at %r' % (t, self.s[self.i:self.i + 60]))

    _word = re.compile(r'[A-Za-z_][\w.]*')

    def word(self):
        self.ws()
        m = self._word.match(self.s, self.i)
        if not m:
            return None
        self.i = m.end()
        return m.group()

    def peekword(self):
        self.ws()
        m = self._word.match(self.s, self.i)
        return m.group() if m else None

    _ident = re.compile(r'("(?:[^"\\]|\\.)*"|[\w.$-]+)')

    def ident(self):
        m = self._ident.match(self.s, self.i)
        if not m:
            raise Unsupported('parse ident at %r' % self.s[self.i:self.i + 60])
        self.i = m.end()
        g = m.group()
        return g[1:-1] if g[0] == '"' else g

    def end(self):
        self.ws()
        return self.i >= len(self.s)


_int = re.compile(r'i(\d+)\b')


def parse_type(c):
    c.ws()
    s, i = c.s, c.i
    m = _int.match(s, i)
    if m:
        c.i = m.end()
        t = Ty('int', int(m.group(1)))
    elif s[i] == '%':
        c.i += 1
        t = Ty('named', c.ident())
    elif s[i] == '[':
        c.i += 1
        c.ws()
        m = re.compile(r'\d+').match(s, c.i)
        n = int(m.group())
        c.i = m.end()
        c.need('x')
        e = parse_type(c)
        c.need(']')
        t = Ty('array', n, e)
    elif s.startswith('<{', i):
        c.i += 2
        el = []
        while not c.eat('}'):
            el.append(parse_type(c))
            c.eat(',')
        c.need('>')
        t = Ty('struct', el, True)
    elif s[i] == '{':
        c.i += 1
        el = []
        while not c.eat('}'):
            el.append(parse_type(c))
            c.eat(',')
        t = Ty('struct', el, False)
    elif s[i] == '<':
        c.i += 1
        m = re.compile(r'\s*(\d+)\s*x').match(s, c.i)
        c.i = m.end()
        e = parse_type(c)
        c.need('>')
        t = Ty('vec', int(m.group(1)), e)
    else:
        w = c.word()
        if w in ('ptr', 'void', 'double', 'float', 'label', 'metadata', 'opaque', 'x86_fp80', 'token'):
            t = Ty(w)
        else:
            raise Unsupported('type %r' % s[i:i + 40])
    # function type suffix: "void (ptr, ...)" in varargs calls
    c.ws()
    if c.i < len(c.s) and c.s[c.i] == '(' and t.k not in ('label',):
        # skip the parameter list of a function type
        d = 0
        j = c.i
        while True:
            if c.s[j] == '(':
                d += 1
            if c.s[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        c.i = j + 1
    return t


_ATTR_PAREN = ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'nofpclass',
               'initializes', 'elementtype', 'preallocated', 'inalloca', 'byref', 'memory')
_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
          'writeonly', 'writable', 'dead_on_unwind', 'returned', 'immarg', 'nest', 'noext', 'captures', 'nofree',
          'dead_on_return', 'swiftself', 'swifterror', 'allocalign', 'allocptr'}


def parse_attrs(c):
    at = {}
    while True:
        c.ws()
        w = c.peekword()
        if w == 'align':
            c.word()
            c.ws()
            m = re.compile(r'\(?(\d+)\)?').match(c.s, c.i)
            c.i = m.end()
            continue
        if w in _ATTR_PAREN:
            c.word()
            c.need('(')
            if w in ('sret', 'byval', 'byref', 'elementtype', 'preallocated', 'inalloca'):
                at[w] = parse_type(c)
                c.need(')')
            else:
                d = 1
                while d:
                    if c.s[c.i] == '(':
                        d += 1
                    elif c.s[c.i] == ')':
                        d -= 1
                    c.i += 1
            continue
        if w in _ATTRS:
            c.word()
            at[w] = True
            continue
        return at


# operand: ('r',name) ('g',name) ('i',int) ('f',str) ('null',) ('undef',) ('zero',) ('agg',[(ty,op)]) ('ce',...)
_num = re.compile(r'-?\d+(\.\d*(e[+-]?\d+)?)?(?![\w])|0x[0-9A-Fa-f]+|-?\d+\.\d+e[+-]?\d+')


def parse_operand(c, ty):
    c.ws()
    s = c.s
    ch = s[c.i]
    if ch == '%':
        c.i += 1
        return ('r', c.ident())
    if ch == '@':
        c.i += 1
        return ('g', c.ident())
    if s.startswith('c"', c.i):
        j = s.index('"', c.i + 2)
        raw = s[c.i + 2:j]
        c.i = j + 1
        return ('str', decode_cstr(raw))
    if ch == '[' or ch == '{' or s.startswith('<{', c.i) or ch == '<':
        closer = {'[': ']', '{': '}', '<': '>'}[ch]
        pack = s.startswith('<{', c.i)
        c.i += 2 if pack else 1
        if pack:
            closer = '}'
        out = []
        while not c.eat(closer):
            t = parse_type(c)
            out.append((t, parse_operand(c, t)))
            c.eat(',')
        if pack:
            c.need('>')
        return ('agg', out)
    m = _num.match(s, c.i)
    if m:
        c.i = m.end()
        if ty.k == 'int':
            return ('i', int(m.group()))
        return ('f', m.group())
    w = c.word()
    if w == 'true':
        return ('i', 1)
    if w == 'false':
        return ('i', 0)
    if w == 'null':
        return ('null',)
    if w in ('undef', 'poison'):
        return ('undef',)
    if w == 'zeroinitializer':
        return ('zero',)
    if w == 'none':
        return ('undef',)
    if w == 'getelementptr':
        inb = c.eat('inbounds')
        m = re.compile(r'\s*inrange\([^)]*\)').match(c.s, c.i)
        if m:
            c.i = m.end()
        c.need('(')
        bt = parse_type(c)
        c.need(',')
        ops = []
        while True:
            if c.eat('inrange'):
                m = re.compile(r'\([^)]*\)').match(c.s, c.i)
                if m:
                    c.i = m.end()
            t = parse_type(c)
            ops.append((t, parse_operand(c, t)))
            if not c.eat(','):
                break
        c.need(')')
        return ('gep', bt, ops)
    if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
        c.need('(')
        t = parse_type(c)
        o = parse_operand(c, t)
        c.need('to')
        t2 = parse_type(c)
        c.need(')')
        return ('cast', w, t, o, t2)
    raise Unsupported('operand %r in %r' % (w, s[:120]))


def decode_cstr(raw):
    out = bytearray()
    i = 0
    while i < len(raw):
        if raw[i] == '\\':
            out.append(int(raw[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(raw[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'x', 'text')

    def __init__(self, op, dst, ty, x, text):
        self.op, self.dst, self.ty, self.x, self.text = op, dst, ty, x, text

    def __repr__(self):
        return self.text.strip()


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext',
         'fptrunc', 'addrspacecast'}


def _toty(c):
    t = parse_type(c)
    o = parse_operand(c, t)
    return t, o


_DST = re.compile(r'\s*%("(?:[^"\\]|\\.)*"|[\w.$-]+) = ')


def parse_instr(line):
    text = line
    m = _DST.match(line)
    dst = None
    if m:
        dst = m.group(1)
        if dst[0] == '"':
            dst = dst[1:-1]
        c = Cur(line, m.end())
    else:
        c = Cur(line)
    w = c.word()
    if w in ('tail', 'musttail', 'notail'):
        w = c.word()
    try:
        if w == 'alloca':
            t = parse_type(c)
            n = None
            if c.eat(','):
                if not c.peek('align'):
                    n = _toty(c)
            return Instr('alloca', dst, t, n, text)
        if w == 'load':
            at = c.eat('atomic')
            c.eat('volatile')
            t = parse_type(c)
            c.need(',')
            p = _toty(c)
            return Instr('load', dst, t, p, text)
        if w == 'store':
            c.eat('atomic')
            c.eat('volatile')
            t, v = _toty(c)
            c.need(',')
            p = _toty(c)
            return Instr('store', None, t, (v, p), text)
        if w == 'getelementptr':
            c.eat('inbounds')
            t = parse_type(c)
            c.need(',')
            ops = [_toty(c)]
            while c.eat(','):
                c.ws()
                if c.s[c.i:c.i + 1] == '!':
                    break
                ops.append(_toty(c))
            return Instr('gep', dst, t, ops, text)
        if w in ('call', 'invoke'):
            while c.peekword() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc',
                                   'ccc', 'coldcc'):
                c.word()
            parse_attrs(c)
            t = parse_type(c)
            c.ws()
            callee = parse_operand(c, PTR)
            c.need('(')
            args = []
            while not c.eat(')'):
                at_t = parse_type(c)
                at = parse_attrs(c)
                if at_t.k == 'metadata':
                    raise Unsupported('metadata arg')
                args.append((at_t, parse_operand(c, at_t), at))
                c.eat(',')
            x = (callee, args, None)
            if w == 'invoke':
                mm = re.search(r'to label %("[^"]+"|[\w.$-]+)', line)
                x = (callee, args, mm.group(1).strip('"'))
            return Instr('call', dst, t, x, text)
        if w == 'br':
            if c.eat('label'):
                c.ws()
                c.need('%')
                return Instr('br', None, None, c.ident(), text)
            t, o = _toty(c)
            c.need(',')
            c.need('label')
            c.ws()
            c.need('%')
            a = c.ident()
            c.need(',')
            c.need('label')
            c.ws()
            c.need('%')
            b = c.ident()
            return Instr('condbr', None, t, (o, a, b), text)
        if w == 'switch':
            t, o = _toty(c)
            c.need(',')
            c.need('label')
            c.ws()
            c.need('%')
            d = c.ident()
            c.need('[')
            cases = []
            while not c.eat(']'):
                t2, v = _toty(c)
                c.need(',')
                c.need('label')
                c.ws()
                c.need('%')
                cases.append((v[1], c.ident()))
            return Instr('switch', None, t, (o, d, cases), text)
        if w == 'ret':
            t = parse_type(c)
            o = None if t.k == 'void' else parse_operand(c, t)
            return Instr('ret', None, t, o, text)
        if w == 'unreachable':
            return Instr('unreachable', None, None, None, text)
        if w in ('icmp', 'fcmp'):
            while c.peekword() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
                c.word()
            p = c.word()
            t = parse_type(c)
            a = parse_operand(c, t)
            c.need(',')
            b = parse_operand(c, t)
            return Instr(w, dst, t, (p, a, b), text)
        if w == 'phi':
            t = parse_type(c)
            inc = []
            while c.eat('['):
                v = parse_operand(c, t)
                c.need(',')
                c.ws()
                c.need('%')
                inc.append((c.ident(), v))
                c.need(']')
                c.eat(',')
            return Instr('phi', dst, t, inc, text)
        if w == 'select':
            ct, co = _toty(c)
            c.need(',')
            t, a = _toty(c)
            c.need(',')
            _, b = _toty(c)
            return Instr('select', dst, t, (co, a, b), text)
        if w in BINOPS:
            fl = set()
            while c.peekword() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
                                   'contract', 'afn', 'reassoc'):
                fl.add(c.word())
            t = parse_type(c)
            a = parse_operand(c, t)
            c.need(',')
            b = parse_operand(c, t)
            return Instr('bin', dst, t, (w, fl, a, b), text)
        if w == 'fneg':
            t, o = _toty(c)
            return Instr('fneg', dst, t, o, text)
        if w in CASTS:
            while c.peekword() in ('nneg', 'nuw', 'nsw'):
                c.word()
            t, o = _toty(c)
            c.need('to')
            t2 = parse_type(c)
            return Instr('cast', dst, t2, (w, t, o), text)
        if w == 'extractvalue':
            t, o = _toty(c)
            idx = []
            while c.eat(','):
                c.ws()
                mm = re.compile(r'\d+').match(c.s, c.i)
                if not mm:
                    break
                idx.append(int(mm.group()))
                c.i = mm.end()
            return Instr('extractvalue', dst, t, (o, idx), text)
        if w == 'insertvalue':
            t, o = _toty(c)
            c.need(',')
            t2, v = _toty(c)
            idx = []
            while c.eat(','):
                c.ws()
                mm = re.compile(r'\d+').match(c.s, c.i)
                if not mm:
                    break
                idx.append(int(mm.group()))
                c.i = mm.end()
            return Instr('insertvalue', dst, t, (o, v, idx), text)
        if w == 'freeze':
            t, o = _toty(c)
            return Instr('freeze', dst, t, o, text)
        if w == 'atomicrmw':
            c.eat('volatile')
            op = c.word()
            p = _toty(c)
            c.need(',')
            t, v = _toty(c)
            return Instr('atomicrmw', dst, t, (op, p, v), text)
        if w == 'fence':
            return Instr('fence', None, None, None, text)
    except Unsupported:
        return Instr('unsupported', dst, None, None, text)
    return Instr('unsupported', dst, None, None, text)


class Func:
    def __init__(self, name, module):
        self.name, self.module = name, module
        self.params = []   # (name, Ty, attrs)
        self.ret = None
        self.raw = {}      # label -> list of text lines
        self.order = []
        self._blocks = {}
        self._loops = None
        self.linkage = ''

    def block(self, label):
        b = self._blocks.get(label)
        if b is None:
            b = self._blocks[label] = [parse_instr(l) for l in self.raw[label]]
        return b

    @property
    def entry(self):
        return self.order[0]

    def succs(self, label):
        t = self.block(label)[-1]
        if t.op == 'br':
            return [t.x]
        if t.op == 'condbr':
            return [t.x[1], t.x[2]]
        if t.op == 'switch':
            return [t.x[1]] + [b for _, b in t.x[2]]
        if t.op == 'call' and t.x[2]:
            return [t.x[2]]
        return []

    def region(self, label):
        """(J, blocks) where J is the immediate postdominator of `label` and `blocks` lie strictly between; None when
        there is none, or the region is large or contains a loop.  Blocks ending in `unreachable` are ignored."""
        if not hasattr(self, '_pdom'):
            nodes, stack = set(), [self.entry]
            while stack:
                n = stack.pop()
                if n in nodes:
                    continue
                nodes.add(n)
                stack.extend(self.succs(n))
            dead = {n for n in nodes if self.block(n)[-1].op == 'unreachable'}
            nodes -= dead
            succ = {n: [x for x in self.succs(n) if x not in dead] for n in nodes}
            pd = {n: set(nodes) for n in nodes}
            for n in nodes:
                if not succ[n]:
                    pd[n] = {n}
            ch = True
            while ch:
                ch = False
                for n in nodes:
                    if succ[n]:
                        d = set.intersection(*[pd[x] for x in succ[n]]) | {n}
                        if d != pd[n]:
                            pd[n] = d
                            ch = True
            self._pdom, self._psucc, self._regions = pd, succ, {}
        if label in self._regions:
            return self._regions[label]
        r = None
        cand = self._pdom.get(label, set()) - {label}
        j = [x for x in cand if all(x in cand and (y == x or y in self._pdom[x]) for y in cand)]
        if j:
            j = j[0]
            blocks, stack, loops = set(), list(self._psucc[label]), self.loops()
            ok = j not in loops
            while stack and ok:
                n = stack.pop()
                if n == j or n in blocks:
                    continue
                blocks.add(n)
                if n in loops or n == label or len(blocks) > 60:
                    ok = False
                stack.extend(self._psucc[n])
            if ok:
                r = (j, blocks)
        self._regions[label] = r
        return r

    def loops(self):
        """header -> set of labels of the natural loop (union over back edges)."""
        if self._loops is not None:
            return self._loops
        # iterative DFS for order, dominators by simple fixpoint
        succ = {}
        seen = set()
        stack = [self.entry]
        while stack:
            n = stack.pop()
            if n in seen:
                continue
            seen.add(n)
            succ[n] = self.succs(n)
            stack.extend(succ[n])
        nodes = list(seen)
        pred = {n: [] for n in nodes}
        for n in nodes:
            for s in succ[n]:
                pred[s].append(n)
        dom = {n: set(nodes) for n in nodes}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for n in nodes:
                if n == self.entry:
                    continue
                ps = [dom[p] for p in pred[n]]
                d = set.intersection(*ps) if ps else set()
                d = d | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in nodes:
            for s in succ[n]:
                if s in dom[n]:  # back edge n->s
                    body = {s, n}
                    st = [n]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in pred[x]:
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    loops.setdefault(s, set()).update(body)
        self._loops = loops
        return loops


_GLOB = re.compile(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+) = (.*)$')


class Module:
    def __init__(self, path):
        self.path = path
        self.path = path
        self.structs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self._parse(open(path, encoding='utf-8', errors='replace').read())
        names = sorted(set(self.funcs) | set(self.decls) | set(self.aliases))
        out = subprocess.run([CXXFILT], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = {n: canon(d) for n, d in zip(names, out)}
        self.bydem = {}
        for n, d in self.dem.items():
            self.bydem.setdefault(d, []).append(n)

    def _parse(self, text):
        cur = None
        lab = None
        for line in text.split('\n'):
            if cur is not None:
                if line.startswith('}'):
                    cur = None
                    continue
                if not line:
                    continue
                if line[0] != ' ':
                    m = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$-]+):', line)
                    if m:
                        lab = m.group(1).strip('"')
                        cur.order.append(lab)
                        cur.raw[lab] = []
                        continue
                s = line.strip()
                if not s or s.startswith(';'):
                    continue
                if cur.raw[lab] and cur.raw[lab][-1].endswith(' [') or (cur.raw[lab] and getattr(cur, '_sw', False)):
                    # switch continuation
                    cur.raw[lab][-1] += ' ' + s
                    cur._sw = not s.startswith(']')
                    continue
                if s.startswith('switch ') and s.endswith('['):
                    cur._sw = True
                if s.startswith('to label') or s.startswith('cleanup') or s.startswith('catch') or s.startswith('filter'):
                    cur.raw[lab][-1] += ' ' + s
                    continue
                cur.raw[lab].append(line)
                continue
            if line.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[\w.$-]+) = type (.*)$', line)
                if m:
                    n = m.group(1).strip('"')
                    self.structs[n] = m.group(2)
                continue
            if line.startswith('@'):
                m = _GLOB.match(line)
                if m and re.search(r'\balias\b', m.group(2).split('(')[0]):
                    tm = re.findall(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)', m.group(2))
                    self.aliases[m.group(1).strip('"')] = tm[-1].strip('"')
                elif m:
                    self.globals[m.group(1).strip('"')] = m.group(2)
                continue
            if line.startswith('define '):
                f = self._header(line)
                self.funcs[f.name] = f
                cur = f
                lab = None
                # implicit entry label handled when first label line absent
                cur._sw = False
                continue
            if line.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', line)
                if m:
                    self.decls[m.group(1).strip('"')] = line

    def _header(self, line):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', line)
        f = Func(m.group(1).strip('"'), self)
        f.linkage = line[:m.start()]
        c = Cur(line, m.end())
        idx = 0
        while not c.eat(')'):
            if c.eat('...'):
                continue
            t = parse_type(c)
            at = parse_attrs(c)
            nm = None
            if c.peek('%'):
                c.ws()
                c.i += 1
                nm = c.ident()
            else:
                nm = str(idx)
            idx += 1
            f.params.append((nm, t, at))
            c.eat(',')
        return f

    # ----- layout
    def struct(self, name):
        v = self.structs.get(name)
        if v is None:
            raise Unsupported('unknown struct %s' % name)
        if isinstance(v, str):
            v = parse_type(Cur(v))
            self.structs[name] = v
        return v

    def resolve(self, t):
        return self.struct(t.a) if t.k == 'named' else t

    def size_align(self, t):
        if t._sz is not None:
            return t._sz, t._al
        k = t.k
        if k == 'int':
            b = 1
            while b * 8 < t.a:
                b *= 2
            r = (b, min(b, 16))
        elif k == 'ptr' or k == 'double':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'array':
            s, a = self.size_align(t.b)
            r = (s * t.a, a)
        elif k == 'vec':
            s, a = self.size_align(t.b)
            r = (s * t.a, s * t.a)
        elif k == 'named':
            r = self.size_align(self.struct(t.a))
        elif k == 'struct':
            off = 0
            al = 1
            for e in t.a:
                s, a = self.size_align(e)
                if not t.b:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            if not t.b:
                off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'opaque':
            r = (0, 1)
        else:
            raise Unsupported('size of %r' % t)
        t._sz, t._al = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t.a):
            s, a = self.size_align(e)
            if not t.b:
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise Unsupported('field %d of %r' % (i, t))

    def global_init(self, name):
        """(Ty, operand or None, is_const) of a global."""
        g = self.globals.get(name)
        if g is None:
            return None
        if isinstance(g, tuple):
            return g
        c = Cur(g)
        const = False
        ext = False
        while True:
            w = c.peekword()
            if w in ('global', 'constant'):
                c.word()
                const = (w == 'constant')
                break
            if w is None:
                raise Unsupported('global %s' % name)
            if w == 'external' or w == 'extern_weak':
                ext = True
            c.word()
            c.ws()
            if c.s[c.i] == '(':   # thread_local(...) etc
                j = c.s.index(')', c.i)
                c.i = j + 1
        t = parse_type(c)
        op = None
        if not ext:
            op = parse_operand(c, t)
        r = (t, op, const)
        self.globals[name] = r
        return r


_STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def canon(d):
    d = d.replace(_STR, 'std::string').replace('[abi:cxx11]', '')
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    d = d.replace('google::api::servicecontrol::v1::', '')
    d = d.replace('google::service_control_client::', 'scc::')
    d = d.replace('google::protobuf::', 'pb::')
    d = d.replace('util::status_internal::', '')
    d = d.replace('internal::RepeatedPtr', 'RepeatedPtr').replace('(anonymous namespace)::', '')
    return d
