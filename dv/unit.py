"""Verification units: one function (or one public operation) of /repo checked
against its contract, for all inputs admitted by the precondition."""
import os, re, sys, time, traceback, multiprocessing, resource
import z3
from . import ir, lib, protos as P, sorts as S
from .core import *
from .build import DESC

UNITS = []


class Unit:
    def __init__(self, props, name, tu, entry, setup, post, opts=None, contracts=(), mods=(), note='', bounded=0,
                 limit=240, weight=1, needs=None, prove_false=True, optional=False):
        self.props = props if isinstance(props, (list, tuple)) else [props]
        self.name, self.tu, self.entry, self.setup, self.post = name, tu, entry, setup, post
        self.opts = opts or {}
        self.contracts = contracts
        self.mods = mods
        self.note = note
        self.bounded = bounded
        self.limit = limit
        self.weight = weight
        self.prove_false = prove_false
        self.optional = optional     # helper: dropped when the function no longer exists (callers then execute what replaced it)


class U:
    """what setup and post functions see"""

    def __init__(self, unit, ex, mod):
        self.unit, self.ex, self.mod = unit, ex, mod
        self.st = State()
        self.args = []
        self.v = {}

    def block(self, name, size=64, kind='arg'):
        return self.st.new_block(name, size, kind)

    def obj(self, name, value, size=64):
        b = self.block(name, size)
        b.cells[0] = value
        return Ptr(b.id)

    def message(self, name, full, wf=True):
        M = P.msg(full)
        v = fresh(M.sort, name)
        if wf:
            for f in P.wf(M, v):
                self.st.assume(f)
        return self.obj(name, v), v

    def string(self, name):
        s = fresh(Str, name)
        self.st.assume(slen(s) >= 0)
        self.st.assume((slen(s) == 0) == (s == S.EMPTY))
        return self.obj(name, s), s

    def int(self, name, n=64):
        v = fresh(z3.IntSort(), name)
        self.st.assume(S.in_range(v, n))
        return v

    def assume(self, *fs):
        for f in fs:
            self.st.assume(f)

    def check(self, st, name, goal, **kw):
        return self.ex.oblige(st, name, goal, 'post', **kw)

    def read(self, st, p):
        return self.ex.read(st, p)

    def layout(self, cls):
        return layout(self.mod, cls)


class Layout:
    """member offsets of a class, from clang's record layout dump of the translation unit"""

    def __init__(self, cls, size, fields):
        self.cls, self.size, self.fields = cls, size, fields    # [(offset, type, name, depth)]

    def off(self, name=None, ty=None):
        """offset of the direct member (or base) called `name`, else of the only one of type ~ `ty`"""
        for o, t, n, d in self.fields:
            if n == name:
                return o
        c = [o for o, t, n, d in self.fields if ty and re.search(ty, t)]
        if len(c) == 1:
            return c[0]
        raise Unsupported('no member %s in %s' % (name, self.cls))


_layouts = {}


def layout(mod, cls):
    path = mod.path[:-3] + '.layout'
    key = (path, cls)
    if key in _layouts:
        return _layouts[key]
    txt = _layouts.get(path)
    if txt is None:
        txt = _layouts[path] = open(path, errors='replace').read().split('*** Dumping AST Record Layout\n')
    for blk in txt:
        lines = blk.split('\n')
        m = re.match(r'\s*0 \| (?:class|struct|union) (.*?)(?: \(.*\))?$', lines[0])
        if not m or m.group(1) != cls:
            continue
        fields, size = [], None
        for l in lines[1:]:
            m = re.match(r'\s*(\d+)(?::[\d-]+)? \|( +)(.*)$', l)
            if m:
                depth = (len(m.group(2)) - 1) // 2
                body = re.sub(r' \((empty)\)$', '', m.group(3))
                b = re.match(r'(.*) \((primary )?base\)$', body)
                if b:
                    if depth == 1:
                        fields.append((int(m.group(1)), b.group(1), 'base:' + re.sub(r'^(class|struct) ', '', b.group(1)), 1))
                    continue
                b = re.match(r'\((.*) vtable pointer\)', body)
                if b:
                    continue
                b = re.match(r'(.*?) ?(\w+)$', body)
                if b and depth == 1:
                    fields.append((int(m.group(1)), b.group(1), b.group(2), 1))
            m = re.match(r'\s*\| \[sizeof=(\d+)', l)
            if m:
                size = int(m.group(1))
        r = _layouts[key] = Layout(cls, size, fields)
        return r
    raise Unsupported('no layout of %s' % cls)


def find_entry(mod, rx):
    r = re.compile(rx)
    c = [n for n in mod.funcs if r.search(mod.dem.get(n, n))]
    if len(c) > 1 and len({mod.dem.get(n, n) for n in c}) == 1 and not [n for n in c if not re.search(r'[CD][0-2]E', n)]:
        # variants of one constructor or destructor: the base object one runs the body
        c = [n for n in c if re.search(r'[CD]2E', n)] or [n for n in c if re.search(r'[CD]1E', n)] or c
    if len(c) != 1:
        # prefer the shortest demangled exact prefix match
        c2 = [n for n in c if r.match(mod.dem.get(n, n))]
        if len(c2) == 1:
            return c2[0]
        raise Unsupported('entry %s: %d candidates' % (rx, len(c)))
    return c[0]


def run_unit(unit, lls, tier='quick', bounded=None):
    """executes in a child process; returns a plain dict"""
    t0 = time.time()
    res = dict(name=unit.name, props=unit.props, obls=[], paths=0, functions=[], contracted=[], lib=[], error=None,
               vacuous=None, bounded=bool(bounded or unit.bounded), note=unit.note, steps=0, loops=[], entry=unit.entry,
               abstracted_paths=0)
    ex = None
    try:
        for d in DESC:
            P.load(d)
        mods = [ir.Module(lls[unit.tu])] + [ir.Module(lls[m]) for m in unit.mods]
        opts = dict(unit.opts)
        if bounded or unit.bounded:
            opts['bounded'] = bounded or unit.bounded
        S.FP_OVERFLOW[0] = bool(opts.get('fp_overflow'))
        if tier == 'thorough':
            opts['timeout'] = max(opts.get('timeout', 15000), 60000)
            opts['cross'] = 180
        ex = Exec(mods, list(unit.contracts) + lib.all_contracts(), unit.name, opts)
        ex.deadline = t0 + unit.limit * (3 if tier == 'thorough' else 1) + opts.get('cross', 0)
        mod = mods[0]
        u = U(unit, ex, mod)
        if unit.optional and not [n for n in mod.funcs if re.search(unit.entry, mod.dem.get(n, n))]:
            res.update(absent=True, wall=time.time() - t0)
            return res
        states = unit.setup(u)
        if states is None:
            states = [(u.st, u.args)]
        entry = find_entry(mod, unit.entry) if unit.entry else None
        starts = []
        for st, args in states:
            if ex.solver.sat(st.pc) == 'unsat':
                res['vacuous'] = 'precondition unsatisfiable'
            if entry is not None:
                fn = mod.funcs[entry]
                fr = Frame(fn)
                if len(fn.params) != len(args):
                    raise Unsupported('signature of %s changed: %d parameters' % (unit.entry, len(fn.params)))
                for (n, _, _), v in zip(fn.params, args):
                    fr.regs[n] = v
                st.frames = [fr] + st.frames
                d = mod.dem.get(entry, entry)
                ex.functions.add(d)
            ex.init = st.copy()
            starts.append(st)
        if entry is None:
            ends = [('ret', st, None) for st in starts]
        else:
            ends = ex.explore(starts)
        rets = [e for e in ends if e[0] == 'ret']
        res['paths'] = len(rets)
        live = 0
        for k, st, v in rets:
            res['abstracted_paths'] += bool(st.abstracted)
            unit.post(u, st, v)
        if unit.prove_false and rets:
            live = 0
            for k, st, v in rets[:40]:
                r, _ = check_valid(st.pc, False, 1500)
                if r != 'proved':
                    live += 1
                    break
            if not live:
                res['vacuous'] = 'every return path is contradictory'
        if not rets and res['vacuous'] is None:
            res['vacuous'] = 'no path returns'
    except Unsupported as e:
        res['error'] = 'unsupported: %s' % e
        if os.environ.get('DV_DEBUG'):
            traceback.print_exc()
    except RecursionError as e:
        res['error'] = 'recursion: %s' % e
    except z3.Z3Exception as e:
        res['error'] = 'z3: %s' % e
        if os.environ.get('DV_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        res['error'] = 'internal: %r' % e
        res['trace'] = traceback.format_exc()
        if os.environ.get('DV_DEBUG'):
            traceback.print_exc()
    if ex is not None:
        res['obls'] = [dict(name=o.name, kind=o.kind, status=o.status, model=o.model, dt=o.dt,
                            abstracted=o.abstracted, fn=o.fn, detail=o.detail, backend=o.backend) for o in ex.obls]
        res['functions'] = sorted(ex.functions)
        res['contracted'] = sorted(ex.contracted)
        res['lib'] = sorted(ex.libused)
        res['steps'] = ex.steps
        res['loops'] = ex.loop_info
        res['solver_s'] = sum(o.dt for o in ex.obls) + ex.solver.time
        res['truncated'] = bool(getattr(ex, 'truncated', False))
    res['wall'] = time.time() - t0
    return res


def _child(q, unit, lls, tier, bounded):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        q.send(run_unit(unit, lls, tier, bounded))
    except BaseException as e:
        try:
            q.send(dict(name=unit.name, props=unit.props, obls=[], paths=0, functions=[], contracted=[], lib=[],
                        error='crash %r' % e, vacuous=None, bounded=False, note='', steps=0, loops=[], wall=0,
                        solver_s=0, entry=unit.entry, abstracted_paths=0))
        except Exception:
            pass
    q.close()


def run_all(units, lls, tier='quick', jobs=8, bounded=None):
    ctx = multiprocessing.get_context('fork')
    todo = sorted(units, key=lambda u: -u.weight)
    run, out = [], {}
    while todo or run:
        while todo and len(run) < jobs:
            u = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, u, lls, tier, bounded))
            p.start()
            b.close()
            run.append((u, p, a, time.time()))
        time.sleep(0.01)
        for r in list(run):
            u, p, a, t = r
            lim = u.limit * (3 if tier == 'thorough' else 1) + 60 + (240 if tier == 'thorough' else 0)
            got = None
            alive = p.is_alive()
            if a.poll(0):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(error='child died')
            elif not alive:
                got = dict(error='child died')
            elif time.time() - t > lim:
                p.kill()
                got = dict(error='unit time limit')
            if got is not None:
                base = dict(name=u.name, props=u.props, obls=[], paths=0, functions=[], contracted=[], lib=[],
                            error=None, vacuous=None, bounded=False, note=u.note, steps=0, loops=[], wall=time.time() - t,
                            solver_s=0, entry=u.entry, abstracted_paths=0)
                base.update(got)
                out[u.name] = base
                p.join(1)
                run.remove(r)
    return [out[u.name] for u in units if not out[u.name].get('absent')]
