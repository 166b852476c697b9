"""check <property> [--tier quick|thorough]: decides one property.

Verdict
  every obligation discharged              -> exit 0, evidence level proof
  replay driver shows a failing input      -> exit 1, VIOLATION with replay
  an obligation refuted (with no loop or
  library over-approximation on the path,
  directly or after bounded unrolling)     -> exit 1, VIOLATION ... no-failing-input-found
  otherwise (a proof attempt gave no
  answer and nothing failed)               -> exit 0, evidence level exploration: a bounded
                                              stand-in, never counted as proved"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from . import build, unit
from specs import registry

VERIF = build.VERIF
EVID = os.environ.get('DV_EVID') or os.path.join(VERIF, 'evidence')


def findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return [f for f in json.load(open(p))['entries'] if f.get('kind') == 'finding']
    except FileNotFoundError:
        return []


class Driver:
    def __init__(self, pid, cfg, tier, seed, work):
        self.pid, self.cfg, self.tier, self.seed, self.work = pid, cfg, tier, seed, work
        self.exe = None
        self.err = None
        self.out = ''
        self.th = None

    def start_build(self):
        def go():
            try:
                self.exe = build.build_driver(self.cfg['driver'], os.path.join(self.work, 'drv'),
                                              sanitize=self.cfg.get('sanitize', False), srcs=self.cfg.get('srcs'),
                                              extra=self.cfg.get('flags', ()))
            except Exception as e:
                self.err = str(e)
        self.th = threading.Thread(target=go)
        self.th.start()

    def run(self, seconds, extra=(), seed=None):
        """dict(fail=text or None, findings=[(id, text)], stats)"""
        self.th.join()
        if self.exe is None:
            return dict(error='driver does not build: ' + (self.err or '')[-1500:])
        cmd = [self.exe, self.pid, str(seconds), str(self.seed if seed is None else seed)] + [str(x) for x in extra]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0' % int(self.cfg.get('leaks', 0)),
                   UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=77')
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=seconds + 240,
                               cwd=self.work)
            out, rc, serr = p.stdout.decode(errors='replace'), p.returncode, p.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            return dict(error='driver exceeded its time')
        r = dict(cmd=' '.join(['<driver %s built from /repo>' % self.cfg['driver']] + cmd[1:]), rc=rc, out=out, err=serr, fail=None,
                 error=None, findings=[])
        m = re.search(r'^FAIL (.*)$', out, re.M)
        if m:
            r['fail'] = m.group(1)
        elif rc == 77 or 'AddressSanitizer' in serr or 'runtime error:' in serr:
            mm = re.search(r'(ERROR: AddressSanitizer: .*|.*runtime error: .*|ERROR: LeakSanitizer.*)', serr)
            r['fail'] = 'sanitizer: ' + (mm.group(1) if mm else 'report')[:300]
        elif rc < 0:
            r['fail'] = 'the code under test crashed (signal %d)' % -rc
        elif rc != 0:
            r['error'] = 'driver exit %d: %s' % (rc, serr[-500:])
        for m in re.finditer(r'^FINDING (\S+) (.*)$', out, re.M):
            r['findings'].append((m.group(1), m.group(2)))
        m = re.search(r'^EVALUATIONS (\d+)$', out, re.M)
        r['evals'] = int(m.group(1)) if m else 0
        m = re.search(r'^DISTINCT (\d+)$', out, re.M)
        r['distinct'] = int(m.group(1)) if m else 0
        m = re.search(r'^RULE (.*)$', out, re.M)
        r['rule'] = m.group(1) if m else ''
        r['samples'] = re.findall(r'^SAMPLE (.*)$', out, re.M)
        return r


def write_replay(pid, text):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + '.txt')
    open(p, 'w').write(text)
    return p


def oblig_text(r, o):
    return 'unit: %s\nfunction under contract: %s\nobligation: %s (%s)\nstatus: %s\ndetail: %s\nin: %s\nback end: %s\n' \
           'verifier model:\n%s\n' % (r['name'], r['entry'], o['name'], o['kind'], o['status'], o['detail'], o['fn'],
                                      o['backend'], o['model'] or '')


def mine(pid, obls):
    """obligations named `C12,C13: ...` belong to those properties only"""
    out = []
    for o in obls:
        m = re.match(r'(C\d\d(?:,C\d\d)*):', o['name'])
        if not m or pid in m.group(1).split(','):
            out.append(o)
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    cfg = registry.PROPS[pid]
    t0 = time.time()
    os.makedirs(build.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run_%s_' % pid, dir=build.BUILD)
    rc = 2
    try:
        rc = check(pid, cfg, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc


def check(pid, cfg, tier, seed, t0, work):
    units = registry.units_for(pid)
    tus = sorted({t for u in units for t in [u.tu] + list(u.mods)})
    with build.Lock():
        build.pb_lib()
    drv = None
    if cfg.get('driver'):
        drv = Driver(pid, cfg, tier, seed, work)
        drv.start_build()
    builderr = None
    results = []
    try:
        lls = build.compile_ir(tus, os.path.join(work, 'ir'))
        results = unit.run_all(units, lls, tier)
        for r in results:
            r['obls'] = mine(pid, r['obls'])
    except build.BuildError as e:
        builderr = str(e)
    obls = [(r, o) for r in results for o in r['obls']]
    notproved = [(r, o) for r, o in obls if o['status'] != 'proved']
    errors = [(r['name'], r['error']) for r in results if r['error']]
    vac = [(r['name'], r['vacuous']) for r in results if r['vacuous']]
    nboundunits = [r['name'] for r in results if r['bounded']]
    known = [f for f in findings() if f['property'] == pid]
    known_ob = {f.get('obligation') for f in known if f.get('obligation')}
    excused = [(r, o) for r, o in notproved if '%s: %s' % (r['name'], o['name']) in known_ob]
    notproved = [x for x in notproved if x not in excused]
    proved_all = bool(results) and not notproved and not errors and not vac and builderr is None

    dres = None
    if drv:
        secs = cfg.get('secs', {}).get(tier, 6 if tier == 'quick' else 120)
        extra = ()
        if not proved_all:
            secs = max(secs, cfg.get('secs_fail', 40))
        dres = drv.run(secs, extra)
        if not proved_all and dres.get('fail') is None and not dres.get('error'):
            d2 = drv.run(secs, extra, seed=seed + 1000)
            if d2.get('fail'):
                dres = d2

    violation = None   # (text, suffix)
    if dres and dres.get('fail'):
        violation = ('property %s is broken: failing input found on the real code\n%s\n\ncommand: %s\n\n%s\n%s\n' % (
            pid, dres['fail'], dres['cmd'], dres['out'][-20000:], dres['err'][-6000:]), '')
        if notproved:
            violation = (violation[0] + '\nobligations not discharged:\n' + '\n'.join(
                oblig_text(r, o) for r, o in notproved[:6]), '')
    elif notproved or errors:
        direct = [(r, o) for r, o in notproved if o['status'] == 'refuted' and not o['abstracted']]
        bres = []
        if not direct and builderr is None:
            # no answer, or a refutation behind a loop abstraction: unroll the loops instead
            again = [u for u in units for r in results if r['name'] == u.name and
                     (any(o['status'] != 'proved' for o in r['obls']) or r['error'])]
            if again and not cfg.get('nounroll'):
                for u in again:
                    u.limit = min(u.limit, 120)
                bres = unit.run_all(again, lls, tier, bounded=2)
                for r in bres:
                    r['obls'] = mine(pid, r['obls'])
                    direct += [(r, o) for o in r['obls'] if o['status'] == 'refuted' and not o['abstracted']
                               and '%s: %s' % (r['name'], o['name']) not in known_ob]
        if direct:
            violation = ('property %s: proof obligation refuted by the verifier; the search on the real code found no failing '
                         'input in the time given\n\n' % pid + '\n'.join(oblig_text(r, o) for r, o in direct[:6]),
                         ' no-failing-input-found')
    # findings reported by the driver must be listed
    reported = dict(dres['findings']) if dres and dres.get('findings') else {}
    knownids = {f['id']: f for f in known}
    for fid, txt in reported.items():
        if fid not in knownids and violation is None:
            violation = ('property %s: %s\n%s' % (pid, txt, dres['out']), '')

    nob, ndis = len(obls), sum(o['status'] == 'proved' for _, o in obls)
    backends = {}
    for _, o in obls:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    cov = dict(
        obligations=nob - len(excused), discharged=ndis,
        checker_cmd='python3-vt -m dv.check %s (z3 python API over IR of /repo, see trusted_base)' % pid,
        trusted_base=registry.BASE_TRUST + list(cfg.get('trust', [])),
        functions_under_contract=[r['entry'] for r in results],
        functions_executed_from_ir=sorted({f for r in results for f in r['functions']}),
        repo_functions_used_by_contract=sorted({f for r in results for f in r['contracted']}),
        library_contracts_used=sorted({short(f) for r in results for f in r['lib']}),
        units=[dict(name=r['name'], paths=r['paths'], obligations=len(r['obls']),
                    discharged=sum(o['status'] == 'proved' for o in r['obls']), error=r['error'], vacuous=r['vacuous'],
                    bounded=r['bounded'], wall_s=round(r['wall'], 2), solver_s=round(r.get('solver_s', 0) or 0, 2),
                    ir_instructions_executed=r['steps'],
                    loops=[dict(fn=l[0][:120], invariants=l[2]) for l in r['loops']][:20]) for r in results],
        back_ends=backends, solver_time_s=round(sum(r.get('solver_s', 0) or 0 for r in results), 2),
        not_discharged=['%s: %s [%s] %s' % (r['name'], o['name'], o['status'], o['detail']) for r, o in notproved][:40],
        known_finding_obligations=sorted({'%s: %s' % (r['name'], o['name']) for r, o in excused}),
        errors=['%s: %s' % e for e in errors] + ['%s: %s' % e for e in vac] + ([builderr] if builderr else []),
        bounded_units=nboundunits)
    if dres:
        cov.update(evaluations=dres.get('evals', 0), distinct_nontrivial=dres.get('distinct', 0), rule=dres.get('rule', ''),
                   samples=dres.get('samples', [])[:5] or ['none'], driver_error=dres.get('error'),
                   driver_cmd=dres.get('cmd', ''))
    level = 'proof' if proved_all and not nboundunits else 'exploration'
    if level == 'proof' and cfg.get('level'):
        level = cfg['level']
    if level != 'proof':
        cov['explanation'] = 'not every obligation was discharged on this run (or the check is declared below proof); the ' \
            'obligations discharged are counted above, the rest is covered only by the bounded search of the replay driver'
        cov.setdefault('evaluations', nob)
        cov.setdefault('distinct_nontrivial', ndis)
        cov.setdefault('rule', 'obligations')
        cov.setdefault('samples', ['none'])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=registry.BASE_ASSUME + list(cfg.get('assume', [])), wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)

    for f in known:
        if f['id'] in reported or f.get('obligation'):
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    print('%s: %s; %d/%d obligations discharged in %d units (%.1fs solver), driver: %s; %.1fs' % (
        pid, level, ndis, nob - len(excused), len(results), cov['solver_time_s'],
        ('%s evaluations' % dres.get('evals') if not dres.get('error') else dres['error'][:300]) if dres else 'none',
        time.time() - t0))
    for x in cov['errors'][:6]:
        print('  no answer: %s' % x[:300])
    for x in cov['not_discharged'][:10]:
        print('  not discharged: %s' % x[:300])
    if violation:
        p = write_replay(pid, violation[0])
        print('VIOLATION property=%s replay=%s%s' % (pid, p, violation[1]))
        return 1
    if builderr and (dres is None or dres.get('error')):
        print('check error: /repo does not compile\n' + builderr[:1000])
        return 2
    return 0


def short(f):
    f = re.sub(r'<.*>', '<..>', f)
    return f.split('(')[0][:100]


if __name__ == '__main__':
    sys.exit(main())
