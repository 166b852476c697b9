#!/usr/bin/env python3
"""Mutation campaign: mutate.py OUT.jsonl WORKERS SEED [file-regex] [max per file]
Each mutant is made in a scratch copy of /repo (bind-mounted over /repo in a namespace of its own); those that build and pass
the tests are put to the checks of the properties that depend on the file.  Survivors are read by hand."""
import glob, json, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile

VERIF = os.environ.get('VERIF_DIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = [('src/money_utils.cc', 'C01 C02'), ('utils/distribution_helper.cc', 'C04 C03 C05 C06'), ('src/signature.cc', 'C07 C08'),
         ('src/operation_aggregator.cc', 'C09 C10'), ('src/quota_operation_aggregator.cc', 'C11'),
         ('src/report_aggregator_impl.cc', 'C12 C13 C14 C29 C30'), ('src/check_aggregator_impl.cc', 'C15 C16 C17 C29 C30'),
         ('src/quota_aggregator_impl.cc', 'C18 C19 C20 C29 C30'), ('src/cache_removed_items_handler.h', 'C13 C17 C20 C29'),
         ('src/check_aggregator_impl.h', 'C15 C16 C17 C29'), ('src/quota_aggregator_impl.h', 'C18 C19 C20 C29'),
         ('src/report_aggregator_impl.h', 'C13 C12'), ('src/signature.h', 'C07'),
         ('src/service_control_client_impl.cc', 'C25 C26 C27 C28 C30'), ('src/service_control_client_impl.h', 'C25 C30'),
         ('utils/simple_lru_cache_inl.h', 'C21 C22 C23 C24'), ('utils/md5.cc', 'C31'), ('utils/md5.h', 'C31'),
         ('utils/simple_lru_cache.h', 'C21')]
SWAPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-])<(?![<=\w])', '<='), (r'(?<![>\-])>(?![>=:(;,&*{])(?= )', '>='), (r'==', '!='), (r'!=', '=='),
         (r'&&', '||'), (r'\|\|', '&&'), (r'(?<![+\w])\+(?![+=])', '-'), (r'(?<= )-(?= )', '+'), (r'\+=', '-='), (r'-=', '+='),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[\w(])', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
         (r'\bif \((?=.*\) \{)', 'if (!!'), (r'\bnullptr\b', 'nullptr'), (r'std::min', 'std::max'), (r'std::max', 'std::min'),
         (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'OK\b', 'Cancelled'), (r'\bstart_time\b', 'end_time'), (r'\bend_time\b', 'start_time'),
         (r'\+\+', '--'), (r'--', '++'), (r'\bnext\b', 'prev'), (r'\bprev\b', 'next'), (r'front\b', 'back'), (r'\b(\w+_)->', None)]


def mutants(path):
    lines = open('/repo/' + path).read().split('\n')
    out = []
    block = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            block = True
        if block:
            block = '*/' not in s
            continue
        if not s or s.startswith(('//', '#', '*', '/*')) or 'DCHECK' in s or 'LOG(' in s or 'assert(' in s:
            continue
        code = l.split('//')[0]
        lit = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"', code)]
        for rx, to in SWAPS:
            if to is None:
                continue
            for m in re.finditer(rx, code):
                if any(a <= m.start() < b for a, b in lit) or code[m.start():m.end()] == to:
                    continue
                if rx.startswith(r'\bif'):
                    # negate the condition of a one-line if
                    j = code.rindex(') {')
                    new = code[:m.start()] + 'if (!(' + code[m.end():j] + ')) {' + code[j + 3:]
                else:
                    new = code[:m.start()] + to + code[m.end():]
                out.append((n, l, new))
        if s.endswith(';') and s.count('(') == s.count(')') and not s.startswith(('return', 'using', 'typedef', 'public', 'private', '}')):
            out.append((n, l, re.match(r' *', l).group(0) + ';'))
        if s.startswith('return ') and s.endswith(';') and 'OK' not in s:
            pass
    seen, res = set(), []
    for x in out:
        if (x[0], x[2]) not in seen and x[1] != x[2]:
            seen.add((x[0], x[2]))
            res.append(x)
    return res


CMD = '''mount --bind {w}/repo /repo; cd /repo
timeout 300 bash /opt/vp/build.sh >{w}/b.log 2>&1 || exit 90
{tests}
export DV_BUILD={w}/build DV_EVID={w}/evid; mkdir -p {w}/build {w}/evid
[ -d {w}/build/pb ] || cp -a {v}/build/pb {w}/build/pb
for p in {props}; do
  o=$(timeout 900 {v}/check $p 2>&1); rc=$?
  echo "$p $rc $(echo "$o" | grep VIOLATION | head -1 | grep -o no-failing-input-found) $(echo "$o" | grep -v VIOLATION | head -1 | cut -c1-200)"
  [ $rc = 0 ] || break
done'''
TESTS = '''timeout 100 bash /opt/vp/test.sh {w}/o.json >{w}/t.log 2>&1
python3 -c "
import json,sys; b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('{w}/o.json'))
sys.exit(0 if len(o['passed']) >= 187 and not o['failed'] else 1)" || {{ [ -n "$RETRY" ] && exit 91; }}
'''


def work(args):
    path, props, (n, old, new) = args
    w = W[0]
    p = w + '/repo/' + path
    src = open('/repo/' + path).read()
    lines = src.split('\n')
    lines[n] = new
    open(p, 'w').write('\n'.join(lines))
    try:
        cmd = CMD.format(w=w, v=VERIF, props=props, tests=TESTS.format(w=w))
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, RETRY='1'))
        out = r.stdout.decode(errors='replace').strip()
        k = {90: 'no build', 91: 'tests'}.get(r.returncode, 'run')
        if k == 'run':
            rcs = re.findall(r'^C\d\d (\d+)', out, re.M)
            k = 'caught' if '1' in rcs else 'broken' if any(x != '0' for x in rcs) else 'survived'
            if k == 'survived' and 'exploration' in out:
                k = 'survived-unproved'
    finally:
        open(p, 'w').write(src)
    return dict(file=path, line=n + 1, old=old.strip(), new=new.strip(), result=k, out=out[-900:] if k not in ('no build', 'tests') else '')


W = [None]


def init():
    W[0] = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', W[0] + '/repo'])


def main():
    out, workers, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else '.'
    per = int(sys.argv[5]) if len(sys.argv) > 5 else 10 ** 6
    rng = random.Random(seed)
    jobs = []
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    for path, props in FILES:
        if re.search(rx, path):
            ms = mutants(path)
            rng.shuffle(ms)
            jobs += [(path, props, m) for m in ms[:per] if (path, m[0] + 1, m[2].strip()) not in done]
    rng.shuffle(jobs)
    print(len(jobs), 'mutants')
    with multiprocessing.Pool(workers, init) as pool, open(out, 'a') as f:
        for d in pool.imap_unordered(work, jobs):
            f.write(json.dumps(d) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
    for d in glob.glob('/tmp/mut_*'):
        if os.path.isdir(d + '/repo'):
            shutil.rmtree(d)
