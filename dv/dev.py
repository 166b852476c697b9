"""developer helper: python3-vt -m dv.dev specs.money [unit-regex]"""
import sys, importlib, re, time, os
from . import build, unit


def main():
    mod = importlib.import_module(sys.argv[1])
    rx = sys.argv[2] if len(sys.argv) > 2 else '.'
    units = [u for u in mod.UNITS if re.search(rx, u.name)]
    tus = sorted({t for u in units for t in [u.tu] + list(u.mods)})
    out = os.environ.get('DV_IR', '/tmp/dvir')
    t = time.time()
    lls = build.compile_ir(tus, out)
    print('ir %.1fs' % (time.time() - t))
    if os.environ.get('DV_DEBUG'):
        rs = [unit.run_unit(u, lls) for u in units]
    else:
        rs = unit.run_all(units, lls)
    for r in rs:
        st = {}
        for o in r['obls']:
            st[o['status']] = st.get(o['status'], 0) + 1
        print('%-55s paths %d %s err=%s vac=%s %.1fs (solver %.1f) steps %d' % (r['name'], r['paths'], st, r['error'], r['vacuous'],
                                                              r['wall'], r.get('solver_s', 0), r['steps']))
        seen = {}
        for o in r['obls']:
            if o['status'] != 'proved':
                x = (o['status'], o['name'], o['detail'], o['fn'][:60], 'abs' if o['abstracted'] else '')
                seen[x] = seen.get(x, 0) + 1
                if seen[x] > 1:
                    continue
                print('   ', *x)
                if '-v' in sys.argv:
                    print(o['model'])
        if '-l' in sys.argv:
            for l in sorted(set(map(str, r['loops']))):
                print('   loop', l)


main()
