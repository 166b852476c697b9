"""Builds everything a check needs from /repo's current working tree:
protobuf headers (from the descriptor sets in /verif/proto), LLVM IR of the
translation units, and the native replay drivers."""
import hashlib, os, subprocess, sys, glob, fcntl, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
BUILD = os.environ.get('DV_BUILD', os.path.join(VERIF, 'build'))
PB = os.path.join(BUILD, 'pb')
CLANGXX = '/usr/lib/llvm-18/bin/clang++'
PROTOS = '''google/rpc/status google/api/annotations google/api/servicecontrol/v1/service_controller
google/api/servicecontrol/v1/operation google/api/servicecontrol/v1/quota_controller
google/api/servicecontrol/v1/metric_value google/api/servicecontrol/v1/distribution
google/api/servicecontrol/v1/check_error google/api/servicecontrol/v1/log_entry google/api/http
google/api/launch_stage google/api/metric google/api/label google/logging/type/log_severity google/type/money'''.split()
DESC = [os.path.join(VERIF, 'proto', n) for n in ('wkt.desc', 'googleapis.desc')]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def pb_headers():
    ok = os.path.join(PB, 'ok')
    if os.path.exists(ok):
        return
    os.makedirs(PB, exist_ok=True)
    sh(['protoc', '--descriptor_set_in=' + ':'.join(DESC), '--cpp_out=' + PB] + [p + '.proto' for p in PROTOS])
    open(ok, 'w').write('ok')


def parallel(cmds, n=8):
    """run commands in parallel, raise on the first failure"""
    procs = []
    todo = list(cmds)
    err = None
    while todo or procs:
        while todo and len(procs) < n:
            c = todo.pop(0)
            procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = procs.pop(0)
        out = p.communicate()[0]
        if p.returncode and err is None:
            err = '%s\n%s' % (' '.join(c), out.decode(errors='replace')[-4000:])
    if err:
        raise BuildError(err)


def pb_lib():
    pb_headers()
    lib = os.path.join(PB, 'libpb.a')
    if os.path.exists(lib):
        return lib
    objs, cmds = [], []
    for p in PROTOS:
        o = os.path.join(PB, p.replace('/', '_') + '.o')
        objs.append(o)
        cmds.append(['g++', '-std=c++17', '-O1', '-w', '-I' + PB, '-c', os.path.join(PB, p + '.pb.cc'), '-o', o])
    parallel(cmds)
    sh(['ar', 'rcs', lib + '.tmp'] + objs)
    os.rename(lib + '.tmp', lib)
    return lib


IRFLAGS = ['-std=c++17', '-O0', '-g0', '-fno-exceptions', '-Xclang', '-disable-llvm-passes', '-Xclang',
           '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', '-w']


def ir_cmd(src, out, extra=()):
    return [CLANGXX] + IRFLAGS + list(extra) + ['-I' + REPO, '-I' + PB, '-I' + os.path.join(REPO, 'utils'), src, '-o', out]


def compile_ir(tus, outdir):
    """tus: paths relative to /repo (or absolute).  Returns {tu: path to .ll}"""
    pb_headers()
    os.makedirs(outdir, exist_ok=True)
    res, cmds = {}, []
    for t in tus:
        src = t if os.path.isabs(t) else os.path.join(REPO, t)
        out = os.path.join(outdir, os.path.basename(t).rsplit('.', 1)[0] + '.ll')
        res[t] = out
        cmds.append(['sh', '-c', 'lay="$1"; shift; exec "$@" > "$lay"', 'sh', out[:-3] + '.layout'] +
                    ir_cmd(src, out, ['-Xclang', '-fdump-record-layouts']))
    parallel(cmds)
    return res


LIBSRC = ['src/aggregator_interface.cc', 'src/check_aggregator_impl.cc', 'src/money_utils.cc',
          'src/operation_aggregator.cc', 'src/quota_aggregator_impl.cc', 'src/quota_operation_aggregator.cc',
          'src/report_aggregator_impl.cc', 'src/service_control_client_impl.cc', 'src/signature.cc',
          'utils/distribution_helper.cc', 'utils/md5.cc']


def repo_sources():
    """library sources of /repo: every non-test .cc under src/ and utils/"""
    out = []
    for d in ('src', 'utils'):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.cc'))):
            b = os.path.basename(f)
            if b.endswith('_test.cc') or b.startswith('mock') or 'test' in b:
                continue
            out.append(f)
    return out


def build_driver(name, outdir, sanitize=False, srcs=None, extra=()):
    """compile /verif/drivers/<name>.cc together with /repo's sources"""
    lib = pb_lib()
    os.makedirs(outdir, exist_ok=True)
    objs, cmds = [], []
    flags = ['-std=c++17', '-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-I' + REPO, '-I' + PB] + list(extra)
    if sanitize:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    for s in (srcs if srcs is not None else repo_sources()):
        if not os.path.isabs(s):
            s = os.path.join(REPO, s)
        o = os.path.join(outdir, os.path.relpath(s, REPO).replace('/', '_') + '.o')
        objs.append(o)
        cmds.append(['g++'] + flags + ['-c', s, '-o', o])
    o = os.path.join(outdir, name + '.o')
    objs.append(o)
    cmds.insert(0, ['g++'] + flags + ['-I' + os.path.join(VERIF, 'drivers'), '-c', os.path.join(VERIF, 'drivers', name + '.cc'), '-o', o])
    parallel(cmds)
    exe = os.path.join(outdir, name)
    sh(['g++'] + flags + objs + [lib, '-o', exe, '-lprotobuf', '-lcrypto', '-lpthread'])
    return exe
