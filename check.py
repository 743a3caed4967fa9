#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--jobs N] [--only ENTRY] | --replay FILE.json | --list

Decides one property of /repo by symbolic execution of its LLVM IR (see DESIGN.md):
  1. compile the property's harness and the /repo sources it uses (current working tree) to LLVM IR, link them
     with the models in rt/, and run every entry function through the symbolic executor (engine/),
  2. replay every counterexample natively (ASan/UBSan, valgrind, TSan or the cooperative scheduler),
  3. replay a sample of the symbolic paths natively and compare their observations,
  4. write evidence/<property>.json.
Exit 0: held on everything within the bounds.  Exit 1: VIOLATION line.  Exit 2: no answer.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, tempfile

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
sys.path.insert(0, V)

DEFS = ('-DAPPLICATION_VERSION_MAJOR=0 -DAPPLICATION_VERSION_MINOR=0 -DAPPLICATION_VERSION_PATCH=0 -DTARGET_PLATFORM=Linux '
        '-DTARGET_ARCHITECTURE=x86_64 -DTESTING -DUSE_LOGGING=0 '
        '-DASIO_HAS_MOVE -DASIO_HAS_STD_ARRAY -DASIO_HAS_STD_ATOMIC -DASIO_HAS_STD_SHARED_PTR -DASIO_HAS_STD_CHRONO '
        '-DASIO_HAS_STD_SYSTEM_ERROR -DASIO_HAS_VARIADIC_TEMPLATES -DBOOST_ASIO_HAS_MOVE -DBOOST_ASIO_HAS_STD_ARRAY '
        '-DBOOST_ASIO_HAS_STD_ATOMIC -DBOOST_ASIO_HAS_STD_SHARED_PTR -DBOOST_ASIO_HAS_STD_CHRONO -DBOOST_ASIO_HAS_VARIADIC_TEMPLATES '
        '-DBOOST_FILESYSTEM_NO_DEPRECATED -DBOOST_FILESYSTEM_VERSION=3 -DBOOST_THREAD_VERSION=4 -DBOOST_RESULT_OF_USE_DECLTYPE '
        '-DNDEBUG -D_FILE_OFFSET_BITS=64 -DHAVE_PTHREAD -DMAIDSAFE_LINUX -DCOMPANY_NAME=MaidSafe -DAPPLICATION_NAME=Common '
        '-include memory -include cassert').split()
INC = ['-I' + V + '/shim', '-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO + '/include', '-I' + REPO + '/src']
SAN = 'signed-integer-overflow,integer-divide-by-zero,shift-exponent,bounds,return,unreachable,float-cast-overflow'
IRFLAGS = ['-O1', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin',
           '-D_GLIBCXX_ASSERTIONS', '-DSYMBOLIC', '-gline-tables-only', '-w', '-emit-llvm', '-c']
NATFLAGS = ['-U_FORTIFY_SOURCE', '-g', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-c']


def sh(cmd, timeout=900, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        r = subprocess.CompletedProcess(cmd, 124, e.stdout or b'', (e.stderr or b'') + b'\ntimeout')
        return r


class Error(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def ensure_engine():
    """The executor and the library models: built from committed sources, rebuilt when those change."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ef = [os.path.join(V, 'engine', f) for f in os.listdir(V + '/engine')]
        rf = [os.path.join(V, 'rt', f) for f in ('rt_std.cc', 'rt_io.cc', 'rt_libc.c', 'sym.h')]
        d1, d2 = digest(ef), digest(rf, ' '.join(IRFLAGS))
        st = os.path.join(BUILD, 'engine.stamp')
        if not (os.path.exists(BUILD + '/symex') and os.path.exists(st) and open(st).read() == d1):
            r = sh(['bash', V + '/engine/build.sh', BUILD])
            if r.returncode:
                raise Error('engine build failed:\n' + r.stderr.decode()[-3000:])
            open(st, 'w').write(d1)
        st = os.path.join(BUILD, 'rt.stamp')
        if not (os.path.exists(BUILD + '/rt_std.bc') and os.path.exists(st) and open(st).read() == d2):
            cx = ['clang++', '-std=c++14', '-fno-access-control', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] + IRFLAGS
            r1 = sh(cx + [V + '/rt/rt_std.cc', '-o', BUILD + '/rt_std.bc'])
            r3 = sh(cx + [V + '/rt/rt_io.cc', '-o', BUILD + '/rt_io.bc'])
            r2 = sh(['clang', '-std=c11'] + IRFLAGS + [V + '/rt/rt_libc.c', '-o', BUILD + '/rt_libc.bc'])
            if r1.returncode or r2.returncode or r3.returncode:
                raise Error('runtime build failed:\n' + (r1.stderr + r2.stderr + r3.stderr).decode()[-3000:])
            open(st, 'w').write(d2)


def resolve(f):
    """'x.cc' in harness/, or a /repo source path."""
    if f.startswith('src/') or f.startswith('include/'):
        return os.path.join(REPO, f)
    return os.path.join(V, 'harness', f)


class Builder:
    def __init__(self, spec, work):
        self.s, self.w = spec, work
        self.units = [spec['harness']] + spec.get('sources', []) + spec.get('stubs', [])

    def flags(self, f):
        std = self.s.get('std', 'c++17')
        return ['-std=' + std] + DEFS + INC + self.s.get('flags', []) + self.s.get('unit_flags', {}).get(f, [])

    def par(self, cmds):
        with cf.ThreadPoolExecutor(8) as ex:
            for f, r in ex.map(lambda c: (c[0], sh(c[1])), cmds):
                if r.returncode:
                    raise Error('compilation of %s failed:\n%s' % (f, '\n'.join([l for l in r.stderr.decode(errors='replace').split('\n') if 'error' in l][:12])))

    def ir(self):
        cmds, outs = [], []
        for f in self.units:
            o = os.path.join(self.w, re.sub(r'\W', '_', f) + '.bc')
            outs.append(o)
            san = [] if f in self.s.get('stubs', []) else ['-fsanitize=' + self.s.get('san', SAN), '-fsanitize-trap=all']
            if self.s.get('san', SAN) == '':
                san = []
            cmds.append((f, ['clang++'] + self.flags(f) + IRFLAGS + san + [resolve(f), '-o', o]))
        self.par(cmds)
        out = os.path.join(self.w, 'all.bc')
        r = sh(['llvm-link-18', '-o', out] + outs + [BUILD + '/rt_std.bc', BUILD + '/rt_io.bc', BUILD + '/rt_libc.bc'])
        if r.returncode:
            raise Error('llvm-link failed:\n' + r.stderr.decode()[-3000:])
        return out

    def native(self, kind):
        """kind: asan (default replay), plain (valgrind), coop (cooperative scheduler), tsan"""
        out = os.path.join(self.w, 'native_' + kind)
        if os.path.exists(out):
            return out
        san = {'asan': ['-fsanitize=address,' + (self.s.get('san', SAN) or 'return'), '-fno-sanitize-recover=all'],
               'plain': [], 'coop': ['-DCOOP'], 'tsan': ['-fsanitize=thread']}[kind]
        cmds, objs = [], []
        d = out + '.o'
        os.makedirs(d, exist_ok=True)
        for f in self.units + ['../rt/native.cc']:
            o = os.path.join(d, re.sub(r'\W', '_', f) + '.o')
            objs.append(o)
            fl = ['-std=c++17'] + INC if f.endswith('native.cc') else self.flags(f)
            cmds.append((f, ['g++'] + fl + NATFLAGS + san + [resolve(f), '-o', o]))
        self.par(cmds)
        r = sh(['g++', '-rdynamic', '-o', out + '.tmp'] + [x for x in san if not x.startswith('-D')] + objs + ['-ldl', '-lpthread'] + self.s.get('libs', []))
        if r.returncode:
            raise Error('native link failed:\n' + r.stderr.decode()[-3000:])
        os.rename(out + '.tmp', out)
        return out


def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, w, v in inputs:
            f.write('%s %d %s\n' % (n, w, v))


def native_run(prog, entry, arg, inp, out, kind='asan', timeout=30):
    env = dict(os.environ)
    env['REPLAY_TIMEOUT'] = str(timeout)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=50:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'exitcode=51:halt_on_error=1'
    env['TSAN_OPTIONS'] = 'exitcode=52:halt_on_error=1:report_thread_leaks=0'
    cmd = [prog, entry, str(arg), inp, out]
    if kind == 'valgrind':
        cmd = ['valgrind', '-q', '--error-exitcode=53', '--exit-on-first-error=yes', '--undef-value-errors=yes'] + cmd
        env['REPLAY_TIMEOUT'] = str(timeout * 4)
    cwd = os.path.dirname(out)
    r = sh(cmd, timeout=timeout * 5, env=env, cwd=cwd, stdin=subprocess.DEVNULL)
    return r


def reproduced(kind, rc, err):
    """Did the native run show a failure of this kind?"""
    if rc == 42:
        return True  # a property assertion failed in the real code
    if kind in ('memory',):
        return rc in (50, 51, 53) or rc < 0
    if kind in ('undefined-behaviour',):
        return rc in (50, 51, 53) or rc < 0
    if kind == 'data-race':
        return rc == 52
    if kind == 'deadlock':
        return rc in (44, 45, 124)
    if kind == 'hang':
        return rc in (45, 124) or rc < 0
    if kind == 'terminate':
        return rc in (43,) or rc == -6
    if kind == 'abort':
        return rc == -6 or rc in (50, 51)
    if kind == 'assert':
        return rc in (42, 50, 51, 53) or rc == -6
    if kind == 'exit':
        return True
    return rc not in (0, 97, 98)


KF = os.path.join(V, 'known_findings.txt')


def known_findings(prop):
    """lines  'known: property=<id> entry=<re> kind=<kind> at=<re on message and stack functions> :: <text>'"""
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            m = re.match(r'known: property=(\S+) entry=(\S+) kind=(\S+) at=(\S+) :: (.*)', l)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def match_known(kf, entry, v):
    text = '_'.join((v['msg'] + ' ' + ' '.join(v['stack'])).split())
    for (e, k, at, desc) in kf:
        if re.fullmatch(e, entry) and k == v['kind'] and re.search(at, text):
            return desc
    return None


def demangle(names):
    if not names:
        return []
    r = sh(['c++filt'], input='\n'.join(names).encode())
    return r.stdout.decode().split('\n')[:len(names)]


def run_entry(bc, e, arg, work, seed, tlimit, known):
    out = os.path.join(work, 'o_%s_%s.json' % (e['name'], arg))
    # a violation ends the other runs soon (unless known ones are expected)
    found = [] if known else ['--found', os.path.join(work, 'found')]
    cmd = [BUILD + '/symex', bc, '--entry', e['name'], '--arg', str(arg), '--out', out, '--seed', str(seed),
           '--max-time', str(int(tlimit)), '--max-rss', '3600', '--samples', str(e.get('samples', 12))] + found + e.get('opts', [])
    r = sh(cmd, timeout=tlimit + 60)
    if r.returncode != 0 or not os.path.exists(out):
        return e, arg, None, r.stderr.decode()[-1500:] + ' rc=%d' % r.returncode
    return e, arg, json.load(open(out)), r.stderr.decode()


def main():
    args = sys.argv[1:]
    import specs
    if '--list' in args:
        for p in specs.SPECS:
            print(p)
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    rest = []
    i = 0
    replay = None
    keep = False
    while i < len(args):
        if args[i] == '--tier': tier = args[i + 1]; i += 2
        elif args[i] == '--only': only = args[i + 1]; i += 2
        elif args[i] == '--replay': replay = args[i + 1]; i += 2
        elif args[i] == '--keep': keep = True; i += 1
        elif args[i] == '--setup': ensure_engine(); return 0
        else: rest.append(args[i]); i += 1
    if replay:
        return do_replay(replay, specs)
    prop = rest[0]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    spec = specs.SPECS[prop]
    t0 = time.time()
    ensure_engine()
    parent = os.path.join(BUILD, 'work')
    os.makedirs(parent, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=parent)
    try:
        return decide(prop, spec, tier, seed, only, work, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def decide(prop, spec, tier, seed, only, work, t0):
    specs_list = [spec] if 'harness' in spec else spec['parts']
    total = dict(paths=0, insts=0, forks=0, queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts=0,
                 assert_queries=0, infeasible=0, truncated=0)
    reached, functions, problems, entries_run, samples_out = {}, set(), [], [], []
    viol, found_known, validated = [], [], 0
    quick_budget = 840 if tier == 'quick' else 6000
    deadline = t0 + quick_budget
    kf = known_findings(prop)
    for si, sp in enumerate(specs_list):
        w = os.path.join(work, 's%d' % si)
        os.makedirs(w)
        b = Builder(sp, w)
        with cf.ThreadPoolExecutor(2) as ex:
            fn = ex.submit(b.native, 'coop' if sp.get('threads') else 'asan')
            bc = b.ir()
            native = fn.result()
        jobs = []
        for e in sp['entries']:
            if only and e['name'] != only:
                continue
            for a in (e.get('thorough') or e['quick']) if tier == 'thorough' else e['quick']:
                jobs.append((e, a))
        # biggest first
        jobs.sort(key=lambda j: -j[0].get('cost', 1) * (abs(j[1]) + 1))
        results = []
        with cf.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            fs = []
            for e, a in jobs:
                tl = e.get('time', 600 if tier == 'quick' else 3000)
                fs.append(ex.submit(lambda e=e, a=a, tl=tl: run_entry(bc, e, a, w, seed, min(tl, max(5, deadline - 60 - time.time())), kf)))
            for f in fs:
                results.append(f.result())
        for (e, a, j, err) in results:
            name = '%s(%s)' % (e['name'], a)
            if j is None:
                problems.append('%s: engine error: %s' % (name, err))
                continue
            for k in total:
                total[k] += j[k]
            for k, n in j['reached'].items():
                reached[k] = reached.get(k, 0) + n
            functions.update(j['functions'])
            entries_run.append(dict(entry=name, paths=j['paths'], instructions=j['insts'], queries=j['queries'], solver_s=j['solver_s'],
                                    asserts=j['asserts'], complete=j['complete'], wall_s=j['wall_s']))
            if j['missing']:
                problems.append('%s: calls a function that is not modelled: %s' % (name, demangle(j['missing'][:4])))
            if not j['complete'] and not j['violations']:
                problems.append('%s: incomplete: %s (fork sites %s)' % (name, j['incomplete'][:3], j['fork_sites'][:3]))
            if j['paths'] == 0 and not j['violations']:
                problems.append('%s: no path reaches the end (vacuous)' % name)
            for v in j['violations']:
                viol.append((sp, b, e, a, v))
        # validate sampled paths against the real code
        todo = []
        for (e, a, j, err) in results:
            if j:
                for s in j['samples']:
                    if not s['uninit'] and e.get('validate', True):
                        todo.append((e, a, s))
        cap = 240 if tier == 'quick' else 1500
        if len(todo) > cap:
            step = len(todo) / cap
            todo = [todo[int(i * step)] for i in range(cap)]

        def val(t):
            (i, (e, a, s)) = t
            inp, out = os.path.join(w, 's%d.in' % i), os.path.join(w, 'v%d' % i, 'out')
            os.makedirs(os.path.dirname(out), exist_ok=True)
            write_inputs(inp, s['inputs'])
            r = native_run(native, e['name'], a, inp, out)
            tr = []
            ended = False
            if os.path.exists(out):
                for l in open(out, errors='replace'):
                    if l.startswith('T '): p = l.split(); tr.append((' '.join(p[1:-1]), int(p[-1], 16)))
                    if l.startswith('END'): ended = True
            want = [(x, int(y, 16)) for x, y in s['trace']]
            return e, a, s, r, ended, tr, want
        with cf.ThreadPoolExecutor(8) as ex:
            for (e, a, s, r, ended, tr, want) in ex.map(val, enumerate(todo)):
                if r.returncode == 0 and ended and tr == want:
                    validated += 1
                    if len(samples_out) < 12:
                        samples_out.append(dict(entry='%s(%s)' % (e['name'], a), inputs=s['inputs'][:24], observed=[[x, hex(y)] for x, y in want[:12]]))
                else:
                    problems.append('%s(%s): symbolic path and real execution disagree (rc=%d, inputs %s, symbolic %s, real %s) %s' % (
                        e['name'], a, r.returncode, s['inputs'][:12], want[:8], tr[:8], r.stderr.decode(errors='replace')[-600:]))
        if not only:
            for e in sp['entries']:
                for l in e.get('expect', []):
                    if l not in reached:
                        problems.append('vacuity guard: %s never reached label "%s"' % (e['name'], l))
    # counterexamples
    confirmed = []
    seen = set()
    os.makedirs(V + '/evidence', exist_ok=True)
    rdir = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for (sp, b, e, a, v) in viol:
        d = match_known(kf, e['name'], v)
        if d:
            if d not in found_known:
                found_known.append(d)
            continue
        key = (e['name'], v['kind'], v['msg'])
        if key in seen or len(confirmed) >= 3:
            continue
        seen.add(key)
        n = len(confirmed) + 1
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        ok, how, err = confirm(sp, b, e, a, v, work)
        if ok:
            json.dump(dict(property=prop, entry=e['name'], arg=a, kind=v['kind'], message=v['msg'], location=v['loc'], inputs=v['inputs'],
                           stack=v['stack'], replayed_with=how, real_output=err[-3000:]), open(path, 'w'), indent=1)
            confirmed.append((path, v, e, a, how))
        else:
            problems.append('%s(%s): counterexample (%s: %s at %s, inputs %s) did not reproduce natively (%s): %s' % (
                e['name'], a, v['kind'], v['msg'], v['loc'], v['inputs'][:20], how, err[-800:]))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=len(confirmed),
              assumptions=spec.get('assumptions', []),
              coverage=dict(states=total['paths'], transitions=total['insts'], traces_validated_against_impl=validated, samples=samples_out[:8],
                            exhaustive=not problems and not total['truncated'],
                            rule='state = one feasible path condition explored to its end (a set of inputs/schedules decided by the solver); transition = one LLVM IR instruction of the real code executed symbolically',
                            bounds=spec.get('bounds', ''), bounds_thorough=spec.get('bounds_thorough', ''),
                            functions_encoded=sorted(x for x in demangle(sorted(functions)) if 'maidsafe' in x)[:200],
                            forks=total['forks'], infeasible_forks=total['infeasible'], truncated_paths=total['truncated'],
                            assertions_checked=total['asserts'], assertion_queries=total['assert_queries'],
                            queries=total['queries'], query_cache_hits=total['cache_hits'], queries_sat=total['sat'], queries_unsat=total['unsat'],
                            queries_unknown=total['unknown'], solver_s=round(total['solver_s'], 2), solver='z3 4.8.12 (QF_BV/QF_ABVFP over the engine\'s bit-vector terms)',
                            reached=reached, entries=entries_run, problems=problems, known_findings=found_known))
    if not only:
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for d in found_known:
        log('KNOWN-FINDING: property=%s %s' % (prop, d))
    for p in problems:
        log('PROBLEM: ' + p)
    log('%s %s: %d paths, %d queries (%d unsat, %d sat), %d assertions, solver %.1fs, %d native validations, wall %.1fs' % (
        prop, tier, total['paths'], total['queries'], total['unsat'], total['sat'], total['asserts'], total['solver_s'], validated, time.time() - t0))
    if confirmed:
        for (path, v, e, a, how) in confirmed:
            log('  %s(%s): %s: %s at %s [%s]' % (e['name'], a, v['kind'], v['msg'], v['loc'], how))
            log('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 2 if problems else 0


def confirm(sp, b, e, a, v, work):
    d = tempfile.mkdtemp(dir=work)
    inp, out = os.path.join(d, 'in'), os.path.join(d, 'out')
    write_inputs(inp, v['inputs'])
    tries = []
    threads = sp.get('threads')
    if v['kind'] == 'data-race':
        prog = b.native('tsan')
        for _ in range(40):
            r = native_run(prog, e['name'], a, inp, out)
            if r.returncode == 52:
                return True, 'ThreadSanitizer', r.stderr.decode(errors='replace')
        return False, 'ThreadSanitizer x40', r.stderr.decode(errors='replace')
    kinds = ['coop'] if threads else ['asan']
    if v['uninit']:
        kinds = ['valgrind'] + kinds
    elif v['kind'] in ('memory', 'undefined-behaviour'):
        kinds += ['valgrind']
    if v['kind'] in ('memory', 'undefined-behaviour', 'terminate', 'abort', 'assert') and threads:
        kinds += ['asan']
    last = ''
    for k in kinds:
        prog = b.native('plain' if k == 'valgrind' and not threads else 'coop' if k == 'valgrind' else k)
        r = native_run(prog, e['name'], a, inp, out, k, timeout=10 if v['kind'] in ('hang', 'deadlock') else 30)
        err = r.stderr.decode(errors='replace')
        if reproduced(v['kind'], r.returncode, err) or (v['uninit'] and r.returncode == 53):
            return True, k, err
        last += '[%s rc=%d] %s' % (k, r.returncode, err[-400:])
    return False, '+'.join(kinds), last


def do_replay(path, specs):
    j = json.load(open(path))
    spec = specs.SPECS[j['property']]
    ensure_engine()
    work = tempfile.mkdtemp(prefix='replay-')
    try:
        for sp in ([spec] if 'harness' in spec else spec['parts']):
            for e in sp['entries']:
                if e['name'] == j['entry']:
                    v = dict(kind=j['kind'], msg=j['message'], inputs=j['inputs'], uninit=j['replayed_with'] == 'valgrind', stack=[], loc='')
                    ok, how, err = confirm(sp, Builder(sp, work), e, j['arg'], v, work)
                    print(err)
                    print('reproduced' if ok else 'not reproduced', 'with', how)
                    return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Error as ex:
        log('ERROR: %s' % ex)
        sys.exit(2)
