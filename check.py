#!/usr/bin/env python3
"""Solver-based checks for paho.mqtt-sn.embedded-c.

  check.py PROPERTY [quick|thorough]     run one property's check
  check.py --setup                       build the engine and warm the object cache
  check.py --job HARNESS k=v ...         run one harness, print the raw result (development)

Every run recompiles the code under test from /repo's current working tree (objects are
cached by the content of every source and header they can see), links it with a harness,
executes it symbolically with engine/symx (SMT solver: Z3) and replays whatever the solver
returns against a native AddressSanitizer build of the same sources.
"""
import sys, os, json, hashlib, subprocess, time, glob, shutil, re, resource
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import props as registry

BUILD = os.path.join(V, 'build')
ENG, RT, HARN = V + '/engine', V + '/rt', V + '/harness'
SYMX = ENG + '/symx'
NCPU = min(8, os.cpu_count() or 4)
PASSES = 'internalize,globaldce,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg'
BASE = ['-O0', '-g', '-w', '-ftrivial-auto-var-init=pattern']
IRF = ['-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c']
NATF = ['-fsanitize=address', '-fno-omit-frame-pointer', '-c']
TSANF = ['-fsanitize=thread', '-fno-omit-frame-pointer', '-c']      # harnesses with threads are replayed under ThreadSanitizer
REDEF = sum((['--redefine-sym', '%s=symt_%s' % p] for p in (('pthread_mutex_lock', 'lock'), ('pthread_mutex_unlock', 'unlock'), ('sem_init', 'sinit'), ('sem_post', 'spost'), ('sem_wait', 'swait'), ('sem_timedwait', 'stimedwait'))), [])
G, P = REPO + '/MQTTSNGateway/src', REPO + '/MQTTSNPacket/src'


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    if r.returncode:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), (r.stdout + r.stderr).decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def readb(p):
    with open(p, 'rb') as f:
        return f.read()


_locks, _ll = {}, threading.Lock()


def lock(k):
    with _ll:
        return _locks.setdefault(k, threading.Lock())


# ------------------------------------------------------------------ groups: the code under test
def group(name):
    """(sources, include dirs) of the code under test; globbed, so new files are picked up."""
    pk = sorted(glob.glob(P + '/*.c'))
    if name == 'packet':
        return pk, [P]
    if name == 'none':
        return [], [P, G, G + '/linux', G + '/linux/udp']
    skip = ('mainGateway.cpp', 'mainLogmonitor.cpp')
    gw = [f for f in sorted(glob.glob(G + '/*.cpp')) if os.path.basename(f) not in skip] + sorted(glob.glob(G + '/linux/*.cpp'))
    if name == 'gateway':
        return pk + gw + sorted(glob.glob(G + '/linux/udp/*.cpp')), [G, G + '/linux', G + '/linux/udp', P]
    if name.startswith('net-'):           # one sensor network port with the packet library and the OS layer
        n = 'dtls' if name == 'net-dtls6' else name[4:]
        keep = ('MQTTSNGWProcess.cpp', 'MQTTSNGWPacket.cpp')
        return pk + [f for f in gw if os.path.basename(f) in keep or '/linux/' in f] + sorted(glob.glob(G + '/linux/%s/*.cpp' % n)), [G, G + '/linux', G + '/linux/' + n, P]
    if name in ('tester', 'tester6'):     # the client library of the gateway tester, UDP port
        t = G[:-len('/src')] + '/GatewayTester/src'
        return sorted(glob.glob(t + '/*.cpp')), [t]
    raise CheckError('unknown group ' + name)


def headers_digest(incs):
    h = []
    for d in incs:
        for f in sorted(glob.glob(d + '/*.h')) + sorted(glob.glob(d + '/*.h.in')):
            h.append(f.encode() + b'\0' + readb(f))
    for f in sorted(glob.glob(RT + '/*.h')) + sorted(glob.glob(HARN + '/*.h')):
        h.append(f.encode() + b'\0' + readb(f))
    return digest(*h)


def compile_tu(src, kind, flags, hd):
    """kind: ir | nat | tsan. Returns the object path (cached)."""
    os.makedirs(BUILD + '/obj', exist_ok=True)
    cxx = src.endswith('.cpp')
    cmd = (['clang++', '-std=c++11'] if cxx else ['clang']) + BASE + flags + {'ir': IRF, 'nat': NATF, 'tsan': TSANF}[kind]
    key = digest(readb(src), src, hd, *cmd)
    out = '%s/obj/%s-%s.%s' % (BUILD, os.path.basename(src).replace('.', '_'), key, 'bc' if kind == 'ir' else 'o')
    with lock(out):
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            sh(cmd + [src, '-o', tmp])
            os.rename(tmp, out)
        else:
            os.utime(out)
    return out


def build_engine():
    with lock('engine'):
        srcs = [ENG + '/' + f for f in ('symx.cpp', 'expr.h', 'solver.h', 'builtins.h', 'Makefile')]
        key = digest(*[readb(s) for s in srcs])
        st = BUILD + '/engine.key'
        if os.path.exists(SYMX) and os.path.exists(st) and open(st).read() == key:
            return
        os.makedirs(BUILD, exist_ok=True)
        if os.path.exists(SYMX):
            os.remove(SYMX)
        sh(['make', '-s', '-C', ENG])
        open(st, 'w').write(key)


def build(harness, grp, defs, pool, native=True):
    """Returns (bitcode, executable) for a harness."""
    srcs, incs = group(grp)
    hsrc = HARN + '/' + harness
    inc = sum((['-I', d] for d in incs), []) + ['-I', RT, '-I', HARN]
    hd = headers_digest(incs)
    hflags = ['-DVERIF_HARNESS'] + ['-D' + d for d in defs]
    tflags = list(registry.GROUP_FLAGS.get(grp, []))
    acc = ['-fno-access-control'] if hsrc.endswith('.cpp') else []
    thr = b'sym_thread(' in readb(hsrc)
    natk = 'tsan' if thr else 'nat'
    jobs = []
    for kind in ('ir', natk) if native else ('ir',):
        for s in srcs:
            jobs.append((kind, pool.submit(compile_tu, s, kind, inc + tflags, hd)))
        jobs.append((kind, pool.submit(compile_tu, hsrc, kind, inc + hflags + acc + tflags, hd)))
        if kind == 'ir':
            jobs.append((kind, pool.submit(compile_tu, RT + '/libc.c', kind, ['-fno-builtin', '-I', RT], hd)))
            jobs.append((kind, pool.submit(compile_tu, RT + '/cxxrt.cpp', kind, ['-I', RT], hd)))
        else:
            jobs.append((kind, pool.submit(compile_tu, RT + '/native.c', kind, ['-I', RT], hd)))
            if thr:
                jobs.append((kind, pool.submit(compile_tu, RT + '/native_thr.c', kind, ['-I', RT], hd)))
            jobs.append((kind, pool.submit(compile_tu, RT + '/putlog.cpp', kind, ['-I', RT], hd)))
    ir = [j.result() for k, j in jobs if k == 'ir']
    nat = [j.result() for k, j in jobs if k == natk]
    hir = ir[len(srcs)]
    os.makedirs(BUILD + '/link', exist_ok=True)
    hb = os.path.splitext(harness)[0].replace('/', '_')
    key = digest(*ir, PASSES)
    bc = '%s/link/%s-%s.bc' % (BUILD, hb, key)
    exe = '%s/link/%s-%s.exe' % (BUILD, hb, digest(*nat, 'v2')) if native else None

    def link_bc():
        with lock(bc):
            if not os.path.exists(bc):
                t = bc + '.%d' % os.getpid()
                sh(['llvm-link'] + [x for x in ir if x != hir] + ['--override=' + hir, '-o', t + '.0'])
                sh(['opt', '-passes=' + PASSES, '-internalize-public-api-list=sym_main', t + '.0', '-o', t + '.1'])
                os.remove(t + '.0')
                os.rename(t + '.1', bc)

    def link_exe():
        with lock(exe):
            if not os.path.exists(exe):
                t = exe + '.%d.d' % os.getpid()
                os.makedirs(t)
                objs = []
                for i, o in enumerate(nat):      # logging is a no-op on both sides; a harness may define a function of the code's
                    q = '%s/%d.o' % (t, i)
                    if 'putlog' in os.path.basename(o) or os.path.basename(o).startswith(os.path.basename(harness).replace('.', '_')):
                        shutil.copy(o, q)
                    elif os.path.basename(o).startswith('native_'):
                        shutil.copy(o, q)
                    else:
                        sh(['objcopy', '--weaken'] + (REDEF if thr else []) + [o, q])
                    objs.append(q)
                sh(['clang++', '-fsanitize=thread' if thr else '-fsanitize=address'] + objs + ['-o', t + '/x', '-lpthread', '-lrt'] + registry.GROUP_LIBS.get(grp, []))
                os.rename(t + '/x', exe)
                shutil.rmtree(t)
    fs = [pool.submit(link_bc)] + ([pool.submit(link_exe)] if native else [])
    for f in fs:
        f.result()
    return bc, exe


# ------------------------------------------------------------------ running
def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))


def run_symx(bc, job, tier, seed, outdir, known):
    out = '%s/%s.json' % (outdir, job['name'])
    tl = job.get('time', 300)
    cmd = [SYMX, bc, '--out', out, '--time', str(tl), '--seed', str(seed), '--samples', str(job.get('samples', 6)), '--max-viol', str(job.get('max_viol', 6)),
           '--max-paths', str(job.get('max_paths', 4000000)), '--max-steps', str(job.get('max_steps', 3000000))]
    if job.get('races'):
        cmd += ['--races']
    if 'switches' in job:
        cmd += ['--switches', str(job['switches'])]
    if job.get('dump'):
        cmd += ['--dump', job['dump']]
    for k, v in sorted(job.get('params', {}).items()):
        cmd += ['--param', '%s=%s' % (k, v)]
    if known:
        cmd += ['--param', 'known=' + ','.join(known)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tl + 60, preexec_fn=limit_mem)
    except subprocess.TimeoutExpired:
        raise CheckError('%s: engine did not stop within its budget' % job['name'])
    if r.returncode or not os.path.exists(out):
        raise CheckError('%s: engine failed (%d): %s' % (job['name'], r.returncode, r.stderr.decode(errors='replace')[-1000:]))
    return json.load(open(out))


def run_native(exe, job, inputs, sched, tmp, timeout=15):
    """Run the real code on one assignment. Returns dict(events, crash, timeout, text)."""
    tf = tmp + '.in'
    with open(tf, 'w') as f:
        for n, h in inputs:
            f.write('%s %s\n' % (n, h))
    of = tmp + '.ev'
    env = dict(PATH=os.environ.get('PATH', ''), SYM_TEST=tf, SYM_PARAMS=','.join('%s=%s' % kv for kv in sorted(job.get('params', {}).items())),
               SYM_SCHED=','.join(sched or []), TSAN_OPTIONS='exitcode=0:report_bugs=1:halt_on_error=0',
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=190:max_malloc_fill_size=100000000:detect_stack_use_after_return=0:strict_string_checks=0:replace_str=1:allocator_may_return_null=0')
    to = False
    with open(of, 'wb') as ev:
        fd = ev.fileno()

        def pre():
            if fd == 3:
                os.set_inheritable(3, True)
            else:
                os.dup2(fd, 3, inheritable=True)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, preexec_fn=pre, close_fds=False, cwd=os.path.dirname(tmp), start_new_session=True)
        try:
            text, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            text, _ = p.communicate()
    ev = []
    for line in readb(of).decode(errors='replace').splitlines():
        if line.startswith('@'):
            k, rest = line[1:].split(' ', 1)
            l, v = rest.rsplit(' ', 1)
            ev.append((k, l, int(v)))
    text = text.decode(errors='replace')
    crash = None
    m = re.search(r'ERROR: (?:Address|Thread)Sanitizer:? ?([\w-]+)', text)
    if m:
        crash = m.group(1)
    elif 'WARNING: ThreadSanitizer' in text:
        crash = re.search(r'WARNING: ThreadSanitizer: ([^(\n]+)', text).group(1).strip()
    elif p.returncode < 0 and not to:
        crash = 'signal %d' % -p.returncode
    elif 'terminate called' in text:
        crash = 'uncaught exception'
    for f in (tf, of):
        os.remove(f)
    return dict(events=ev, crash=crash, timeout=to, text=text[-6000:], rc=p.returncode)


def confirms(v, n):
    if any(e[0] == 'DESYNC' for e in n['events']):
        return False
    if v['kind'] == 'assert':
        return any(e[0] == 'FAIL' and e[1] == v['label'] for e in n['events']) or bool(n['crash'])
    if v['kind'] in ('hang', 'deadlock'):
        return n['timeout'] or bool(n['crash'])
    if v['label'] == 'abort:exit' and not n['timeout'] and not any(e[0] in ('END', 'ASSUME') for e in n['events']):
        return True                       # the code ended the process
    return bool(n['crash']) or n['timeout'] or any(e[0] == 'FAIL' for e in n['events'])


def load_known(pid):
    out = {}
    for line in open(V + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line.strip())
        if m and (pid is None or m.group(1) == pid):
            out[m.group(2)] = m.group(3)
    return out


def prune():
    fs = []
    for d in ('obj', 'link'):
        for f in glob.glob(BUILD + '/%s/*' % d):
            try:
                fs.append((os.path.getmtime(f), os.path.getsize(f), f))
            except OSError:
                pass
    fs.sort(reverse=True)
    tot = 0
    for mt, sz, f in fs:
        tot += sz
        if tot > 3 << 30 and time.time() - mt > 3600 and os.path.isfile(f):
            os.remove(f)


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = registry.PROPS[pid]
    known = load_known(pid)
    evd = V + '/evidence'
    os.makedirs(evd, exist_ok=True)
    work = '%s/run/%s-%s-%d' % (BUILD, pid, tier, os.getpid())
    os.makedirs(work)
    jobs = []
    for j in prop['jobs']:
        if j.get('tier', 'quick') == 'thorough' and tier != 'thorough':
            continue
        if j.get('tier') == 'quick-only' and tier != 'quick':
            continue
        j = dict(j)
        if tier == 'thorough':
            j['params'] = dict(j.get('params', {}), **j.get('thorough', {}))
            j['switches'] = j.get('thorough_switches', j.get('switches', 0)) if 'switches' in j else 0
            if not j['switches']:
                j.pop('switches')
            j['time'] = j.get('thorough_time', j.get('time', 300) * 6)
            j['samples'] = 40
            j.setdefault('dump', None)
        j['name'] = re.sub(r'\W+', '_', os.path.splitext(j['h'])[0] + ('-' + j['group'] if j.get('group') else '') + ''.join('-%s%s' % kv for kv in sorted(j.get('params', {}).items())))
        while any(j['name'] == o['name'] for o in jobs):
            j['name'] += '_'
        jobs.append(j)
    jobs.sort(key=lambda j: -j.get('cost', j.get('time', 300)))
    cpool, rpool = ThreadPoolExecutor(NCPU), ThreadPoolExecutor(NCPU)
    fe = cpool.submit(build_engine)
    builds, lk = {}, threading.Lock()

    def get_build(j):
        k = (j['h'], j['group'], tuple(j.get('defs', [])))
        with lk:
            if k not in builds:
                builds[k] = (threading.Lock(), [])
            l, r = builds[k]
        with l:
            if not r:
                try:
                    r.append(build(j['h'], j['group'], list(k[2]), cpool))
                except Exception as e:
                    r.append(e)
        if isinstance(r[0], Exception):
            raise r[0]
        return r[0]
    stop = threading.Event()

    def do(j):
        if stop.is_set():
            return None
        t1 = time.time()
        bc, exe = get_build(j)
        fe.result()
        res = run_symx(bc, j, tier, seed, work, [k for k in known])
        val, bad = 0, []
        if not res['violations']:
            for i, s in enumerate(res['samples']):
                n = run_native(exe, j, s['inputs'], s.get('sched'), '%s/%s.s%d' % (work, j['name'], i), timeout=60)
                obs = [[l, v] for k, l, v in n['events'] if k == 'OBS']
                if n['crash'] or n['timeout'] or any(e[0] in ('FAIL', 'DESYNC', 'ASSUME') for e in n['events']) or obs != s['obs']:
                    bad.append((s, n, obs))
                else:
                    val += 1
        conf, unconf, kn = [], [], []
        for i, v in enumerate(res['violations']):
            n = run_native(exe, j, v['inputs'], v.get('sched'), '%s/%s.v%d' % (work, j['name'], i))
            (conf if confirms(v, n) else unconf).append((v, n))
            if conf:
                stop.set()
        for i, v in enumerate(res['known']):
            if v['known'] in [x[0]['known'] for x in kn]:
                continue
            n = run_native(exe, j, v['inputs'], v.get('sched'), '%s/%s.k%d' % (work, j['name'], i))
            if confirms(v, n):
                kn.append((v, n))
            elif v['known'] not in known:
                unconf.append((v, n))
        return dict(job=j, res=res, validated=val, bad=bad, conf=conf, unconf=unconf, known=kn, t=time.time() - t1)
    results, err = [], None
    futs = [rpool.submit(do, j) for j in jobs]
    for f in futs:
        try:
            r = f.result()
            if r:
                results.append(r)
        except Exception as e:
            err = err or e
    # ---- evidence
    tot = lambda k: sum(r['res'][k] for r in results)
    funcs = {}
    for r in results:
        for fn, (file, insts, cov, bbs) in r['res']['functions'].items():
            if '/repo' in file or file.startswith(REPO):
                o = funcs.setdefault(fn, [os.path.relpath(file, REPO), 0, 0, bbs])
                o[1] += insts
                o[2] = max(o[2], cov)
    samples = []
    for r in results:
        for s in r['res']['samples'][:2]:
            if len(samples) < 12:
                samples.append(dict(job=r['job']['name'], inputs=s['inputs'][:40], observed=s['obs'][:40], schedule=s.get('sched')))
    asserts = {}
    for r in results:
        for k, v in r['res']['asserts'].items():
            asserts[k] = asserts.get(k, 0) + v
    nviol = sum(len(r['conf']) for r in results)
    complete = all(r['res']['complete'] for r in results) and not err and not stop.is_set()
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=registry.ASSUMPTIONS + prop.get('assumptions', []),
              coverage=dict(
                  states=tot('paths'), transitions=tot('instructions'), traces_validated_against_impl=sum(r['validated'] for r in results), samples=samples,
                  exhaustive=complete,
                  meaning='states = symbolic paths completed (each stands for every input satisfying its path condition); transitions = IR instructions executed symbolically; traces validated = solver-made inputs replayed on the native build with identical observations',
                  bounds=prop['bounds'],
                  jobs=[dict(name=r['job']['name'], paths=r['res']['paths'], instructions=r['res']['instructions'], queries=r['res']['queries'], solver_s=r['res']['solver_s'], wall_s=round(r['t'], 2), complete=r['res']['complete'], reach=r['res']['reach']) for r in results],
                  assertions_discharged=asserts, memory_obligations=tot('mem_checks'), queries=tot('queries'), solver_calls=tot('solver_calls'), sat=tot('sat'), unsat=tot('unsat'), solver_s=round(tot('solver_s'), 2),
                  functions_encoded={k: dict(file=v[0], instructions_executed=v[1], blocks_covered='%d/%d' % (v[2], v[3])) for k, v in sorted(funcs.items(), key=lambda kv: (kv[1][0], kv[0]))},
                  known_findings=sorted({k[0]['known'] for r in results for k in r['known']})))
    json.dump(ev, open('%s/%s.json' % (evd, pid), 'w'), indent=1)
    # ---- verdict
    rc = 0
    shown = set()
    for r in results:
        for v, n in r['conf']:
            key = (v['kind'], v['label'], v['loc'])
            if key in shown:
                continue
            shown.add(key)
            rp = '%s/%s-replay-%d.json' % (evd, pid, len(shown))
            json.dump(dict(property=pid, harness=r['job']['h'], group=r['job']['group'], params=r['job'].get('params', {}), kind=v['kind'], label=v['label'], location=v['loc'], stack=v['stack'], inputs=v['inputs'], schedule=v.get('sched'),
                           native=dict(crash=n['crash'], timeout=n['timeout'], failed=[e[1] for e in n['events'] if e[0] == 'FAIL'], output=n['text'])), open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s: %s at %s [%s] native: %s' % (v['kind'], v['label'], v['loc'], r['job']['name'], n['crash'] or ('timeout' if n['timeout'] else 'assertion failed')))
            rc = 1
    done = set()
    for r in results:
        for v, n in r['known']:
            if v['known'] not in done:
                done.add(v['known'])
                print('KNOWN-FINDING: property=%s %s %s' % (pid, v['known'], known[v['known']]))
    if rc == 0:
        probs = []
        if err:
            probs.append('error: %s' % err)
        for r in results:
            nm = r['job']['name']
            if not r['res']['complete'] and not r['res']['violations']:
                probs.append('%s: exploration incomplete: %s' % (nm, r['res']['why']))
            for v, n in r['unconf']:
                probs.append('%s: not reproduced natively: %s %s at %s inputs=%s events=%s out=%s' % (nm, v['kind'], v['label'], v['loc'], v['inputs'][:30], n['events'][-6:], n['text'][-300:]))
            for s, n, obs in r['bad'][:3]:
                d = next((i for i, (a, b) in enumerate(zip(obs, s['obs'])) if a != b), min(len(obs), len(s['obs'])))
                probs.append('%s: encoding/native mismatch: inputs=%s crash=%s timeout=%s fails=%s obs[%d] native=%s sym=%s out=%s' % (nm, s['inputs'][:40], n['crash'], n['timeout'], [e for e in n['events'] if e[0] != 'OBS' and e[0] != 'REACH'][:5], d, obs[d:d + 2], s['obs'][d:d + 2], n['text'][-800:]))
            for l in r['job'].get('reach', []):
                if not r['res']['reach'].get(l):
                    probs.append('%s: witness "%s" not reached (vacuous)' % (nm, l))
            if r['res']['paths'] == 0:
                probs.append('%s: no path completed (vacuous)' % nm)
        if probs:
            for p in probs:
                print('ERROR property=%s %s' % (pid, p))
            rc = 2
    shutil.rmtree(work, ignore_errors=True)
    prune()
    print('%s %s: %s  paths=%d instructions=%d queries=%d solver=%.1fs validated=%d wall=%.1fs' % (pid, tier, {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[rc], tot('paths'), tot('instructions'), tot('queries'), tot('solver_s'), ev['coverage']['traces_validated_against_impl'], time.time() - t0))
    return rc


def setup():
    build_engine()
    pool = ThreadPoolExecutor(NCPU)
    seen = set()
    for p in registry.PROPS.values():
        for j in p['jobs']:
            k = (j['h'], j['group'], tuple(j.get('defs', [])))
            if k not in seen:
                seen.add(k)
                build(j['h'], j['group'], list(k[2]), pool)
    print('setup done: %d harness builds' % len(seen))


def devjob(args):
    h, grp = args[0], None
    params, opts = {}, {}
    for a in args[1:]:
        k, v = a.split('=', 1)
        if k.startswith('-'):
            opts[k[1:]] = v
        else:
            params[k] = v
    for p in registry.PROPS.values():
        for j in p['jobs']:
            if j['h'] == h:
                grp = j['group']
                opts.setdefault('defs', ','.join(j.get('defs', [])))
    grp = opts.get('g', grp or 'gateway')
    pool = ThreadPoolExecutor(NCPU)
    build_engine()
    t0 = time.time()
    bc, exe = build(h, grp, [d for d in opts.get('defs', '').split(',') if d], pool)
    print('built', bc, exe, '%.1fs' % (time.time() - t0))
    j = dict(h=h, name='dev', params=params, time=int(opts.get('t', 60)), samples=int(opts.get('s', 6)))
    if 'races' in opts:
        j['races'] = 1
    if 'switches' in opts:
        j['switches'] = opts['switches']
    w = '%s/run/dev%d' % (BUILD, os.getpid())
    os.makedirs(w)
    res = run_symx(bc, j, 'quick', 1, w, list(load_known(None)) + [k for k in opts.get('known', '').split(',') if k])
    print(' '.join('%s=%s' % (k, res[k]) for k in ('complete', 'why', 'paths', 'error_paths', 'infeasible', 'instructions', 'mem_checks', 'queries', 'solver_calls', 'solver_s', 'wall_s', 'maxrss_mb', 'reach')))
    if 'a' in opts:
        print(res['asserts'])
    if 'fn' in opts:
        for fn, x in sorted(res['functions'].items(), key=lambda kv: -kv[1][1])[:40]:
            print('   %-80s %s' % (fn[:80], x[1:]))
    for v in res['violations'] + res['known']:
        n = run_native(exe, j, v['inputs'], v.get('sched'), w + '/v')
        print('VIOL', v['kind'], v['label'], v['loc'], v['known'], '\n    stack', v['stack'], '\n    inputs', v['inputs'], '\n    sched', v['sched'], '\n    native: confirmed=%s crash=%s to=%s ev=%s' % (confirms(v, n), n['crash'], n['timeout'], [e for e in n['events'] if e[0] != 'OBS'][-5:]))
        if 'v' in opts:
            print(n['text'])
    ok = 0
    for s in res['samples'] if not res['violations'] else []:
        n = run_native(exe, j, s['inputs'], s.get('sched'), w + '/s', timeout=60)
        obs = [[l, v] for k, l, v in n['events'] if k == 'OBS']
        good = obs == s['obs'] and not n['crash'] and not n['timeout'] and not any(e[0] in ('FAIL', 'DESYNC', 'ASSUME') for e in n['events'])
        ok += good
        if not good:
            print('MISMATCH', s['inputs'], str(s['obs'])[:600], str(obs)[:600], n['crash'], n['timeout'], [e for e in n['events'] if e[0] != 'OBS'][-5:], n['text'][-1500:])
        elif 'o' in opts:
            print('sample', s['inputs'], s['obs'])
    print('validated', ok, '/', len(res['samples']))
    shutil.rmtree(w)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--setup':
            setup()
        elif sys.argv[1] == '--job':
            devjob(sys.argv[2:])
        else:
            tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
            sys.exit(check(sys.argv[1], tier))
    except CheckError as e:
        print('ERROR', e)
        sys.exit(2)
