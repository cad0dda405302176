#!/usr/bin/env python3
"""Build the harnesses of one property from /repo's working tree, run them under
their monitors, collect what they observed and report.

usage: vrun.py <property-id> [quick|thorough]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: check error
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)

JOBS = max(2, os.cpu_count() or 2)

COMMON = ['-w', '-I%s/include' % REPO, '-I%s' % REPO, '-I%s/h' % HERE, '-pthread', '-DHOGL_VERIF=1']
VARIANTS = {
    # plain optimised build, what users run
    'plain': dict(cxx='g++', cc='gcc', flags=['-O2', '-g1'], ld=[]),
    # the other representation of timestamps that the headers offer
    'tspec': dict(cxx='g++', cc='gcc', flags=['-O1', '-g1', '-DHOGL_TIMESTAMP_USE_TIMESPEC_FORMAT=1'], ld=[]),
    # memory errors, leaks, undefined behaviour
    'asan': dict(cxx='clang++', cc='clang',
                 flags=['-O0', '-gline-tables-only', '-fno-omit-frame-pointer',
                        '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,function',
                        '-fno-sanitize-recover=all'],
                 ld=['-fsanitize=address,undefined']),
    # coverage guided: libFuzzer drives the harness under the same sanitizers
    'fuzz': dict(cxx='clang++', cc='clang',
                 flags=['-O1', '-gline-tables-only', '-fno-omit-frame-pointer',
                        '-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize=vptr,alignment,function',
                        '-fno-sanitize-recover=all'],
                 ld=['-fsanitize=address,undefined,fuzzer']),
    # data races
    'tsan': dict(cxx='clang++', cc='clang',
                 flags=['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-fsanitize=thread',
                        '-mllvm', '-tsan-distinguish-volatile', '-include', HERE + '/h/tsanidx.hpp'],
                 ld=['-fsanitize=thread']),
}
SAN_ENV = {
    'ASAN_OPTIONS': 'exitcode=99:abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=1:'
                    'allocator_may_return_null=1:hard_rss_limit_mb=12000:handle_abort=1:print_legend=0',
    'LSAN_OPTIONS': 'exitcode=99:suppressions=%s/h/lsan.supp:print_suppressions=0' % HERE,
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:'
                    'suppressions=%s/h/tsan.supp:print_suppressions=0' % HERE,
}


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:32]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


_tree = {}


def tree_hash(*dirs):
    k = dirs
    if k not in _tree:
        h = hashlib.sha256()
        for d in dirs:
            for root, ds, fs in os.walk(d):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.hpp', '.h', '.hh', '.inc')):
                        p = os.path.join(root, f)
                        h.update(p.encode() + b'\0' + rd(p) + b'\0')
        _tree[k] = h.hexdigest()
    return _tree[k]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def compile_one(src, variant, extra):
    v = VARIANTS[variant]
    isc = src.endswith('.c')
    comp = v['cc'] if isc else v['cxx']
    flags = v['flags'] + COMMON + list(extra)
    if not isc:
        flags = flags + ['-std=gnu++17']
    key = sha(comp, ' '.join(flags), rd(src), src, tree_hash(REPO + '/include', REPO + '/tools', HERE + '/h'))
    out = os.path.join(BUILD, key + '.o')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = run([comp] + flags + ['-c', src, '-o', tmp])
        if r.returncode:
            raise HarnessError('compile failed: %s %s\n%s' % (src, variant, r.stdout.decode(errors='replace')[-6000:]))
        os.rename(tmp, out)
    return out


def lib_sources():
    return sorted(os.path.join(REPO, 'src', f) for f in os.listdir(REPO + '/src') if f.endswith('.cc'))


def build(targets):
    """targets: list of (name, variant, sources, lib?, extra cflags, ldflags) -> {(name,variant): path}"""
    os.makedirs(BUILD, exist_ok=True)
    prune()
    want = {}
    res = {}
    for name, variant, srcs, lib, extra, ld in targets:
        if srcs[0].endswith('.py'):      # harness for tools that are scripts
            res[(name, variant)] = srcs[0]
            continue
        allsrc = [(s, variant, tuple(extra)) for s in srcs]
        if lib:
            # the library itself is never built with harness specific flags
            allsrc += [(s, variant, ()) for s in lib_sources()]
        want[(name, variant)] = (allsrc, ld)
    units = []
    for a, _ in want.values():
        for u in a:
            if u not in units:
                units.append(u)
    # longest first
    units.sort(key=lambda u: -os.path.getsize(u[0]) - (10 ** 7 if 'fmt-format' in u[0] or '/s05' in u[0] else 0))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = dict(zip(units, ex.map(lambda u: compile_one(*u), units)))
    for k, (a, ld) in want.items():
        os_ = [objs[u] for u in a]
        v = VARIANTS[k[1]]
        key = sha('link', k[0], ' '.join(os_), ' '.join(ld), ' '.join(v['ld']))
        out = os.path.join(BUILD, key + '.exe')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = run([v['cxx']] + v['ld'] + ['-pthread', '-o', tmp] + os_ + ['-ldl'] + list(ld))
            if r.returncode:
                raise HarnessError('link failed: %s\n%s' % (k, r.stdout.decode(errors='replace')[-4000:]))
            os.rename(tmp, out)
        res[k] = out
    return res


def prune():
    now = time.time()
    tot = []
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        try:
            st = os.stat(p)
        except OSError:
            continue
        tot.append((st.st_mtime, st.st_size, p))
    tot.sort()
    size = sum(t[1] for t in tot)
    for m, s, p in tot:
        if size < 4 << 30:
            break
        if now - m > 3600:
            try:
                os.unlink(p)
                size -= s
            except OSError:
                pass


class Result:
    def __init__(self):
        self.stats = {}
        self.samples = []
        self.hashes = set()
        self.viols = []      # (key, msg, replay dict)
        self.notes = []
        self.rule = []
        self.runs = 0


def parse_out(path, res):
    viols = []
    err = None
    try:
        data = rd(path).decode(errors='replace')
    except OSError:
        data = ''
    for l in data.split('\n'):
        if l.startswith('@VIOL '):
            a = l[6:].split(' ', 1)
            viols.append((a[0], a[1] if len(a) > 1 else ''))
        elif l.startswith('@STAT '):
            a = l.split()
            res.stats[a[1]] = res.stats.get(a[1], 0) + int(a[2])
        elif l.startswith('@SAMPLE '):
            if len(res.samples) < 12:
                res.samples.append(l[8:][:600])
        elif l.startswith('@RULE '):
            if l[6:] not in res.rule:
                res.rule.append(l[6:])
        elif l.startswith('@H '):
            res.hashes.update(l[3:].split())
        elif l.startswith('@ERR '):
            err = l[5:]
    return viols, err


def san_key(text):
    m = re.search(r'SUMMARY: (\w+Sanitizer): ([^\n]*)', text)
    if m:
        desc = m.group(2)
        kind = desc.split(' ')[0]
        if kind == 'data':
            kind = 'data-race'
        fn = re.search(r' in (.*)$', desc)
        f = re.sub(r'\(.*', '', fn.group(1)).strip() if fn else ''
        return 'sanitizer:%s:%s' % (kind, f or re.sub(r'\s+', '_', desc)[:80])
    m = re.search(r'runtime error: ([^\n]*)', text)
    if m:
        return 'sanitizer:ub:' + re.sub(r'[^a-zA-Z]+', '-', m.group(1))[:60]
    return None


def cmdline(exe, args):
    return ([sys.executable, '-B'] if exe.endswith('.py') else []) + [exe] + [str(a) for a in args]


def one_run(exe, args, env, timeout, res, tag):
    """run one harness process; returns list of (key,msg,output)"""
    scratch = tempfile.mkdtemp(prefix='hv-')
    try:
        out = os.path.join(scratch, 'vh.out')
        logf = os.path.join(scratch, 'log')
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env)
        e['VH_OUT'] = out
        e['VH_SCRATCH'] = scratch
        e['TMPDIR'] = scratch
        e['TZ'] = e.get('VH_TZ', 'UTC')
        with open(logf, 'wb') as lf:
            p = subprocess.Popen(cmdline(exe, args), stdout=lf, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, cwd=scratch, env=e, start_new_session=True)
            try:
                rc = p.wait(timeout)
                hang = False
            except subprocess.TimeoutExpired:
                hang = True
                rc = None
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        with open(logf, 'rb') as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            head = f.read(20000)
            f.seek(max(0, n - 20000))
            log = (head + (f.read() if n > 20000 else b'')).decode(errors='replace')
        res.runs += 1
        viols, err = parse_out(out, res)
        v = [(k, m, log) for k, m in viols]
        if hang or rc == 98:
            if not v:
                last = re.findall(r'@PHASE (.*)', log)
                return v, 'hang:' + (last[-1].split(' ')[0] if last else tag), log
            return v, None, log
        if rc == 97 or err:
            raise HarnessError('%s: %s\n%s' % (tag, err, log[-3000:]))
        if rc == 0 or (rc == 3 and v):
            return v, None, log
        if v:
            return v, None, log
        k = san_key(log)
        if not k:
            k = 'crash:signal%d' % -rc if rc < 0 else ('crash:exit%d' % rc)
            if rc in (-9,):
                return v, 'killed', log
        return v + [(k, 'process ended abnormally (rc %s)' % rc, log)], None, log
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_known():
    known = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                known.append(m.groups())
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import plans
    plan = plans.PLANS[prop]
    t0 = time.time()
    res = Result()
    try:
        jobs = plan['jobs'](tier, seed)
        targets = [plans.target(t) for t in plan['targets']]
        try:
            exes = build(targets)
        except HarnessError as e:
            # The ThreadSanitizer variant replaces the type of the ring indexes, fuzz targets use classes of
            # the tools. Where one of these does not compile the code can still be judged by everything else.
            rest = [t for t in targets if t[1] not in ('tsan', 'fuzz')]
            if not rest or len(rest) == len(targets):
                raise
            exes = build(rest)
            jobs = [j for j in jobs if j['t'] in exes]
            res.notes.append('without the tsan/fuzz variants: %s' % str(e)[:1500])
        tb = time.time() - t0
        # jobs: list of dict(t=(name,variant), args=[...], env={}, timeout=s)
        width = plan.get('parallel', {}).get(tier, 4) if isinstance(plan.get('parallel'), dict) else plan.get('parallel', 4)

        def do(job):
            exe = exes[job['t']]
            env = dict(job.get('env', {}))
            for n in job.get('tools', []):
                env['VH_TOOL_' + n.upper()] = exes[(n, job.get('toolvar') or (job['t'][1] if (n, job['t'][1]) in exes else 'asan'))]
            tag = '%s/%s' % job['t']
            tmo = job.get('timeout', 240 if tier == 'quick' else 1500)
            v, soft, log = one_run(exe, job['args'], env, tmo, res, tag)
            if soft:
                # hang or kill: only believed when it happens again
                v2, soft2, log2 = one_run(exe, job['args'], env, tmo, res, tag)
                v = v + v2
                if soft2 and not v:
                    if soft2 == 'killed':
                        raise HarnessError('%s killed twice' % tag)
                    v.append((soft2, 'no progress, twice', log2))
                elif not v:
                    res.notes.append('inconclusive run: %s once, not repeated: %s' % (soft, tag))
            for k, m, lg in v:
                res.viols.append((k, m, dict(cmd=cmdline(exe, job['args']), target=list(job['t']), env=env,
                                             args=[str(a) for a in job['args']], seed=seed, tier=tier, log=lg[-12000:])))
        with ThreadPoolExecutor(width) as ex:
            for f in [ex.submit(do, j) for j in jobs]:
                f.result()
    except HarnessError as e:
        if not res.viols:
            print('CHECK ERROR: %s' % e)
            return 2
        res.notes.append(str(e)[:2000])

    known = load_known()
    new, seen = [], set()
    for k, m, r in res.viols:
        hit = [x for x in known if x[0] == prop and x[1] == k]
        if hit:
            if k not in seen:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
            seen.add(k)
        else:
            new.append((k, m, r))
    ev = res.stats.pop('evaluations', 0)
    cov = dict(evaluations=ev, distinct_nontrivial=len(res.hashes), rule=' | '.join(res.rule) or plan.get('rule', ''),
               samples=res.samples or ['(none)'], observed=res.stats, processes=res.runs, build_s=round(tb, 1))
    if res.notes:
        cov['notes'] = res.notes
    evid = dict(property=prop, tier=tier, seed=seed, level=plan.get('level', 'exploration'), coverage=cov,
                assumptions=plan.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    tmp = HERE + '/evidence/.%s.%d' % (prop, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(evid, f, indent=1)
    os.rename(tmp, HERE + '/evidence/%s.json' % prop)
    print('%s %s seed=%d: %d evaluations, %d distinct, %d processes, build %.1fs, total %.1fs' %
          (prop, tier, seed, ev, len(res.hashes), res.runs, tb, time.time() - t0))
    print('observed: %s' % json.dumps(res.stats))
    for n in res.notes:
        print('note: %s' % n[:400])
    if new:
        os.makedirs(HERE + '/replays', exist_ok=True)
        done = set()
        for i, (k, m, r) in enumerate(new):
            if k in done:
                continue
            done.add(k)
            if len(done) > 8:
                break
            path = '%s/replays/%s-%s.json' % (HERE, prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', k)[:60])
            with open(path, 'w') as f:
                json.dump(dict(property=prop, key=k, message=m, **r), f, indent=1)
            print('violated: %s: %s' % (k, m[:500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if ev == 0 or len(res.hashes) == 0:
        print('CHECK ERROR: nothing observed')
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print('CHECK ERROR: internal error')
        rc = 2
    sys.exit(rc)
