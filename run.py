#!/usr/bin/env python3
"""Driver of the monitors.  run.py PROPERTY [--tier quick|thorough] builds the
harnesses of the property from /repo's working tree, runs their cases on all
cores, and prints VIOLATION / KNOWN-FINDING lines; see DESIGN.md."""
import sys, os, re, json, time, hashlib, subprocess, argparse, threading, shutil, glob, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
NCPU = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))
sys.path.insert(0, VERIF)
import checks as C

CXX, CC = 'clang++', 'clang'
BASE = ['-std=c++11', '-include', 'cstdint', '-include', 'algorithm', '-w', '-g1', '-O1',
        '-fno-omit-frame-pointer', '-DSEARCH_VERIF']
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
    # wrap-around in hash functions is unsigned and not flagged by 'undefined'
    'none': [],
}
ENV = dict(os.environ)
# VERIF_COV=DIR: what of the repository the workloads execute (tools/cover.sh); not used by the registered checks.
if os.environ.get('VERIF_COV'):
    BUILD = os.path.join(os.environ['VERIF_COV'], 'build')
    SAN['asan'] = SAN['asan'] + ['-fprofile-instr-generate', '-fcoverage-mapping']
    SAN['none'] = ['-fprofile-instr-generate', '-fcoverage-mapping']
    ENV['LLVM_PROFILE_FILE'] = os.path.join(os.environ['VERIF_COV'], 'raw', '%m.profraw')
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=99:handle_abort=1:abort_on_error=0:allocator_may_return_null=0:'
                       'detect_stack_use_after_return=0:hard_rss_limit_mb=2500:malloc_context_size=6:quarantine_size_mb=16')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99:halt_on_error=1'
ENV['LC_ALL'] = 'C'

def die(msg):
    print('ERROR: ' + msg); sys.stdout.flush(); os._exit(2)

def has_main(path):
    try:
        return re.search(r'\bint\s+main\s*\(', open(path, errors='replace').read()) is not None
    except OSError:
        return True

def libsrcs(d):
    """All the non-test, non-program sources of one directory of the repository."""
    r = []
    for p in sorted(glob.glob(os.path.join(REPO, d, '*.cc')) + glob.glob(os.path.join(REPO, d, '*.c'))):
        b = os.path.basename(p)
        if b.startswith('test') or b.startswith('bench') or b == 'testing.cc' or b == 'ui.cc' or has_main(p):
            continue
        r.append(p)
    return r

def digest(cmd, src):
    """Hash of the preprocessed text, so that an object is reused only if nothing it depends on changed."""
    pp = subprocess.run(cmd + ['-E', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode != 0:
        return None, pp.stderr.decode(errors='replace')
    return hashlib.sha256((' '.join(cmd)).encode() + pp.stdout).hexdigest()[:24], ''

def compile_one(src, flags, defs):
    c = src.endswith('.c')
    fl = [f for f in flags]
    if c:
        cmd = [CC] + [f for f in fl if not f.startswith('-std=')]
        # drop the C++-only forced includes
        o, i = [], 0
        while i < len(cmd):
            if cmd[i] == '-include': i += 2; continue
            o.append(cmd[i]); i += 1
        cmd = o
    else:
        cmd = [CXX] + fl
    if os.path.basename(src) == 'hash.c':
        # lookup3 reads whole aligned words at the end of its input, by design (see its comment)
        cmd = cmd + ['-fno-sanitize=address']
    cmd = cmd + ['-I' + REPO, '-I' + os.path.join(VERIF, 'harness')] + defs
    h, err = digest(cmd, src)
    if h is None:
        return None, err
    obj = os.path.join(BUILD, os.path.basename(src).replace('.', '_') + '-' + h + '.o')
    if os.path.exists(obj):
        return obj, ''
    tmp = obj + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return None, r.stdout.decode(errors='replace')
    os.rename(tmp, obj)
    return obj, ''

class Target:
    def __init__(self, name, srcs, defs=(), san='asan', libs=(), flags=()):
        self.name, self.srcs, self.defs, self.san, self.libs, self.flags = name, list(srcs), list(defs), san, list(libs), list(flags)

def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    jobs = {}
    for t in targets:
        fl = BASE + SAN[t.san] + t.flags
        t.keys = []
        for s in t.srcs:
            d = t.defs
            k = (s, tuple(fl), tuple(d))
            jobs[k] = None
            t.keys.append(k)
    # big harness files first
    order = sorted(jobs, key=lambda k: (not k[0].startswith(VERIF), -os.path.getsize(k[0]) if os.path.exists(k[0]) else 0))
    with ThreadPoolExecutor(NCPU) as ex:
        futs = {k: ex.submit(compile_one, k[0], list(k[1]), list(k[2])) for k in order}
        for k, f in futs.items():
            jobs[k] = f.result()
    for k, (o, e) in jobs.items():
        if o is None:
            die("cannot compile %s:\n%s" % (k[0], "\n".join([l for l in e.split("\n") if "error:" in l][:10]) + "\n" + e[-1500:]))
    def link(t):
        objs = [jobs[k][0] for k in t.keys]
        h = hashlib.sha256((t.name + ' '.join(objs) + t.san + ' '.join(t.libs)).encode()).hexdigest()[:24]
        t.exe = os.path.join(BUILD, t.name + '-' + h)
        if os.path.exists(t.exe):
            return ''
        tmp = t.exe + '.%d-%d.tmp' % (os.getpid(), id(t))
        # The repository's objects go into an archive, as in its own build: only what is used is linked.
        own = [o for k, o in zip(t.keys, objs) if k[0].startswith(VERIF + '/')]
        lib = [o for k, o in zip(t.keys, objs) if not k[0].startswith(VERIF + '/')]
        arc = tmp + '.a'
        r = subprocess.run(['ar', 'rcs', arc] + lib, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            r = subprocess.run([CXX] + SAN[t.san] + own + [arc, '-o', tmp, '-lpthread'] + t.libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if os.path.exists(arc): os.unlink(arc)
        if r.returncode != 0:
            return r.stdout.decode(errors='replace')
        os.rename(tmp, t.exe)
        return ''
    with ThreadPoolExecutor(NCPU) as ex:
        for t, e in zip(targets, ex.map(link, targets)):
            if e:
                die('cannot link %s:\n%s' % (t.name, e[-4000:]))

class Viol:
    def __init__(self, unit, case, kind, key, msg):
        self.unit, self.case, self.kind, self.key, self.msg = unit, case, kind, key, msg

def crash_key(err, rc):
    m = re.search(r'SUMMARY: \w+: (\S+) \S*?([^/\s]+):(\d+)(?::\d+)?(?: in (\S+))?', err)
    if m: return 'crash ' + m.group(1) + ' ' + m.group(2) + (' ' + m.group(4) if m.group(4) else '')
    m = re.search(r"(\S+?):\d+: .*Assertion `(.*?)' failed", err)
    if m: return 'assert ' + os.path.basename(m.group(1)) + ' ' + m.group(2)
    m = re.search(r'([^/\s]+):\d+:\d+: runtime error: (.{0,60})', err)
    if m: return 'ub ' + m.group(1) + ' ' + re.sub(r'[0-9]+', 'N', m.group(2))
    return 'exit %s' % rc

class UnitRun:
    """Runs the cases of one harness, sharded over the cores; a crashed shard is resumed after the crashing case."""
    def __init__(self, prop, unit, exe, seed, count, tier, env, deadline=None):
        self.prop, self.unit, self.exe, self.seed, self.count, self.tier, self.env = prop, unit, exe, seed, count, tier, env
        self.deadline = deadline
        self.viols, self.stats, self.sigs, self.samples = [], {}, set(), []
        self.lock = threading.Lock()
        self.evals = 0
        self.crashes = 0
        self.hangs = 0

    def cmd(self, frm, step, count, extra=()):
        u = self.unit
        c = [self.exe, '--seed', str(self.seed), '--from', str(frm), '--step', str(step), '--count', str(count),
             '--prop', self.prop, '--thorough', '1' if self.tier == 'thorough' else '0', '--casesecs', str(u.get('casesecs', 30))]
        for o in u.get('opts', []):
            c += ['--opt', o]
        return c + list(extra)

    def once(self, cmd):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env, stdin=subprocess.DEVNULL,
                             start_new_session=True, cwd=self.env['VH_SCRATCH'])
        errbuf = []
        def rd():
            for l in p.stderr:
                if len(errbuf) < 4000: errbuf.append(l)
        th = threading.Thread(target=rd); th.start()
        cur, kind, done, timeout, viols = -1, '', False, False, []
        stats, sigs, samples = {}, set(), []
        timer = None
        for raw in p.stdout:
            l = raw.decode(errors='replace').rstrip('\n').split('\t')
            if l[0] == 'CASE': cur, kind = int(l[1]), l[2]
            elif l[0] == 'VIOL' and len(l) >= 5: viols.append(Viol(self.unit, int(l[1]), l[2], l[3], l[4]))
            elif l[0] == 'STAT': stats[l[1]] = stats.get(l[1], 0) + int(l[2])
            elif l[0] == 'SAMPLE': samples.append(l[1])
            elif l[0] == 'SIG': sigs.update(int(x, 16) for x in l[1].split())
            elif l[0] == 'TIMEOUT': timeout = True
            elif l[0] == 'DONE': done = True
        rc = p.wait(); th.join()
        err = b''.join(errbuf).decode(errors='replace')
        # leftover children of a crashed harness
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        return dict(rc=rc, err=err, cur=cur, kind=kind, done=done, timeout=timeout, viols=viols, stats=stats, sigs=sigs, samples=samples)

    def shard(self, k, n):
        frm = k
        crashes = 0
        while frm < self.count:
            if self.deadline and time.time() > self.deadline: return
            r = self.once(self.cmd(frm, n, self.count))
            with self.lock:
                self.viols += r['viols']
                self.sigs |= r['sigs']
                if len(self.samples) < 6: self.samples += r['samples'][:2]
                for a, b in r['stats'].items(): self.stats[a] = self.stats.get(a, 0) + b
            if r['done']:
                return
            if r['rc'] == 2 and r['cur'] < 0:
                die('harness %s: %s' % (self.unit['name'], r['err'][-2000:]))
            # The harness died in case r['cur'].
            case = r['cur']
            if r['timeout']:
                # Rerun alone with twice the CPU budget: a hang is one only if it repeats.
                u2 = self.cmd(case, 1, case + 1, ['--casesecs', str(2 * self.unit.get('casesecs', 30)), '--case', str(case)])
                r2 = self.once(u2)
                if r2['timeout']:
                    v = Viol(self.unit, case, r['kind'], 'nontermination ' + r['kind'], 'case did not finish within %d s of CPU time' % (2 * self.unit.get('casesecs', 30)))
                    with self.lock: self.viols.append(v); self.hangs += 1
                elif not r2['done']:
                    with self.lock: self.viols.append(Viol(self.unit, case, r['kind'], crash_key(r2['err'], r2['rc']), self.brief(r2)))
            else:
                with self.lock: self.viols.append(Viol(self.unit, case, r['kind'], crash_key(r['err'], r['rc']), self.brief(r)))
            crashes += 1
            with self.lock: self.crashes += 1
            # A repeated hang is costly (90 s of CPU each by default) and two settle the verdict.
            if crashes >= 4 or self.hangs >= 2: return
            frm = case + n

    def brief(self, r):
        e = r['err']
        note = re.findall(r'^NOTE: (.*)$', e, re.M)
        i = e.find('runtime error'); j = e.find('ERROR: ')
        k = e.find('Assertion')
        pos = [max(0, x - 150) for x in (i, j, k) if x >= 0]
        s = e[min(pos):][:1200] if pos else e[-800:]
        return ('rc=%s ' % r['rc']) + (('doing: ' + note[-1][:500] + ' ') if note else '') + re.sub(r'\s+', ' ', s)

    def run(self):
        n = min(self.unit.get('shards', NCPU), max(1, self.count))
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(lambda k: self.shard(k, n), range(n)))

def load_known():
    k = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=\[(.*?)\] (.*)', l.strip())
            if m: k.append((m.group(1), m.group(2), m.group(3)))
    return k

def targets_for(prop):
    spec = C.CHECKS[prop]
    ts = []
    for u in spec['units']:
        srcs = []
        for s in u['src']:
            srcs.append(os.path.join(VERIF, 'harness', s))
        for d in u.get('lib', []):
            if d.endswith('.cc') or d.endswith('.c'):
                srcs.append(os.path.join(REPO, d))
            else:
                srcs += libsrcs(d)
        ex = u.get('exclude', [])
        srcs = [s for s in srcs if os.path.basename(s) not in ex]
        u['_t'] = Target(u['name'], srcs, u.get('defs', []), u.get('san', 'asan'), u.get('libs', []), u.get('flags', []))
        ts.append(u['_t'])
        u['_p'] = []
        for name, psrcs, *rest in u.get('progs', []):
            ps = []
            for d in psrcs:
                if os.path.exists(os.path.join(VERIF, 'harness', d)) and '/' not in d: ps.append(os.path.join(VERIF, 'harness', d))
                elif d.endswith('.cc') or d.endswith('.c'): ps.append(os.path.join(REPO, d))
                else: ps += libsrcs(d)
            seen = []
            [seen.append(x) for x in ps if x not in seen]
            t = Target('prog-' + name, seen, rest[0] if rest else [], rest[1] if len(rest) > 1 else 'asan')
            t.progname = name
            ts.append(t); u['_p'].append(t)
    return ts

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--unit')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--kind')
    ap.add_argument('--buildonly', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    replay = None
    if a.replay:
        replay = json.load(open(a.replay)); a.prop = replay['property']; a.unit = replay['unit']
    if not a.prop:
        ap.error('property needed')
    spec = C.CHECKS[a.prop]
    if a.unit:
        spec['units'] = [u for u in spec['units'] if u['name'] == a.unit]
    ts = targets_for(a.prop)
    build(ts)
    tb = time.time() - t0
    if a.buildonly:
        print('built in %.1fs' % tb); return 0
    os.makedirs(OUT, exist_ok=True)
    scratch = os.path.join(OUT, 'scratch-%s-%d' % (a.prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    os.chmod(scratch, 0o777)
    rc = 1
    try:
        rc = body(a, spec, replay, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc

def body(a, spec, replay, scratch, t0, tb):
    env = dict(ENV); env['VH_SCRATCH'] = scratch
    if replay:
        u = spec['units'][0]
        for t in u['_p']: env['PROG_' + re.sub(r'\W', '_', t.progname)] = t.exe
        r = UnitRun(a.prop, u, u['_t'].exe, replay['seed'], 1, replay['tier'], env)
        res = r.once(r.cmd(replay['case'], 1, replay['case'] + 1, ['--case', str(replay['case']), '--verbose', '1']))
        for v in res['viols']: print('REPLAYED', v.kind, v.key, v.msg)
        if not res['done']: print('REPLAYED', 'timeout' if res['timeout'] else res['err'][-6000:])
        return 1 if res['viols'] or not res['done'] else 0
    viols, stats, sigs, samples, evals = [], {}, set(), [], 0
    rounds = 1 if a.tier == 'quick' else spec.get('rounds', 4)
    deadline = None if a.tier == 'quick' else t0 + spec.get('thorough_secs', 1200)
    missing = []
    for rd in range(rounds):
        if deadline and rd and time.time() > deadline: break
        for u in spec['units']:
            e = dict(env)
            for t in u['_p']: e['PROG_' + re.sub(r'\W', '_', t.progname)] = t.exe
            e.update(u.get('env', {}))
            n = u['cases'] if a.tier == 'quick' else u.get('thorough', u['cases'] * 8)
            r = UnitRun(a.prop, u, u['_t'].exe, a.seed + 1000003 * rd, max(1, int(n * a.scale)), a.tier, e, deadline)
            tu = time.time()
            r.run()
            r.wall = time.time() - tu
            u['_wall'] = u.get('_wall', 0) + r.wall
            for v in r.viols: v.seed = r.seed
            viols += r.viols
            for k, v in r.stats.items():
                kk = u['name'] + ': ' + k
                stats[kk] = stats.get(kk, 0) + v
                if k.startswith('cases '): evals += v
            sigs |= set((u['name'], s) for s in r.sigs)
            samples += r.samples[:3]
        if viols: break
    known = load_known()
    seenk, news = {}, []
    for v in viols:
        m = [k for k in known if k[0] == a.prop and k[1] == v.key]
        if m: seenk.setdefault(m[0], v)
        else: news.append(v)
    # What a monitor must have observed for its silence to mean anything.
    if not a.kind and not a.unit and a.scale >= 1:
        for k, lo in spec.get('require', {}).items():
            if stats.get(k, 0) < lo: missing.append('%s=%d<%d' % (k, stats.get(k, 0), lo))
    for k in known:
        if k[0] == a.prop and k in seenk:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k[2]))
    if news:
        bykey = {}
        for v in news: bykey.setdefault((v.unit['name'], v.key), v)
        for (un, key), v in list(bykey.items())[:10]:
            h = hashlib.sha256(('%s%s%s%s' % (un, key, v.case, v.seed)).encode()).hexdigest()[:10]
            path = os.path.join(OUT, '%s-%s-%s.json' % (a.prop, un, h))
            json.dump(dict(property=a.prop, unit=un, seed=v.seed, case=v.case, kind=v.kind, tier=a.tier, key=key, message=v.msg,
                           replay='python3 run.py --replay ' + path), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            print('  unit=%s kind=%s case=%d key=[%s] %s' % (un, v.kind, v.case, key, v.msg[:900]))
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=spec['rule'],
                            samples=samples[:8], observed=stats, sanitizers=sorted(set(' '.join(SAN[u.get('san', 'asan')]) for u in spec['units'])),
                            build_s=round(tb, 1), units={u['name']: round(u.get('_wall', 0), 1) for u in spec['units']}),
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(news))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s tier=%s seed=%d: %d cases, %d distinct observations, %d violations, build %.0fs total %.0fs %s' % (
        a.prop, a.tier, a.seed, evals, len(sigs), len(news), tb, time.time() - t0, {u['name']: round(u.get('_wall', 0)) for u in spec['units']}))
    if news: return 1
    if missing:
        print('ERROR: the monitors observed too little: ' + ', '.join(missing)); return 2
    if evals == 0 or not sigs:
        print('ERROR: nothing observed'); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
