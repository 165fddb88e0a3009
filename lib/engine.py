import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
GO = os.path.join(VERIF, 'go')
REPO = '/repo'
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


class Run:
    def __init__(self, prop, cfg):
        self.prop, self.cfg = prop, cfg
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.scratch = make_scratch()
        self.mc = []          # model checking runs
        self.behaviours = 0
        self.segments = 0
        self.events = 0
        self.tstates = 0
        self.violations = []
        self.samples = []
        self.counts = {}
        self.known = set()

    def size(self, q, t):
        return q if self.tier != 'thorough' else t

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)


def make_scratch():
    for d in ('/dev/shm', os.environ.get('TMPDIR', '/tmp')):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access(d, os.W_OK):
                return tempfile.mkdtemp(prefix='mondisverif-', dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix='mondisverif-')


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ.get('PATH', ''),
             GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'), GONOSUMDB='*', GONOSUMCHECK='1', GOFLAGS_='')
    return e


def build(run, cmd, race=False):
    """builds go/cmd/<cmd> against /repo's working tree (module files are copied: nothing in /verif changes)"""
    mod = os.path.join(run.scratch, 'mod')
    if not os.path.isdir(mod):
        os.makedirs(mod)
        for f in ('go.mod', 'go.sum'):
            shutil.copy(os.path.join(GO, f), os.path.join(mod, 'h' + f[2:]))
    out = os.path.join(run.scratch, cmd + ('-race' if race else ''))
    args = ['go', 'build', '-modfile', os.path.join(mod, 'h.mod'), '-o', out]
    if race:
        args.append('-race')
    p = subprocess.run(args + ['./cmd/' + cmd], cwd=GO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('building %s failed:\n%s' % (cmd, p.stdout[-4000:]))
    return out


def tlc(run, module, cfg, extra=(), env=None, timeout=600, workers='auto', heap='6g', jopts=()):
    md = tempfile.mkdtemp(prefix='tlc-', dir=run.scratch)
    e = dict(os.environ)
    e.update(env or {})
    args = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + md, *jopts, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', md,
            '-workers', str(workers), '-config', cfg, *extra, module]
    out = os.path.join(md, 'out.txt')
    with open(out, 'w') as f:
        p = subprocess.Popen(args, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ToolError('TLC timed out on %s %s\n%s' % (module, cfg, open(out).read()[-1500:]))
    txt = open(out, errors='replace').read()
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, txt


def nums(txt):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', txt)
    return (int(m.group(1)), int(m.group(2)), int(m.group(3))) if m else None


def model_check(run, module, cfg, timeout=600):
    """exhaustive check of a bounded instance; a failure here is a defect of the specification, not of mondis"""
    t = time.time()
    rc, txt = tlc(run, module, cfg, timeout=timeout)
    n = nums(txt)
    if rc != 0 or 'No error has been found' not in txt or not n or n[2] != 0:
        raise ToolError('model checking %s/%s failed (rc %d)\n%s' % (module, cfg, rc, txt[-3000:]))
    run.mc.append({'module': module, 'config': cfg, 'states': n[1], 'transitions': n[0], 'wall_s': round(time.time() - t, 1), 'exhaustive': True})
    run.log('model checked %s with %s: %d distinct states, %d transitions' % (module, cfg, n[1], n[0]))


def generate(run, module, cfg, num, depth, name=None, timeout=600, bfs=False):
    """behaviours of the specification, one JSON array per line (random walks, or every one when bfs)"""
    extra = [] if bfs else ['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(run.seed * 7919 + 13), '-aril', '0']
    rc, txt = tlc(run, module, cfg, extra=extra, timeout=timeout, workers=1)
    if rc != 0:
        raise ToolError('generation %s/%s failed (rc %d)\n%s' % (module, cfg, rc, txt[-3000:]))
    out = os.path.join(run.scratch, (name or module + '-' + cfg) + '.beh')
    seen = set()
    with open(out, 'w') as f:
        for line in txt.splitlines():
            if line.startswith('"BEH '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    f.write(s + '\n')
    if not seen:
        raise ToolError('no behaviours generated by %s/%s\n%s' % (module, cfg, txt[-2000:]))
    run.behaviours += len(seen)
    run.log('TLC generated %d behaviours from %s with %s' % (len(seen), module, cfg))
    return out


def go_panic_site(err):
    """first non-runtime frame of a crashed go process; None if it did not crash of a go panic"""
    if not re.search(r'^(panic:|fatal error:|SIG\w+:)', err, re.M):
        return None
    i = re.search(r'^(panic:|fatal error:|SIG\w+:)', err, re.M).start()
    for line in err[i:].splitlines():
        line = line.strip()
        m = re.match(r'(/\S+\.go):\d+', line)
        if m and '/veriftools/' not in m.group(1) and '/go/src/' not in m.group(1):
            return m.group(1)
    return 'unknown'


def drive(run, binary, args, trace, timeout=600, env=None):
    """runs a driver; a process killed by a panic inside the code under test becomes a 'died' event"""
    e = goenv()
    sc = tempfile.mkdtemp(prefix='drv-', dir=run.scratch)
    e.update(VERIF_SCRATCH=sc)
    e.update(env or {})
    errf = os.path.join(run.scratch, 'driver.err')
    with open(errf, 'w') as f:
        p = subprocess.Popen([binary, '-prop', run.prop, '-seed', str(run.seed), '-out', trace, *args],
                             env=e, stdout=f, stderr=subprocess.STDOUT, cwd=sc, start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ToolError('driver timed out\n' + open(errf, errors='replace').read()[-3000:])
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    shutil.rmtree(sc, ignore_errors=True)
    err = open(errf, errors='replace').read()
    if p.returncode != 0:
        site = go_panic_site(err)
        if p.returncode == 2 and site and not site.startswith(GO) and site != 'unknown':
            run.log('the driver process died of a panic in', site)
            i = re.search(r'^(panic:|fatal error:|SIG\w+:)', err, re.M).start()
            with open(trace, 'rb') as f:
                b = f.read()
            with open(trace, 'wb') as f:  # drop a partially written last line
                f.write(b[:b.rfind(b'\n') + 1])
                f.write(json.dumps({'e': 'died', 'site': site, 'detail': err[i:i + 600]}).encode() + b'\n')
        else:
            raise ToolError('driver failed (rc %d)\n%s' % (p.returncode, err[-4000:]))
    return err


def segments(lines):
    segs, cur = [], None
    for l in lines:
        if '"e":"reset"' in l:
            cur = []
            segs.append(cur)
        if cur is None:
            cur = []
            segs.append(cur)
        cur.append(l)
    return segs


def load_known():
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    for line in open(p):
        m = re.match(r'finding: property=(\S+) match=(\{.*?\}) :: (.*)$', line.strip())
        if m:
            res.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return res


def is_known(run, ev, seg):
    head = json.loads(seg[0])
    for prop, match, what in load_known():
        if prop != run.prop:
            continue
        ok = True
        for k, v in match.items():
            got = head.get(k[4:]) if k.startswith('seg.') else ev.get(k)
            if isinstance(v, str) and v.startswith('re:'):
                ok = ok and got is not None and re.search(v[3:], str(got)) is not None
            else:
                ok = ok and got == v
        if ok:
            return what
    return None


def validate(run, trace, module, cfg='Trace.cfg', timeout=600, silent=False, max_viol=6, chunk=12000):
    """lets TLC match the recorded segments against the specification"""
    lines = [l for l in open(trace, errors='replace').read().split('\n') if l]
    segs = segments(lines)
    if not segs:
        raise ToolError('empty trace')
    run.segments += len(segs)
    run.events += len(lines)
    for l in lines:
        e = json.loads(l)['e']
        run.counts[e] = run.counts.get(e, 0) + 1
    run.samples.append(sample_of(segs))
    # chunks of whole segments
    chunks, cur, n = [], [], 0
    for s in segs:
        if n + len(s) > chunk and cur:
            chunks.append(cur)
            cur, n = [], 0
        cur.append(s)
        n += len(s)
    chunks.append(cur)
    nviol = 0
    for ch in chunks:
        while ch:
            tf = os.path.join(run.scratch, 'chunk.ndjson')
            ls = [l for s in ch for l in s]
            open(tf, 'w').write('\n'.join(ls) + '\n')
            rc, txt = tlc(run, module, cfg, env={'TRACE': tf}, timeout=timeout, workers=1,
                          jopts=['-Dtlc2.tool.queue.IStateQueue=StateDeque'] if silent else [])
            m = re.search(r'<<"MATCHED", (-?\d+), (\d+)>>', txt)
            n = nums(txt)
            if not m or int(m.group(2)) != len(ls) or ('No error has been found' not in txt):
                if os.environ.get('VERIF_KEEP'):
                    shutil.copy(tf, '/tmp/failed-chunk.ndjson')
                raise ToolError('trace validation failed to run (rc %d)\n%s' % (rc, txt[-3500:]))
            run.tstates += n[1]
            got = int(m.group(1))
            if got >= len(ls):
                break
            # which segment and event was rejected
            pos = got
            k = 0
            while pos >= len(ch[k]):
                pos -= len(ch[k])
                k += 1
            seg, ev = ch[k], json.loads(ch[k][pos])
            what = is_known(run, ev, seg)
            if what:
                run.known.add(what)
            else:
                report(run, seg, pos, module)
                nviol += 1
                if nviol >= max_viol:
                    return
            # the accepted segments need not be looked at again; go on after the rejected one
            ch = ch[k + 1:]


def sample_of(segs):
    s = max(segs[:50], key=lambda s: min(len(s), 8))
    return [l[:400] for l in s[:8]]


def report(run, seg, pos, module):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.ndjson' % (run.prop, len(run.violations) + 1))
    with open(path, 'w') as f:
        f.write(json.dumps({'property': run.prop, 'tier': run.tier, 'seed': run.seed, 'spec': module, 'rejected_line': pos + 2,
                            'note': 'the events below were recorded from the real code; the last one is not allowed by the specification'}) + '\n')
        for l in seg[:pos + 1]:
            f.write(l + '\n')
    ev = seg[pos]
    run.log('rejected by %s: event %d of a segment: %s' % (module, pos, ev[:700]))
    run.violations.append(path)


def evidence(run):
    cov = {
        'states': sum(m['states'] for m in run.mc) + run.tstates,
        'transitions': sum(m['transitions'] for m in run.mc),
        'model_checking_runs': run.mc,
        'behaviours_generated_by_tlc': run.behaviours,
        'traces_validated_against_impl': run.segments,
        'trace_events_validated': run.events,
        'event_counts': run.counts,
        'samples': run.samples,
    }
    lvl = run.cfg['level']
    if lvl in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = run.events
        cov['distinct_nontrivial'] = run.segments
        cov['rule'] = run.cfg.get('rule', 'each segment is one program/schedule/crash point run on the real code; a segment counts once')
    doc = {'property': run.prop, 'tier': run.tier if run.tier in ('quick', 'thorough') else 'quick', 'seed': run.seed, 'level': lvl,
           'coverage': cov, 'assumptions': run.cfg.get('assumptions', []), 'wall_s': round(time.time() - run.t0, 2),
           'violations': len(run.violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', run.prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)


def main(props, argv):
    if len(argv) != 1 or argv[0] not in props:
        print('usage: check.py PROPERTY; properties:', ' '.join(sorted(props)))
        sys.exit(2)
    prop = argv[0]
    run = Run(prop, props[prop])
    code = 2
    try:
        props[prop]['run'](run)
        evidence(run)
        for w in sorted(run.known):
            print('KNOWN-FINDING: property=%s %s' % (prop, w))
        for v in run.violations:
            print('VIOLATION property=%s replay=%s' % (prop, v))
        code = 1 if run.violations else 0
        run.log('done: %d segments, %d events validated; %d violations' % (run.segments, run.events, len(run.violations)))
    except ToolError as e:
        print('CHECK-ERROR:', e)
        if run.violations:  # what was already established stands
            for v in run.violations:
                print('VIOLATION property=%s replay=%s' % (prop, v))
            code = 1
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('scratch kept:', run.scratch)
        else:
            shutil.rmtree(run.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
