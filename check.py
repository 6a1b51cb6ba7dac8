#!/usr/bin/env python3
"""check.py ID   decide one property on /repo's working tree (tier from VERIF_TIER, default quick).

Builds the library's sources and the property's harness out of tree, lets WORKERS processes enumerate the
harness's choice tree (each owns the executions whose first choices hash to it), confirms any violation by
replaying it alone, and writes evidence/ID.json.

check.py ID --replay FILE   re-run one recorded violation with its trace on stderr.
"""
import json, mmap, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
from specs import SPECS  # noqa: E402

WORKERS = 8
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
HANG = 60          # seconds without finishing an execution before a worker is taken to hang
HANG_ALONE = 120   # ... and for the same execution on its own


def load_known():
    """lines 'known: property=ID key=KEY what fails' of known-findings.txt"""
    out = {}
    for line in open(os.path.join(HERE, 'known-findings.txt')):
        if line.startswith('known:'):
            parts = line.split(None, 3)
            prop = parts[1].split('=', 1)[1]
            key = parts[2].split('=', 1)[1]
            out.setdefault(prop, {})[key] = parts[3].strip() if len(parts) > 3 else ''
    return out


def child_env(work, spec, part=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('MC_'):
            del env[k]
    env.update((part or {}).get('env', {}))
    env.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')
    env.setdefault('UBSAN_OPTIONS', 'print_stacktrace=1:exitcode=98')
    env['OMP_NUM_THREADS'] = '1'
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['VP_REPO'] = REPO
    env['VP_WORK'] = work
    env['TZ'] = 'UTC'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    return env


def build(spec, part, work):
    out = os.path.join(work, part['name'])
    cmd = ['bash', os.path.join(HERE, 'harness', 'build.sh'), out,
           os.path.join(HERE, 'harness', part.get('src', part['name']) + '.cpp'), part.get('san', 'san')]
    if part.get('kind') == 'python':
        cmd = ['bash', os.path.join(HERE, 'harness', 'build_py.sh'), out, part.get('san', '')]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(work, spec))
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors='replace')[-4000:])
        print('check.py: build failed')
        sys.exit(2)
    if part.get('kind') == 'python':
        return ['python3', os.path.join(HERE, 'harness', part.get('src', part['name']) + '.py'), '--ext', out]
    return [os.path.join(out, 'harness')]


def read_shm(path):
    try:
        data = open(path, 'rb').read()
        if len(data) < 4096 * 4:
            return None, None
        ints = struct.unpack('4096i', data[:4096 * 4])
        n = max(0, min(ints[0], 3999))
        return list(ints[1:1 + n]), ints[4001]
    except OSError:
        return None, None


def tail(b, n=1500):
    t = b.decode(errors='replace')
    return t if len(t) <= 2 * n else t[:n] + '\n...\n' + t[-n:]


def asan_summary(text):
    for line in text.splitlines():
        if 'ERROR: AddressSanitizer' in line or 'runtime error:' in line or 'SUMMARY:' in line:
            return line.strip()[:300]
    return ''


def replay(cmd, path, work, spec, tier, part, limit=HANG_ALONE):
    """-> (kind, message, trace): kind in held, violated, crashed, hung, error"""
    out = os.path.join(work, 'replay.json')
    if os.path.exists(out):
        os.unlink(out)
    args = cmd + ['--tier', tier, '--replay', ','.join(map(str, path)), '--out', out]
    env = child_env(work, spec, part)
    env['MC_QUIET'] = '1'
    try:
        r = subprocess.run(args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=limit, cwd=work)
    except subprocess.TimeoutExpired:
        return 'hung', 'did not terminate within %d s when run alone' % limit, []
    err = tail(r.stderr)
    if r.returncode in (0, 1) and os.path.exists(out):
        d = json.load(open(out))
        return ('violated' if d['violated'] else 'held'), d['message'], d.get('trace', [])
    if r.returncode == 3:
        return 'error', err, []
    steps = [l.strip() for l in err.splitlines() if l.startswith('  ')][:40]
    return 'crashed', ('process ended with status %d; %s' % (r.returncode, asan_summary(r.stderr.decode(errors='replace')))).strip(), steps + ['---'] + err.splitlines()[-30:]


def run_part(spec, part, cmd, work, tier, deadline):
    """Run all workers. -> dict with totals and a list of violations"""
    t_end = time.time() + deadline + 240
    procs = {}

    def start(i):
        base = os.path.join(work, '%s.%d' % (part['name'], i))
        for ext in ('.json', '.shm', '.hash'):
            if os.path.exists(base + ext):
                os.unlink(base + ext)
        args = cmd + ['--tier', tier, '--shard', '%d/%d' % (i, WORKERS), '--out', base + '.json', '--hashes', base + '.hash',
                      '--shm', base + '.shm', '--deadline', str(deadline)]
        p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=child_env(work, spec, part), cwd=work,
                             start_new_session=True)
        return dict(p=p, base=base, stamp=None, since=time.time())

    tot = dict(executions=0, transitions=0, validated=0, max_depth=0, outcomes=0, exhaustive=True, samples=[], counters={}, known={}, capped=False)
    hashes = set()
    violations = []
    retried = {}
    for i in range(WORKERS):
        procs[i] = start(i)
    while procs:
        time.sleep(0.05)
        for i in list(procs):
            w = procs[i]
            rc = w['p'].poll()
            if rc is None:
                pth, stamp = read_shm(w['base'] + '.shm')
                if stamp != w['stamp']:
                    w['stamp'], w['since'] = stamp, time.time()
                limit = part.get('hang', HANG)
                if time.time() - w['since'] > limit or time.time() > t_end:
                    os.killpg(w['p'].pid, signal.SIGKILL)
                    w['p'].wait()
                    if time.time() > t_end:
                        tot['exhaustive'] = False
                        del procs[i]
                        continue
                    kind, msg, trace = replay(cmd, pth or [], work, spec, tier, part, max(HANG_ALONE, 2 * limit))
                    if kind in ('hung', 'crashed', 'violated'):
                        violations.append(dict(path=pth, message=msg, trace=trace, kind=kind))
                        del procs[i]
                    elif retried.get(i, 0) < 1:
                        retried[i] = 1
                        procs[i] = start(i)
                    else:
                        tot['exhaustive'] = False
                        del procs[i]
                continue
            del procs[i]
            js = w['base'] + '.json'
            if rc in (0, 1) and os.path.exists(js):
                d = json.load(open(js))
                for k in ('executions', 'transitions', 'validated', 'outcomes'):
                    tot[k] += d[k]
                tot['max_depth'] = max(tot['max_depth'], d['max_depth'])
                tot['exhaustive'] = tot['exhaustive'] and (d['exhaustive'] or d['violated'])
                tot['capped'] = tot['capped'] or d.get('state_cap', False)
                tot['samples'] += d['samples'][:1]
                for k, v in d['counters'].items():
                    tot['counters'][k] = tot['counters'].get(k, 0) + v
                for k, v in d['known'].items():
                    tot['known'].setdefault(k, [v[0], 0])[1] += v[1]
                try:
                    raw = open(w['base'] + '.hash', 'rb').read()
                    hashes.update(struct.unpack('%dQ' % (len(raw) // 8), raw[:len(raw) // 8 * 8]))
                except OSError:
                    pass
                if d['violated']:
                    pth = [int(x) for x in d['path'].split(',') if x != '']
                    kind, msg, trace = replay(cmd, pth, work, spec, tier, part)
                    if kind == 'held':   # depends on what ran before in the same process: confirm by the same shard
                        if retried.get(i, 0) < 1:
                            retried[i] = 1
                            w2 = start(i)
                            w2['expect'] = d
                            procs[i] = w2
                            continue
                        violations.append(dict(path=pth, message=d['message'], trace=['(reproduced twice by worker %d/%d; not when run alone)' % (i, WORKERS)], kind='violated', shard='%d/%d' % (i, WORKERS)))
                    elif kind == 'error':
                        print('check.py: replay error', msg)
                        sys.exit(2)
                    else:
                        violations.append(dict(path=pth, message=d['message'] if kind == 'violated' else msg, trace=trace, kind=kind))
            elif rc == 3:
                print('check.py: worker reports a nondeterministic driver')
                sys.exit(2)
            else:
                pth, _ = read_shm(w['base'] + '.shm')
                kind, msg, trace = replay(cmd, pth or [], work, spec, tier, part)
                if kind in ('crashed', 'hung', 'violated'):
                    violations.append(dict(path=pth, message=msg, trace=trace, kind=kind))
                elif retried.get(i, 0) < 1:
                    retried[i] = 1
                    procs[i] = start(i)
                else:
                    violations.append(dict(path=pth, message='process ended with status %s (reproduced twice by worker %d/%d, not when run alone)' % (rc, i, WORKERS), trace=[], kind='crashed', shard='%d/%d' % (i, WORKERS)))
        if violations:   # one confirmed violation decides
            for w in procs.values():
                try:
                    os.killpg(w['p'].pid, signal.SIGKILL)
                except OSError:
                    pass
                w['p'].wait()
            tot['exhaustive'] = False
            break
    tot['states'] = len(hashes)
    tot['violations'] = violations
    return tot


def main():
    prop = sys.argv[1]
    spec = SPECS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(HERE, 'build'))
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            rec = json.load(open(sys.argv[3]))
            part = [p for p in spec['parts'] if p['name'] == rec['part']][0]
            cmd = build(spec, part, work)
            kind, msg, trace = replay(cmd, rec['path'], work, spec, rec['tier'], part)
            print(kind, msg)
            for t in trace:
                print('   ', t)
            return 1 if kind in ('violated', 'crashed', 'hung') else 0
        known = load_known().get(prop, {})
        results = {}
        violated = None
        budget = spec.get('budget', 420) if TIER == 'quick' else 700
        for part in spec['parts']:
            if TIER not in part.get('tiers', ('quick', 'thorough')):
                continue
            cmd = build(spec, part, work)
            left = budget - (time.time() - t0)
            res = run_part(spec, part, cmd, work, TIER, max(30, int(left)))
            results[part['name']] = res
            unlisted = [k for k in res['known'] if k not in known]
            if unlisted:
                res['violations'].append(dict(path=[], message=res['known'][unlisted[0]][0], trace=[], kind='violated'))
            if res['violations']:
                violated = (part['name'], res['violations'][0])
                break
        ev = dict(property=prop, tier=TIER, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking')
        samples = []
        for n, r in results.items():
            samples += ['%s: choices %s' % (n, s) for s in r['samples'][:6]]
        ev['coverage'] = dict(
            states=sum(r['states'] for r in results.values()),
            transitions=sum(r['transitions'] for r in results.values()),
            traces_validated_against_impl=sum(r['executions'] for r in results.values()),
            comparisons=sum(r['validated'] for r in results.values()),
            distinct_outcomes=sum(r['outcomes'] for r in results.values()),
            max_choices_per_execution=max(r['max_depth'] for r in results.values()),
            samples=samples,
            exhaustive=all(r['exhaustive'] for r in results.values()) and not violated,
            counters={n + '.' + k: v for n, r in results.items() for k, v in r['counters'].items()},
            bound=spec['bound'])
        ev['assumptions'] = spec.get('assumptions', [])
        ev['violations'] = 1 if violated else 0
        ev['wall_s'] = round(time.time() - t0, 2)
        path = os.path.join(HERE, 'evidence', prop + '.json')
        json.dump(ev, open(path + '.tmp', 'w'), indent=1)
        os.replace(path + '.tmp', path)
        for n, r in results.items():
            print('%s/%s: %d executions, %d states, %d transitions, %d comparisons, %s' % (
                prop, n, r['executions'], r['states'], r['transitions'], r['validated'],
                'exhaustive' if r['exhaustive'] else 'NOT exhaustive'))
            for k, v in r['known'].items():
                if k in known:
                    print('KNOWN-FINDING: property=%s %s (%d states; e.g. %s)' % (prop, known[k], v[1], v[0]))
        if violated:
            part, v = violated
            rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
            json.dump(dict(property=prop, part=part, tier=TIER, path=v['path'], message=v['message'], kind=v['kind'],
                           trace=v['trace'], shard=v.get('shard'),
                           how='python3 check.py %s --replay <this file>' % prop), open(rp, 'w'), indent=1)
            print(v['message'])
            for t in v['trace'][:60]:
                print('   ', t)
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
