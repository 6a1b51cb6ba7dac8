"""Stateless explicit-state explorer for Python drivers: the same protocol as mc.hpp.

pymc.main(body) enumerates every sequence of answers of choose(n) that body() makes.  Worker w of W executes
the executions whose first SHARD_DEPTH choices hash to w.
"""
import json, mmap, os, struct, sys, time, traceback

tier = 0
ext = None
shard, shards = 0, 1
SHARD_DEPTH = 3
_path, _width = [], []
_depth = 0
_hash = 0
_shm = None
replaying = False
trace = []
executions = transitions = validated = max_depth = 0
states, outcomes = set(), set()
counters, known_hits = {}, {}
M = (1 << 64) - 1


class Violation(BaseException):
    pass


class Prune(BaseException):
    pass


class Stop(BaseException):
    pass


def mix(h, v):
    h = (h ^ ((v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)) & M)) & M
    h = (h * 0xff51afd7ed558ccd) & M
    return h ^ (h >> 33)


def choose(n, what=''):
    global _depth, _hash
    if n <= 0:
        sys.stderr.write('choose(%d) %s\n' % (n, what))
        os._exit(3)
    d = _depth
    _depth += 1
    if d >= len(_path):
        _path.append(0)
        _width.append(n)
    elif d < len(_width) and _width[d] != n:
        sys.stderr.write('nondeterministic driver: choice %d (%s) had %d alternatives, now %d\n' % (d, what, _width[d], n))
        os._exit(3)
    if d >= len(_width):
        _width.append(n)
    if _path[d] >= n:
        sys.stderr.write('replay: choice %d (%s) out of range\n' % (d, what))
        os._exit(3)
    if _shm is not None and d + 1 < 4000:
        struct.pack_into('i', _shm, 4 * (d + 1), _path[d])
        struct.pack_into('i', _shm, 0, _depth)
    if d < SHARD_DEPTH:
        _hash = mix(_hash, _path[d] + 1)
    if _depth == SHARD_DEPTH and not replaying and _hash % shards != shard:
        raise Prune()
    return _path[d]


def flip(what=''):
    return choose(2, what) == 1


def pick(seq, what=''):
    return seq[choose(len(seq), what)]


def fail(msg):
    raise Violation(msg)


def log(msg):
    if replaying:
        trace.append(str(msg)[:1500])
        sys.stderr.write('  %s\n' % trace[-1])
        sys.stderr.flush()


def state(*key):
    if len(states) < 500000:
        h = 1469598103934665603
        for b in repr(key).encode():
            h = ((h ^ b) * 1099511628211) & M
        states.add(h)


def outcome(*key):
    outcomes.add(hash(repr(key)))


def step(n=1):
    global transitions
    transitions += n


def matched(n=1):
    global validated
    validated += n


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


def known(key, msg):
    e = known_hits.setdefault(key, [msg, 0])
    e[1] += 1


def _run(body):
    """-> (ok, mine, msg)"""
    global _depth, _hash
    _depth, _hash = 0, 0x1234
    if _shm is not None:
        struct.pack_into('i', _shm, 0, 0)
    ok, msg = True, ''
    try:
        body()
    except Violation as v:
        ok, msg = False, str(v)
    except Prune:
        return True, False, ''
    except Stop:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        ok, msg = False, 'unexpected exception: %s: %s (%s)' % (type(e).__name__, e, where)
    if _depth < SHARD_DEPTH and not replaying and _hash % shards != shard:
        return True, False, ''
    return ok, True, msg


def parse():
    """Command line; called by the driver before it imports the extension"""
    global tier, ext, shard, shards, replaying, _shm, _args
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    tier = 1 if a.get('--tier') == 'thorough' else 0
    ext = a.get('--ext')
    if '--shard' in a:
        shard, shards = map(int, a['--shard'].split('/'))
    if '--shm' in a:
        f = open(a['--shm'], 'w+b')
        f.truncate(4096 * 4)
        f.flush()
        _shm = mmap.mmap(f.fileno(), 4096 * 4)
    replaying = '--replay' in a
    if not replaying or os.environ.get('MC_QUIET'):
        n = os.open('/dev/null', os.O_WRONLY)
        os.dup2(n, 1)
        if not replaying and not os.environ.get('MC_STDERR'):
            os.dup2(n, 2)
    _args = a
    return a


def main(body):
    global executions, max_depth, _path, _width
    a = _args
    deadline = float(a.get('--deadline', 1e9))
    t0 = time.time()
    violated, exhaustive, msg, vpath = False, True, '', ''
    samples = []
    if replaying:
        _path[:] = [int(x) for x in a['--replay'].split(',') if x]
        ok, _, msg = _run(body)
        executions, violated = 1, not ok
        vpath = ','.join(map(str, _path[:_depth]))
        sys.stderr.write('%s %s\n' % ('HELD' if ok else 'VIOLATED:', msg))
    else:
        stamp = 0
        while True:
            stamp += 1
            if time.time() - t0 > deadline:
                exhaustive = False
                break
            if _shm is not None:
                struct.pack_into('i', _shm, 4 * 4001, stamp & 0x7fffffff)
            ok, mine, msg = _run(body)
            if mine:
                executions += 1
                max_depth = max(max_depth, _depth)
                if not ok:
                    violated, vpath = True, ','.join(map(str, _path[:_depth]))
                    break
                if len(samples) < 2 or (len(samples) < 4 and executions % 1009 == 0):
                    samples.append(','.join(map(str, _path[:_depth])))
            del _path[_depth:]
            del _width[len(_path):]
            while _path and _path[-1] + 1 >= _width[-1]:
                _path.pop()
                _width.pop()
            if not _path:
                break
            _path[-1] += 1
    if '--hashes' in a:
        with open(a['--hashes'], 'wb') as f:
            f.write(struct.pack('%dQ' % len(states), *states))
    with open(a.get('--out', '/dev/null'), 'w') as f:
        json.dump(dict(executions=executions, transitions=transitions, states=len(states), outcomes=len(outcomes), validated=validated,
                       max_depth=max_depth, exhaustive=exhaustive and not violated, state_cap=len(states) >= 500000, violated=violated,
                       path=vpath, message=msg, samples=samples, trace=trace, counters=counters, known=known_hits), f)
    sys.stdout.flush()
    os._exit(1 if violated else 0)
