"""Exhaustive explorer for Python code under test: every combination of a scenario's choices is executed on the real code.

Depth-first over choice sequences, by re-execution; the tree is split over processes by its first two choices. Same
command line and result format as mc/mc.hpp.
"""
import hashlib, json, os, signal, sys, time, traceback

SCENARIOS = []


def tier(quick, deep):
    return deep if os.environ.get('VERIF_TIER') == 'thorough' else quick


def scenario(f):
    SCENARIOS.append(f)
    return f


class Violation(Exception):
    pass


class NotMine(Exception):
    pass


class Pruned(Exception):
    pass


class Finding(Exception):
    pass


class Hang(Exception):
    pass


KNOWN = [k for k in os.environ.get('MC_KNOWN', '').split(',') if k]


class Ctx:
    def __init__(self, prefix, worker, jobs):
        self.prefix, self.worker, self.jobs = prefix, worker, jobs
        self.path, self.widths, self.steps, self.notes, self.result, self.counters = [], [], 0, [], None, {}

    def choose(self, n):
        assert n > 0
        i = len(self.path)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError('the same choices led elsewhere: %s' % self.path)
        self.path.append(c)
        self.widths.append(n)
        if i == 1 and self.jobs > 1 and (self.path[0] * 7 + c) % self.jobs != self.worker:
            raise NotMine()
        return c

    def flag(self):
        return self.choose(2) == 1

    def pick(self, xs):
        return xs[self.choose(len(xs))]

    def range(self, lo, hi):
        return lo + self.choose(hi - lo + 1)

    def step(self, n=1):
        self.steps += n

    def note(self, s):
        self.notes.append(s)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def outcome(self, x):
        self.result = x

    def check(self, ok, msg, *args):
        if not ok:
            raise Violation(msg % args if args else msg)

    def finding(self, key, msg):
        if key in KNOWN:
            raise Finding(key + '\0' + msg)
        raise Violation(msg)

    def prune(self):
        raise Pruned()

    def call(self, what, f, *a, **k):
        """runs the code under test: whatever it raises is a violation"""
        try:
            return f(*a, **k)
        except (Violation, NotMine, Pruned, Finding, Hang):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('%s: %s: %s (%s:%s)' % (what, type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))


def _next(path, widths):
    path = list(path)
    while path:
        if path[-1] + 1 < widths[len(path) - 1]:
            path[-1] += 1
            return path
        path.pop()
    return None


def _alarm(*a):
    raise Hang('no answer')


def _one(f, prefix, worker, jobs):
    """-> (ctx, kind, message)"""
    ctx = Ctx(prefix, worker, jobs)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    try:
        f(ctx)
        return ctx, '', ''
    except NotMine:
        return ctx, 'skip', ''
    except Pruned:
        return ctx, 'pruned', ''
    except Violation as e:
        return ctx, 'property', str(e)
    except Hang as e:
        return ctx, 'hang', str(e)
    except Finding as e:
        return ctx, 'known', str(e)
    except BaseException:
        return ctx, 'error', traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)


def _explore(f, worker, jobs, deadline):
    r = dict(executions=0, nodes=0, steps=0, pruned=0, outcomes=set(), known={}, samples=[], capped=False, violated=None, error='', counters={})
    prefix, before = [], 0
    while prefix is not None:
        if time.time() > deadline:
            r['capped'] = True
            break
        ctx, kind, msg = _one(f, prefix, worker, jobs)
        r['nodes'] += max(0, len(ctx.path) - before)
        if kind == 'skip':
            pass
        elif len(ctx.path) < 2 and jobs > 1 and worker != 0:
            pass                                            # too short to be split: the first worker has it
        else:
            r['executions'] += kind != 'pruned'
            r['pruned'] += kind == 'pruned'
            r['steps'] += ctx.steps
            for k, v in ctx.counters.items():
                r['counters'][k] = r['counters'].get(k, 0) + v
            if ctx.result is not None:
                r['outcomes'].add(int(hashlib.sha1(repr(ctx.result).encode()).hexdigest()[:12], 16))
            if len(r['samples']) < 6 and ctx.notes:
                r['samples'].append('; '.join(ctx.notes)[:300])
            if kind == 'known':
                k, m = msg.split('\0', 1)
                r['known'].setdefault(k, [0, m])[0] += 1
            elif kind in ('property', 'hang'):
                r['violated'] = (list(ctx.path), kind, msg, '; '.join(ctx.notes))
                break
            elif kind == 'error':
                r['error'] = msg
                break
        prefix = _next(ctx.path, ctx.widths)
        before = len(prefix) - 1 if prefix else 0
    return r


def _fork(fn):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            out = json.dumps(fn(), default=list)
        except BaseException:
            out = json.dumps({'crash': traceback.format_exc()[-1500:]})
        with os.fdopen(wr, 'w') as w:
            w.write(out)
        os._exit(0)
    os.close(wr)
    return pid, rd


def _collect(pid, rd):
    with os.fdopen(rd) as r:
        s = r.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else {'crash': 'the process died'}


def main(argv=None):
    argv = list(argv if argv is not None else sys.argv[1:])
    opt = {'--jobs': '8', '--budget': '150', '--out': '', '--tmp': '/tmp', '--replay': '', '--only': ''}
    while argv:
        k = argv.pop(0)
        opt[k] = argv.pop(0) if argv else ''
    jobs, t0 = int(opt['--jobs']), time.time()
    if opt['--replay']:
        name, _, ch = opt['--replay'].partition(':')
        f = [s for s in SCENARIOS if s.__name__ == name][0]
        ctx, kind, msg = _one(f, [int(c) for c in ch.split(',') if c], 0, 1)
        print('; '.join(ctx.notes))
        print('VIOLATED (%s): %s' % (kind, msg) if kind in ('property', 'hang') else kind + msg if kind == 'error' else 'held')
        return 1 if kind in ('property', 'hang') else 2 if kind == 'error' else 0
    out, rc = [], 0
    for f in SCENARIOS:
        if opt['--only'] and f.__name__ != opt['--only']:
            continue
        t = time.time()
        deadline = max(t0 + float(opt['--budget']), t + 5)
        parts = [_collect(*p) for p in [_fork(lambda w=w: _explore(f, w, jobs, deadline)) for w in range(jobs)]]
        s = dict(name=f.__name__, executions=0, nodes=0, steps=0, pruned=0, outcomes=0, states=0, capped=False, wall=0, counters={}, known={},
                 samples=[], violated=False, error=False, kind='', message='', choices='', log='')
        seen, bad = set(), []
        for p in parts:
            if 'crash' in p:
                s['error'], s['message'] = True, p['crash']
                continue
            for k in ('executions', 'nodes', 'steps', 'pruned'):
                s[k] += p[k]
            seen |= set(p['outcomes'])
            for k, v in p['counters'].items():
                s['counters'][k] = s['counters'].get(k, 0) + v
            for k, (n, m) in p['known'].items():
                s['known'].setdefault(k, [0, m])[0] += n
            s['samples'] += p['samples']
            s['capped'] = s['capped'] or p['capped']
            if p['violated']:
                bad.append(p['violated'])
            if p['error']:
                s['error'], s['message'] = True, p['error']
        s['outcomes'], s['samples'] = len(seen), sorted(s['samples'])[:6]
        if bad:
            path, kind, msg, log = min(bad)
            again = _collect(*_fork(lambda: _one(f, path, 0, 1)[1:]))     # alone, in a fresh process
            if not (isinstance(again, list) and again[0] == kind):
                kind, msg = 'history', 'only after the preceding executions in the same process (the result depends on earlier, unrelated calls): ' + msg
            s.update(violated=True, kind=kind, message=msg, choices=','.join(map(str, path)), log=log)
            rc = 1
        elif s['error']:
            rc = rc or 2
        s['wall'] = round(time.time() - t, 3)
        out.append(s)
        print('%-34s exec=%d nodes=%d steps=%d outcomes=%d%s %.1fs%s' % (s['name'], s['executions'], s['nodes'], s['steps'], s['outcomes'],
              ' CAPPED' if s['capped'] else '', s['wall'], ' VIOLATED' if s['violated'] else ' ERROR' if s['error'] else ''), flush=True)
        if s['violated'] or s['error']:
            print('   %s: %s  [%s]' % (s['kind'], s['message'], s['choices']), flush=True)
    if opt['--out']:
        with open(opt['--out'], 'w') as w:
            json.dump({'scenarios': out}, w)
    return rc
