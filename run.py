#!/usr/bin/env python3
"""Builds the harnesses of one property from /repo's working tree, explores them exhaustively, writes evidence.

usage: run.py PROPERTY            exit 0 held, 1 violation (line on stdout), 2 the check itself failed
       run.py --replay FILE       re-executes one recorded violation
       run.py --all [--jobs N]    every property, one after another (development)
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

PACKAGES = ['lib', 'rotationlib', 'kalman_filter', 'extraction', 'localization', 'ekf_localizer', 'mapping',
            'map_loader', 'map_tf_generator', 'path_generator', 'imu_integration']
LIBRARIES = ['lib', 'rotationlib', 'kalman_filter', 'extraction', 'localization', 'ekf_localizer']
SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all',
       '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer']
FAST = ['-O2', '-g1', '-fsanitize=undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all',
        '-D_GLIBCXX_ASSERTIONS']
BASE = ['-std=c++17', '-w', '-pthread', '-ftrivial-auto-var-init=pattern', '-DEIGEN_INITIALIZE_MATRICES_BY_NAN']   # what is never set shows
SCHED = ['-O1', '-g1', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS', '-DSHIM_SCHED']     # callbacks implemented by mc/sched_rt.cpp
WRAP = ['-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc']
LIBS = ['-lpcl_io', '-lpcl_kdtree', '-lpcl_search', '-lpcl_filters', '-lpcl_octree', '-lpcl_common', '-lfmt',
        '-lboost_system', '-lboost_filesystem', '-lstdc++fs', '-ldl']


def includes(shim):
    inc = []
    for s in shim:
        inc += ['-I', os.path.join(HERE, 'shim', s)]
    for p in PACKAGES:
        inc += ['-I', os.path.join(REPO, p, 'include')]
    inc += ['-I', REPO, '-I', HERE]
    pcl = sorted(glob.glob('/usr/include/pcl-*'))
    for d in pcl + ['/usr/include/eigen3']:
        inc += ['-isystem', d]
    return inc


def compiler(cxx):
    return (['ccache'] if os.environ.get('VERIF_CCACHE') else []) + [cxx]


def run(cmd, timeout=880, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout: ' + ' '.join(cmd)[:200]


class BuildError(Exception):
    pass


def sources(h):
    out = []
    for p in h.get('pkgs', []):
        pat = os.path.join(REPO, p, '**' if h.get('wide') else 'src', '**', '*.cpp')
        skip = h.get('skip', {}).get(p, [])
        for f in sorted(glob.glob(pat, recursive=True)):
            if os.path.basename(f) not in skip and '/test/' not in f[len(REPO):] and f not in out:
                out.append(f)
    return out


def build_all(harnesses, tmp):
    """{harness name: exe or BuildError}; clang++ (twice as fast here), and g++ where clang++ does not manage"""
    exes = build_with('clang++', harnesses, tmp)
    again = [h for h in harnesses if isinstance(exes.get(h['name']), BuildError)]
    if again:
        exes.update(build_with('g++', again, tmp))
    # code that moved to another place or came to use another library of the tree
    wide = [dict(h, pkgs=h.get('pkgs', []) + [p for p in LIBRARIES if p not in h.get('pkgs', [])], wide=True)
            for h in harnesses if isinstance(exes.get(h['name']), BuildError) and 'link failed' in str(exes[h['name']])]
    if wide:
        exes.update({n: e for n, e in build_with('clang++', wide, tmp).items() if not isinstance(e, BuildError)})
    return exes


def build_with(cxx, harnesses, tmp):
    """compile everything in parallel"""
    jobs = {}
    plan = {}
    for h in harnesses:
        if h.get('kind', 'cpp') != 'cpp':
            continue
        mode = SCHED if h.get('sched') else FAST if h.get('fast') else SAN
        flags = BASE + mode + h.get('flags', []) + includes(h.get('shim', ['ros', 'compat']))
        if cxx == 'clang++':
            flags = flags + ['-include', os.path.join(HERE, 'shim', 'clang_eigen.hpp')]
        objs = []
        for s in [os.path.join(HERE, 'h', x) for x in [h['src']] + h.get('more', [])] + sources(h):
            key = hashlib.sha1((cxx + ' '.join(flags) + '\0' + s).encode()).hexdigest()[:16]
            o = os.path.join(tmp, key + '.o')
            jobs[o] = compiler(cxx) + flags + ['-c', s, '-o', o]
            objs.append((s, o))
        if h.get('sched'):
            o = os.path.join(tmp, 'sched_rt.%s.o' % cxx)
            s = os.path.join(HERE, 'mc', 'sched_rt.cpp')
            jobs[o] = compiler(cxx) + BASE + ['-O2', '-I', HERE, '-I', os.path.join(HERE, 'mc'), '-c', s, '-o', o]
            objs.append((s, o))
        plan[h['name']] = objs
    results = {}
    order = sorted(jobs, key=lambda o: 0 if '/h/' in jobs[o][-3] else 1)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for o, r in zip(order, ex.map(lambda o: run(jobs[o]), order)):
            results[o] = r
    exes = {}

    def link(h):
        objs = plan[h['name']]
        main = objs[0]
        if results[main[1]][0]:
            return BuildError('does not compile against the tree: %s\n%s' % (h['src'], results[main[1]][1][-3000:]))
        good = [o for _, o in objs[1:] if results[o][0] == 0]
        bad = [(s, results[o][1]) for s, o in objs[1:] if results[o][0]]
        ar = os.path.join(tmp, h['name'] + cxx + '.a')
        if good:
            run(['ar', 'rcs', ar] + sorted(set(good)))
        exe = os.path.join(tmp, h['name'])
        mode = WRAP if h.get('sched') else FAST if h.get('fast') else SAN
        rc, log = run([cxx] + BASE + mode + h.get('flags', []) + [main[1]] +
                      (['-Wl,--start-group', ar, '-Wl,--end-group'] if good else []) + ['-o', exe] + LIBS +
                      h.get('libs', []))
        if rc:
            return BuildError('link failed: %s\n%s\n%s' % (h['name'], log[-2500:], '\n'.join(
                s + ': ' + l[-800:] for s, l in bad)))
        return exe

    cpp = [h for h in harnesses if h['name'] in plan]
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for h, r in zip(cpp, ex.map(link, cpp)):
            exes[h['name']] = r
    return exes


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def child_env(prop, tmp):
    env = dict(os.environ)
    keys = [k['key'] for k in load_known()['findings'] if k['property'] == prop]
    env['MC_KNOWN'] = ','.join(keys)
    env['VERIF_TIER'] = TIER
    env['VERIF_REPO'] = REPO
    env['VERIF_PROP'] = prop
    env['PYTHONPATH'] = HERE + ':' + os.path.join(HERE, 'shim', 'py')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['ASAN_OPTIONS'] = 'detect_leaks=0:detect_container_overflow=0:abort_on_error=0:allocator_may_return_null=0:' \
                          'detect_stack_use_after_return=1:color=never'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:color=never'
    env['TMPDIR'] = tmp
    env['OMP_NUM_THREADS'] = '1'
    env['MC_EXES'] = tmp
    env['ROS_LOG_DIR'] = tmp
    return env


def command(h, exe, tmp, extra):
    if h.get('kind', 'cpp') == 'cpp':
        return [exe] + extra
    if h['kind'] == 'py':
        python = next((p for p in (shutil.which('python3-vt'), '/opt/veriftools/pyvenv/bin/python3') if p and os.path.exists(p)), sys.executable)
        return [python, os.path.join(HERE, 'h', h['src'])] + extra
    raise KeyError(h['kind'])


def check(prop):
    t0 = time.time()
    spec = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop.lower(), dir=os.environ.get('VERIF_TMP', '/tmp'))
    try:
        return _check(prop, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _check(prop, spec, tmp, t0):
    exes = build_all(spec['harnesses'], tmp)
    build_s = time.time() - t0
    env = child_env(prop, tmp)
    budget = spec.get('budget', (150, 3000))[1 if TIER == 'thorough' else 0]
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'distinct_outcomes': 0,
           'distinct_state_hashes': 0, 'samples': [], 'scenarios': {}, 'exhaustive': True,
           'bounds': spec.get('bounds', ''), 'build_s': round(build_s, 1)}
    violations, known, problems = [], {}, []
    ran = 0
    for h in spec['harnesses']:
        exe = exes.get(h['name'])
        if isinstance(exe, BuildError):
            missing = spec.get('linkable') and re.search(r'undefined (?:reference to|symbol:?) [`\']?(%s[^\n\']*)' % spec['linkable'], str(exe))
            if missing:                                      # the statement promises a usable class
                violations.append((h, {'name': 'link', 'choices': '', 'kind': 'link', 'log': str(exe)[-3000:],
                                       'message': 'declared but not defined, so that no program can use it: ' + missing.group(1)}))
            problems.append(str(exe))
            continue
        if h.get('helper'):                                  # built for another harness to run
            continue
        out = os.path.join(tmp, h['name'] + '.json')
        sub = os.path.join(tmp, h['name'] + '.d')
        os.mkdir(sub)
        rc, log = run(command(h, exe, tmp, ['--out', out, '--tmp', sub, '--budget', str(budget), '--jobs',
                                            str(os.cpu_count() or 8)] + h.get('args', [])),
                      timeout=budget * 3 + 600, env=env)
        sys.stdout.write(log)
        if rc not in (0, 1) or not os.path.exists(out):
            problems.append('%s: exit %d\n%s' % (h['name'], rc, log[-3000:]))
            if not os.path.exists(out):
                continue
        with open(out) as f:
            res = json.load(f)
        ran += 1
        for s in res['scenarios']:
            cov['states'] += s['nodes']
            cov['transitions'] += s['steps']
            cov['traces_validated_against_impl'] += s['executions']
            cov['distinct_outcomes'] += s['outcomes']
            cov['distinct_state_hashes'] += s['states']
            cov['exhaustive'] = cov['exhaustive'] and not s['capped'] and not s['violated'] and not s['error']
            cov['samples'] += s['samples'][:3]
            cov['scenarios'][h['name'] + '/' + s['name']] = {
                k: s[k] for k in ('executions', 'nodes', 'steps', 'outcomes', 'states', 'pruned', 'capped', 'counters',
                                  'wall')}
            for k, (n, msg) in s['known'].items():
                known.setdefault(k, [0, msg])[0] += n
            if s['violated']:
                violations.append((h, s))
            if s['error']:
                problems.append('%s/%s: %s' % (h['name'], s['name'], s['message']))
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    lines = []
    for i, (h, s) in enumerate(violations):
        path = os.path.join(HERE, 'evidence', 'replays', '%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': h['name'], 'scenario': s['name'], 'choices': s['choices'],
                       'kind': s['kind'], 'message': s['message'], 'log': s['log']}, f, indent=1)
        print('%s/%s (%s): %s' % (h['name'], s['name'], s['kind'], s['message'][:1500]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    if problems:
        cov['exhaustive'] = False
        cov['not_run'] = [p[:600] for p in problems]
        for p in problems:
            print('NOTE: ' + p)
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    if known:
        ev['coverage']['known_findings_seen'] = {k: v[0] for k, v in known.items()}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in load_known()['findings']:
        if k['property'] == prop and k['key'] in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for l in lines:
        print(l)
    if lines:
        return 1
    if ran == 0 or (problems and not spec.get('tolerate_missing', True)):
        return 2
    # a harness whose entry points no longer exist is reported but does not decide, as long as another one did
    if any('does not compile' not in p and 'link failed' not in p for p in problems):
        return 2
    print('%s held: %d executions, %d transitions, %.1f s' % (
        prop, cov['traces_validated_against_impl'], cov['transitions'], time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    spec = CHECKS[r['property']]
    h = [x for x in spec['harnesses'] if x['name'] == r['harness']]
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        exes = build_all(h + [x for x in spec['harnesses'] if x.get('helper')], tmp)
        exe = exes.get(h[0]['name'])
        if isinstance(exe, BuildError):
            print(exe)
            return 2
        rc, log = run(command(h[0], exe, tmp, ['--tmp', tmp, '--replay', r['scenario'] + ':' + r['choices']] +
                              h[0].get('args', [])), env=child_env(r['property'], tmp))
        print(log)
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == '--replay':
        return replay(argv[1])
    if argv[0] == '--all':
        bad = []
        ids = argv[1:] or sorted(CHECKS)
        for p in ids:
            t = time.time()
            rc, log = run([sys.executable, os.path.join(HERE, 'run.py'), p], timeout=4000)
            print('%s rc=%d %.1fs' % (p, rc, time.time() - t), flush=True)
            if rc:
                bad.append(p)
                print(log[-3000:])
        print('bad:', bad)
        return 1 if bad else 0
    if argv[0] not in CHECKS:
        print('no such property: ' + argv[0])
        return 2
    return check(argv[0])


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
