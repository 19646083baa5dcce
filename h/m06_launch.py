"""M06: every launch description under every combination of launch arguments, against what the programs really do.

What each program subscribes to, publishes and declares is not read from its source: the program is built against the
recording stand-ins and started (h/m06_iface.cpp), and the Python node is constructed.
"""
import copy, glob, json, os, re, subprocess, sys, xml.etree.ElementTree as ET
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'point_type_converter'))
sys.dont_write_bytecode = True
import yaml                                                                # noqa: E402
from mc.mcpy import main, scenario                                         # noqa: E402
import launch.substitutions                                                # noqa: E402
from launch import LaunchContext                                           # noqa: E402
from rclpy.qos import QoSReliabilityPolicy, QoSDurabilityPolicy            # noqa: E402
from rclpy.world import world                                              # noqa: E402

EXES, TMP = os.environ.get('MC_EXES', '/tmp'), os.environ.get('TMPDIR', '/tmp')
HELPERS = {'lidar_feature_extraction': 'm06_extraction', 'lidar_feature_localization': 'm06_localization', 'lidar_feature_mapping': 'm06_mapping',
           'path_generator': 'm06_path', 'ekf_localizer': 'm06_ekf', 'lidar_feature_map_loader': 'm06_loader', 'map_tf_generator': 'm06_viewer'}


def packages():
    r = {}
    for f in glob.glob(os.path.join(REPO, '*', 'package.xml')):
        r[re.search(r'<name>\s*(.*?)\s*</name>', open(f).read()).group(1)] = os.path.dirname(f)
    return r


def executables(path):
    """{executable: component class or ''} that the package builds and installs"""
    r = {}
    cm = os.path.join(path, 'CMakeLists.txt')
    if os.path.exists(cm):
        s = re.sub(r'#.*', '', open(cm).read())
        m = re.search(r'project\s*\(\s*"?([\w-]+)', s)
        s = s.replace('${PROJECT_NAME}', m.group(1) if m else '')
        s = re.sub(r'foreach\s*\(\s*(\w+)\s+IN\s+ITEMS\s+(.*?)\)(.*?)endforeach\s*\(.*?\)', lambda k: ''.join(
            k.group(3).replace('${%s}' % k.group(1), v) for v in re.findall(r'"([^"]*)"|(\S+)', k.group(2)) for v in [v[0] or v[1]]), s, flags=re.S)
        for k in re.findall(r'\b(?:ament_auto_)?add_executable\s*\(\s*"?([\w${}-]+)', s):
            r[k] = ''
        for k in re.findall(r'rclcpp_components_register_node\s*\((.*?)\)', s, flags=re.S):
            p, e = re.search(r'PLUGIN\s+"?([\w:]+)', k), re.search(r'EXECUTABLE\s+"?([\w-]+)', k)
            if p and e:
                r[e.group(1)] = p.group(1)
    sp = os.path.join(path, 'setup.py')
    if os.path.exists(sp):
        for k in re.findall(r"['\"]([\w-]+)\s*=\s*[\w.]+:\w+['\"]", open(sp).read()):
            r[k] = ''
    return r


PACKAGES = packages()


def converter():
    world.reset()
    from point_type_converter import convert
    convert.PointTypeConverter()

    def one(e):
        t = e.msg_type
        return dict(topic=e.topic_raw, type='%s::msg::%s' % (t.__module__.split('.')[0], t.__name__), reliable=e.qos.reliability != QoSReliabilityPolicy.BEST_EFFORT,
                    transient_local=e.qos.durability == QoSDurabilityPolicy.TRANSIENT_LOCAL)
    return dict(subs=[one(s) for s in world.subs], pubs=[one(p) for p in world.pubs], params={k: type(v).__name__ for k, v in world.declared.items()})


def interface(package, executable):
    """None: cannot be found out"""
    if package == 'point_type_converter':
        return converter()
    exe = os.path.join(EXES, HELPERS.get(package, '-'))
    if not os.path.exists(exe):
        return None
    out = os.path.join(TMP, 'iface-%s.json' % package)
    env = dict(os.environ, TMPDIR=TMP)
    p = subprocess.run([exe, out, executables(PACKAGES[package]).get(executable, '')], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if p.returncode or not os.path.exists(out):
        return dict(failed=p.stdout.decode('utf-8', 'replace')[-500:] or 'exit code %d' % p.returncode)
    return json.load(open(out))


CACHE = {}


def evaluate(path, arguments):
    """what the description starts under the given launch arguments; also the names of all arguments it knows"""
    nodes = []
    if path.endswith('.py'):
        del launch.substitutions.names[:]
        scope = {'__name__': 'launch_file', '__file__': path}
        exec(compile(open(path).read(), path, 'exec'), scope)
        ctx = LaunchContext(arguments)
        for e in scope['generate_launch_description']().entities:
            e.visit(ctx, nodes.append)
        return nodes, sorted(launch.substitutions.names)
    root, conf, names = ET.parse(path).getroot(), dict(arguments), []

    def sub(s):
        return re.sub(r'\$\(var\s+(\w+)\)', lambda m: conf[m.group(1)], s or '')
    for e in root:
        if e.tag in ('arg', 'let'):
            names.append(e.get('name'))
            conf.setdefault(e.get('name'), sub(e.get('default') or e.get('value')))
        elif e.tag == 'node':
            ps = []
            for p in e.findall('param'):
                ps.append(sub(p.get('from')) if p.get('from') else (p.get('name'), yaml.safe_load(sub(p.get('value')))))
            nodes.append(dict(package=sub(e.get('pkg')), executable=sub(e.get('exec')), name=sub(e.get('name')), namespace=sub(e.get('namespace')) or '/', parameters=ps,
                              remappings=[(sub(r.get('from')), sub(r.get('to')), '$(var' in r.get('to')) for r in e.findall('remap')]))
    return nodes, sorted(names)


def resolve(name, ns, node):
    if name.startswith('/'):
        return name
    ns = '/' + ns.strip('/')
    if name.startswith('~'):
        return (ns.rstrip('/') + '/' + node + '/' + name[1:].lstrip('/')).rstrip('/')
    return ns.rstrip('/') + '/' + name


def parameters(ctx, what, node):
    """[(name, value)] the node gets"""
    r = []
    for p in node['parameters']:
        if isinstance(p, tuple):
            r.append(p)
            continue
        path = p if os.path.isabs(p) else os.path.join(REPO, p)
        ctx.check(os.path.exists(path), '%s: the parameter file %s does not exist', what, p)
        d = yaml.safe_load(open(path))
        used = False
        for key, v in d.items():
            if key in ('/**', '**', '/*', '*') or key.strip('/') == (node['namespace'].strip('/') + '/' + node['name']).strip('/'):
                r += list((v.get('ros__parameters') or {}).items())
                used = True
        ctx.check(used, '%s: nothing in %s is for this node', what, p)
    return r


def common(a, b):
    """both names say which kind of feature they are about, and disagree"""
    for k in ('edge', 'surface'):
        other = 'surface' if k == 'edge' else 'edge'
        if k in a and other in b:
            return False
    return True


LINKS = {'localization': [('point_type_converter', 'lidar_feature_extraction', 1), ('lidar_feature_extraction', 'lidar_feature_localization', 2),
                          ('lidar_feature_localization', 'ekf_localizer', 1), ('ekf_localizer', 'lidar_feature_localization', 1)],
         'mapping': [('point_type_converter', 'lidar_feature_extraction', 1), ('lidar_feature_extraction', 'lidar_feature_mapping', 1)],
         'odometry': [('point_type_converter', 'lidar_feature_extraction', 1)]}
# inputs that come from outside of the system under the name the code uses
OUTSIDE = ('points_raw', 'pose', 'pointcloud_map', 'initialpose', 'optimization_start_pose', 'in_twist_with_covariance')


def description(ctx, path, name):
    arguments = ctx.call(os.path.basename(path), evaluate, path, {})[1]
    chosen = {a: '/other/%s' % a for a in arguments if ctx.flag()} if name != 'viewer' else {}
    if name == 'viewer':
        chosen = {a: 'other_%s' % a for a in arguments if ctx.flag()}
    what = '%s with %s' % (os.path.basename(path), ', '.join('%s:=%s' % c for c in sorted(chosen.items())) or 'no arguments')
    ctx.note(what)
    nodes = ctx.call(what, evaluate, path, chosen)[0]
    ctx.check(nodes, '%s starts nothing', what)
    missing, pubs, subs = [], [], []
    for n in nodes:
        w = '%s, %s' % (what, n['name'] or n['executable'])
        ctx.step()
        ctx.check(n['package'] in PACKAGES, '%s: there is no package %s', w, n['package'])
        if n['executable'] not in executables(PACKAGES[n['package']]):
            missing.append((n['package'], n['executable']))
            continue
        key = (n['package'], n['executable'])
        if key not in CACHE:
            CACHE[key] = interface(*key)
        iface = CACHE[key]
        if iface is None:
            ctx.count('interface not known: ' + n['package'])
            continue
        ctx.check('failed' not in iface, '%s: %s does not start: %s', w, n['executable'], iface.get('failed'))
        ctx.check(not iface.get('missing'), '%s: %s runs a component that is not registered', w, n['executable'])
        for k, v in parameters(ctx, w, n):
            ctx.step()
            if k == 'use_sim_time':
                ctx.check(isinstance(v, bool), '%s: use_sim_time is %r', w, v)
                continue
            ctx.check(k in iface['params'], '%s: the parameter %s is not declared; declared are %s', w, k, sorted(iface['params']))
            ctx.check(type(v).__name__ == iface['params'][k], '%s: the parameter %s is %s, declared as %s', w, k, type(v).__name__, iface['params'][k])
        if n['package'] == 'lidar_feature_map_loader':
            said = [n['name']] + [v for k, v in parameters(ctx, w, n) if isinstance(v, str)] + [b for a, b, arg in n['remappings'] if not b.startswith('/other/')]
            for i, a in enumerate(said):
                ctx.check(all(common(a, b) for b in said[i + 1:]), '%s: loads and publishes different kinds of features: %s', w, said)
        rules = [(resolve(a, n['namespace'], n['name']), resolve(b, n['namespace'], n['name']), arg, a) for a, b, arg in n['remappings']]
        used = set()
        for e, to in [(e, subs) for e in iface['subs']] + [(e, pubs) for e in iface['pubs']]:
            t, arg = resolve(e['topic'], n['namespace'], n['name']), False
            for a, b, is_arg, _ in rules:
                if a == t:
                    t, arg = b, is_arg
                    used.add(a)
                    break
            to.append(dict(e, raw=e['topic'], topic=t, node=n['name'] or n['executable'], package=n['package'], argument=arg))
        for a, b, _, raw in rules:
            ctx.step()
            ctx.check(a in used, '%s: %s is remapped but the program has no such topic; it has %s', w, raw, sorted(e['topic'] for e in iface['subs'] + iface['pubs']))
    links = {}
    for s in subs:
        w = '%s: %s of %s, which is %s,' % (what, s['raw'], s['node'], s['topic'])
        found = [p for p in pubs if p['topic'] == s['topic']]
        for p in found:
            ctx.step()
            ctx.check(p['type'] == s['type'], '%s is %s but %s publishes %s', w, s['type'], p['node'], p['type'])
            ctx.check((p['reliable'] or not s['reliable']) and (p['transient_local'] or not s['transient_local']), '%s never gets what %s publishes: its quality of service asks for more', w, p['node'])
            ctx.check(common(s['raw'], p['raw']), '%s gets %s of %s', w, p['raw'], p['node'])
            links.setdefault((p['package'], s['package']), set()).add((p['raw'], s['raw']))
        ctx.check(found or s['argument'] or s['raw'].lstrip('/') in OUTSIDE, '%s is published by nobody', w)
    for p in pubs:
        for q in pubs:
            ctx.check(p is q or p['topic'] != q['topic'], '%s: %s and %s both publish %s', what, p['node'], q['node'], p['topic'])
    present = {n['package'] for n in nodes if CACHE.get((n['package'], n['executable']))}
    for a, b, k in LINKS.get(name, []):
        if {a, b} <= {n['package'] for n in nodes} and not {a, b} <= present:
            continue                                         # not known, counted above
        ctx.step()
        ctx.check(len(links.get((a, b), ())) >= k, '%s: %d of %d connections from %s to %s', what, len(links.get((a, b), ())), k, a, b)
    ctx.outcome(sorted(chosen))
    for p, e in missing:
        if (os.path.basename(path), p, e) == ('odometry.launch.py', 'lidar_feature_localization', 'lidar_feature_odometry'):
            ctx.finding('odometry-executable', '%s starts %s of %s, which is not built' % (what, e, p))
        ctx.check(False, '%s: %s has no executable %s', what, p, e)


def files():
    r = {}
    for f in sorted(glob.glob(os.path.join(REPO, '*', 'launch', '*.launch.*'))):
        n = os.path.basename(f).split('.')[0]
        r['viewer' if n == 'map_tf_generator' else n] = f
    return r


def learn():
    """every interface, once, before the exploration"""
    for path in files().values():
        try:
            nodes = evaluate(path, {})[0]
        except Exception:                                    # reported by the scenario
            continue
        for n in nodes:
            k = (n['package'], n['executable'])
            if k not in CACHE and k[0] in PACKAGES and k[1] in executables(PACKAGES[k[0]]):
                CACHE[k] = interface(*k)


def named(path, name):
    def run(ctx):
        description(ctx, path, name)
    run.__name__ = name
    return run


for _name, _path in files().items():
    scenario(named(_path, _name))

if __name__ == '__main__':
    learn()
    sys.exit(main())
