"""M04: the point converter, for every layout within the bounds, in every sequence of messages."""
import array, copy, itertools, math, os, struct, sys
sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'point_type_converter'))
sys.dont_write_bytecode = True
from mc.mcpy import main, scenario, tier                                   # noqa: E402
from rclpy.world import world                                              # noqa: E402
from sensor_msgs.msg import PointCloud2, PointField                        # noqa: E402
from point_type_converter import convert                                   # noqa: E402

SIZE = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 4, 8: 8}
CODE = {1: 'b', 2: 'B', 3: 'h', 4: 'H', 5: 'i', 6: 'I', 7: 'f', 8: 'd'}
NAMES = ('x', 'y', 'z', 'intensity', 'ring')
NAN = float('nan')
# x y z intensity ring
POINTS = [(0., 0., 0., 7., 3), (1.5, -2.25, 3., 10., 7), (0., 0., 1., 0., 0), (0., -3., 0., 255., 15), (NAN, 1., 2., 1., 1),
          (1e-38, 0., 0., 64., 127), (-0., 0., -0., 9., 9), (4., 5., 6., 0., 31), (2., NAN, NAN, 100., 64), (100000.25, -99999.75, 0.125, 33., 100),
          (2.5, -2.5, 0., 1., 2), (NAN, NAN, NAN, 2., 5), (NAN, 0., 0., 3., 6)]
TYPES = {'x': 7, 'y': 7, 'z': 7, 'intensity': 7, 'ring': 4}


def layout(order, gaps, types, extra=None):
    """order: names in the order of their offsets; gaps: bytes left free before each -> (fields, end)"""
    at, fields = 0, []
    for n, g in zip(order, gaps):
        at += g
        fields.append(PointField(name=n, offset=at, datatype=types[n], count=1))
        at += SIZE[types[n]]
    if extra:
        name, place, datatype, count = extra
        if place == 'end':
            fields.append(PointField(name=name, offset=at, datatype=datatype, count=count))
            at += SIZE[datatype] * max(1, count)
        else:                                                # over the field called place
            o = [f.offset for f in fields if f.name == place][0]
            fields.append(PointField(name=name, offset=o, datatype=datatype, count=count))
            at = max(at, o + SIZE[datatype] * max(1, count))
    return fields, at


def encode(points, fields, step, big, noise=0xA5, height=1, row_pad=0):
    e = '>' if big else '<'
    out = bytearray()
    per_row = len(points) // height
    for i, p in enumerate(points):
        b = bytearray([(noise * (k + 1 + i)) & 0xff for k in range(step)])
        for f in fields:
            if f.name in NAMES:
                v = p[NAMES.index(f.name)]
                struct.pack_into(e + CODE[f.datatype], b, f.offset, v if f.datatype >= 7 else int(v))
        out += b
        if (i + 1) % per_row == 0:
            out += bytes([0x5A] * row_pad)
    return bytes(out)


def cloud(points, fields, step, big, stamp=(12, 34), frame='lidar', height=1, row_pad=0):
    m = PointCloud2(fields=[copy.copy(f) for f in fields], is_bigendian=big, point_step=step, height=height, is_dense=False)
    m.width = len(points) // height
    m.row_step = m.width * step + row_pad
    m.header.stamp.sec, m.header.stamp.nanosec = stamp
    m.header.frame_id = frame
    m.data = array.array('B', encode(points, fields, step, big, height=height, row_pad=row_pad))
    return m


def as32(v):
    return v if math.isnan(v) else struct.unpack('<f', struct.pack('<f', v))[0]


def same(a, b):
    return (isinstance(a, float) and math.isnan(a) and math.isnan(b)) or a == b


def verify(ctx, what, msg, points, out):
    ctx.check(out.key()[:3] == msg.key()[:3], '%s: header %s', what, out.key()[:3])
    want = [p for p in points if not (p[0] == 0 and p[1] == 0 and p[2] == 0)]
    n = out.width * out.height
    ctx.check(n == len(want), '%s: %d points, expected %d', what, n, len(want))
    ctx.check(out.point_step == 32 and not out.is_bigendian, '%s: step %d, big endian %s', what, out.point_step, out.is_bigendian)
    ctx.check(out.row_step == out.point_step * out.width and len(out.data) == out.row_step * out.height, '%s: width %d, height %d, row step %d, %d bytes', what, out.width, out.height, out.row_step, len(out.data))
    at = {f.name: (f.offset, f.datatype, f.count) for f in out.fields}
    ctx.check(all(at.get(k) == v for k, v in dict(x=(0, 7, 1), y=(4, 7, 1), z=(8, 7, 1), intensity=(16, 7, 1), ring=(20, 4, 1)).items()) and
              set(at) <= set(NAMES) | {'padding'} and len(at) == len(out.fields), '%s: fields %s', what, out.fields)
    data = out.data.tobytes()
    for i, p in enumerate(want):
        got = struct.unpack_from('<fff', data, 32 * i) + struct.unpack_from('<f', data, 32 * i + 16) + struct.unpack_from('<H', data, 32 * i + 20)
        exp = tuple(as32(v) for v in p[:4]) + (int(p[4]),)
        ctx.check(all(same(a, b) for a, b in zip(got, exp)), '%s: point %d is %s, expected %s', what, i, got, exp)


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        world.reset()
        self.node = ctx.call('construction', convert.PointTypeConverter)

    def send(self, what, points, msg, *again):
        ctx, before = self.ctx, msg.key()
        del world.sent[:]
        taken = ctx.call(what, world.deliver, '/points_raw', [msg])
        ctx.check(taken == 1, '%s: %d subscriptions to /points_raw', what, taken)
        ctx.check(len(world.sent) == 1 and world.sent[0][0] == '/points_converted', '%s: %s published', what, [t for t, _ in world.sent])
        ctx.check(msg.key() == before, '%s: the incoming message was changed: %s', what, msg.fields)
        verify(ctx, what, msg, points, world.sent[0][1])
        ctx.step(1 + len(points))
        return world.sent[0][1]


def describe(fields, step, big, extra=''):
    return ' '.join('%s@%d:%s%s' % (f.name, f.offset, CODE[f.datatype], 'x%d' % f.count if f.count != 1 else '') for f in fields) + ' step %d %s%s' % (step, 'big' if big else 'little', extra)


ORDERS = list(itertools.permutations(NAMES))
GAPS = [(0, 0, 0, 0, 0), (0, 0, 0, 4, 0), (4, 0, 0, 0, 0), (0, 4, 4, 4, 4), (1, 0, 3, 0, 1), (12, 0, 0, 0, 2), (0, 8, 0, 0, 0), (0, 0, 2, 0, 7), (16, 0, 0, 0, 0), (2, 2, 2, 2, 2)]
SOME = [POINTS[1], POINTS[0], POINTS[7], POINTS[4], POINTS[3]]


@scenario
def orders(ctx):
    """every order of the fields in memory and a menu of their order in the list, gaps, step, byte order"""
    order, gaps = ctx.pick(ORDERS), ctx.pick(GAPS)
    big = ctx.flag()
    fields, end = layout(order, gaps, TYPES)
    step = end + ctx.pick((0, 1, 10) if tier(0, 1) == 0 else (0, 1, 3, 10, 40))
    listed = ctx.choose(tier(3, 5))
    fields = [fields, fields[::-1], fields[2:] + fields[:2], sorted(fields, key=lambda f: f.name), fields[1:] + fields[:1]][listed]
    h = describe(fields, step, big)
    ctx.note(h)
    Run(ctx).send(h, SOME, cloud(SOME, fields, step, big))
    ctx.outcome(h)


@scenario
def fields(ctx):
    """further fields, overlapping ones, several elements, every datatype of the needed fields"""
    extra = ctx.pick([None, ('t', 'end', 6, 1), ('padding', 'end', 7, 1), ('rgb', 'end', 7, 1), ('normal', 'end', 7, 3), ('n', 'end', 2, 13), ('covariance', 'end', 8, 9),
                      ('alias', 'x', 6, 1), ('position', 'x', 7, 3), ('bits', 'ring', 1, 2), ('raw', 'intensity', 2, 4), ('padding', 'y', 7, 1), ('empty', 'end', 7, 0)])
    types = dict(TYPES)
    for n in 'xyz':
        types[n] = 7
    v = ctx.choose(4)
    types.update([{}, dict(x=8, y=8, z=8), dict(y=8), dict(z=8, x=8)][v])
    types['intensity'] = ctx.pick((7, 8, 2, 4, 6))
    types['ring'] = ctx.pick((4, 2, 1, 3, 5, 6))
    order = ctx.pick([NAMES, NAMES[::-1], ('ring', 'x', 'y', 'z', 'intensity'), ('x', 'y', 'z', 'ring', 'intensity'), ('intensity', 'x', 'y', 'z', 'ring')])
    gaps = ctx.pick([GAPS[0], GAPS[1], GAPS[4]])
    big, listed = ctx.flag(), ctx.flag()
    fs, end = layout(order, gaps, types, extra)
    if listed:
        fs = fs[-1:] + fs[:-1]
    step = end + ctx.pick(tier((0, 5), (0, 1, 5, 16)))
    si, sr = {2: 1, 4: 257, 6: 16843008}.get(types['intensity'], 1.), {1: 4, 2: 8, 3: 1057}.get(types['ring'], 2114)
    pts = [p[:3] + (p[3] * si, p[4] * sr) for p in SOME]
    h = describe(fs, step, big)
    ctx.note(h)
    Run(ctx).send(h, pts, cloud(pts, fs, step, big))
    ctx.outcome(h)


USUAL = [PointField(name='x', offset=0, datatype=7, count=1), PointField(name='y', offset=4, datatype=7, count=1), PointField(name='z', offset=8, datatype=7, count=1),
         PointField(name='intensity', offset=16, datatype=7, count=1), PointField(name='t', offset=20, datatype=6, count=1),
         PointField(name='reflectivity', offset=24, datatype=4, count=1), PointField(name='ring', offset=26, datatype=2, count=1), PointField(name='range', offset=32, datatype=6, count=1)]
PACKED = layout(NAMES, GAPS[0], TYPES)
TURNED = layout(('ring', 'intensity', 'z', 'x', 'y'), GAPS[4], dict(TYPES, x=8, ring=2))
LAYOUTS = [(USUAL, 48), (PACKED[0], PACKED[1]), (TURNED[0][::-1], TURNED[1] + 3)]


@scenario
def points(ctx):
    """every list of points over the alphabet"""
    k = ctx.choose(3)
    fs, step = LAYOUTS[k]
    big = ctx.flag()
    n = ctx.range(0, tier(3, 4))
    at = [ctx.choose(len(POINTS)) for _ in range(n)]
    pts = [POINTS[i] for i in at]
    h = 'layout %d %s points %s' % (k, 'big' if big else 'little', at)
    ctx.note(h)
    Run(ctx).send(h, pts, cloud(pts, fs, step, big))
    ctx.outcome(h)


@scenario
def rows(ctx):
    """clouds of several rows, with and without bytes between the rows"""
    k = ctx.choose(3)
    fs, step = LAYOUTS[k]
    big, height, width = ctx.flag(), ctx.range(1, 4), ctx.range(1, 4)
    pad = ctx.pick((0, 1, step, 2 * step, step - 1))
    first = ctx.choose(len(POINTS))
    pts = [POINTS[(first + i * 3) % len(POINTS)] for i in range(width * height)]
    h = 'layout %d %s %dx%d, %d bytes between rows, from %d' % (k, 'big' if big else 'little', width, height, pad, first)
    ctx.note(h)
    Run(ctx).send(h, pts, cloud(pts, fs, step, big, height=height, row_pad=pad))
    ctx.outcome(h)


MENU = [(0, False, [1, 0, 2]), (0, True, [7]), (1, False, [3, 4]), (2, True, [0, 0]), (2, False, [5, 9, 1]), (1, True, [])]


@scenario
def sequences(ctx):
    """the result depends on the message alone; the same message may come again, as the same object or as a copy"""
    run = Run(ctx)
    keep, h = {}, ''
    for i in range(tier(4, 6)):
        c = ctx.choose(len(MENU))
        k, big, at = MENU[c]
        pts = [POINTS[j] for j in at]
        stamp, frame = ((c, 999999999 - c), 'frame%d' % (c % 2))
        if c not in keep:
            keep[c] = [cloud(pts, LAYOUTS[k][0], LAYOUTS[k][1], big, stamp, frame), None]
        h += '%d ' % c
        out = run.send('messages ' + h, pts, keep[c][0])
        if keep[c][1] is not None:
            ctx.check(out.key() == keep[c][1], 'messages %s: the same message was converted differently', h)
        keep[c][1] = out.key()
    ctx.note(h)
    ctx.outcome(h)


@scenario
def bursts(ctx):
    """messages that arrive together are all converted; the published messages stay what they were"""
    run = Run(ctx)
    n, c = ctx.pick((1, 2, 5, 6, 10, 11, 60, 300)), ctx.choose(3)
    msgs, pts = [], []
    for i in range(n):
        p = [POINTS[(i + j) % len(POINTS)] for j in range(c + 1)]
        pts.append(p)
        msgs.append(cloud(p, LAYOUTS[i % 3][0], LAYOUTS[i % 3][1], i % 2 == 1, (i, i)))
    ctx.call('burst', world.deliver, '/points_raw', msgs)
    ctx.check(len(world.sent) == n, '%d messages arriving together: %d published', n, len(world.sent))
    for i in range(n):
        verify(ctx, 'message %d of %d' % (i, n), msgs[i], pts[i], world.sent[i][1])
    ctx.step(n)
    ctx.outcome((n, c))


@scenario
def large(ctx):
    k, big, n = ctx.choose(3), ctx.flag(), ctx.pick(tier((1000, 20000), (1000, 20000, 130000)))
    pts = [POINTS[(i * 7 + i // 10) % len(POINTS)] for i in range(n)]
    h = '%d points in layout %d' % (n, k)
    ctx.note(h)
    Run(ctx).send(h, pts, cloud(pts, LAYOUTS[k][0], LAYOUTS[k][1], big))
    ctx.outcome((h, big))


@scenario
def program(ctx):
    """the program runs the same node until it is told to stop"""
    world.reset()
    c = ctx.choose(len(MENU))
    k, big, at = MENU[c]
    pts = [POINTS[j] for j in at]
    seen = []

    def spin(node):
        m = cloud(pts, LAYOUTS[k][0], LAYOUTS[k][1], big)
        ctx.check(world.inits == 1 and world.shutdowns == 0, 'spinning outside init and shutdown')
        ctx.check(world.deliver('/points_raw', [m]) == 1 and len(world.sent) == 1, 'program: %d messages', len(world.sent))
        verify(ctx, 'program', m, pts, world.sent[0][1])
        seen.append(1)
    world.on_spin = spin
    ctx.call('program', convert.main)
    ctx.check(len(seen) == 1 and world.shutdowns == 1, 'the program does not spin and shut down')
    ctx.step()
    ctx.outcome(c)


if __name__ == '__main__':
    sys.exit(main())
