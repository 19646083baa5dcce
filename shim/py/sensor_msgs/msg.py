"""PointCloud2 and PointField with the type and range rules of the generated messages, applied on publishing."""
import array

from std_msgs.msg import Header


def _uint(v, bits, what):
    if not isinstance(v, int) or isinstance(v, bool) or not 0 <= v < 2 ** bits:
        raise AssertionError("The '%s' field must be an unsigned integer in [0, %d], not %r" % (what, 2 ** bits - 1, v))


class PointField:
    INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 = range(1, 9)

    def __init__(self, *, name='', offset=0, datatype=0, count=0):
        self.name, self.offset, self.datatype, self.count = name, offset, datatype, count

    def key(self):
        return (self.name, self.offset, self.datatype, self.count)

    def __eq__(self, o):
        return isinstance(o, PointField) and self.key() == o.key()

    def __repr__(self):
        return 'PointField%r' % (self.key(),)

    def check(self):
        if not isinstance(self.name, str):
            raise AssertionError('name')
        _uint(self.offset, 32, 'offset')
        _uint(self.datatype, 8, 'datatype')
        _uint(self.count, 32, 'count')


class PointCloud2:
    def __init__(self, *, header=None, height=0, width=0, fields=None, is_bigendian=False, point_step=0, row_step=0,
                 data=None, is_dense=False):
        self.header = header if header is not None else Header()
        self.height, self.width, self.fields = height, width, fields if fields is not None else []
        self.is_bigendian, self.point_step, self.row_step = is_bigendian, point_step, row_step
        self.data, self.is_dense = data if data is not None else array.array('B'), is_dense

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, v):
        if isinstance(v, array.array):
            if v.typecode != 'B':
                raise AssertionError("The 'data' array.array() must have the type code of 'B'")
            self._data = v
        else:
            self._data = array.array('B', v)

    def key(self):
        return (self.header.stamp.sec, self.header.stamp.nanosec, self.header.frame_id, self.height, self.width,
                tuple(f.key() for f in self.fields), self.is_bigendian, self.point_step, self.row_step,
                self.data.tobytes(), self.is_dense)

    def check(self):
        for v, n in ((self.height, 'height'), (self.width, 'width'), (self.point_step, 'point_step'), (self.row_step, 'row_step')):
            _uint(v, 32, n)
        for v, n in ((self.is_bigendian, 'is_bigendian'), (self.is_dense, 'is_dense')):
            if not isinstance(v, bool):
                raise AssertionError("The '%s' field must be of type 'bool'" % n)
        for f in self.fields:
            if not isinstance(f, PointField):
                raise AssertionError('fields')
            f.check()
