from enum import IntEnum


class QoSHistoryPolicy(IntEnum):
    SYSTEM_DEFAULT = 0
    KEEP_LAST = 1
    KEEP_ALL = 2


class QoSReliabilityPolicy(IntEnum):
    SYSTEM_DEFAULT = 0
    RELIABLE = 1
    BEST_EFFORT = 2


class QoSDurabilityPolicy(IntEnum):
    SYSTEM_DEFAULT = 0
    TRANSIENT_LOCAL = 1
    VOLATILE = 2


HistoryPolicy, ReliabilityPolicy, DurabilityPolicy = QoSHistoryPolicy, QoSReliabilityPolicy, QoSDurabilityPolicy


class QoSProfile:
    def __init__(self, **kw):
        if 'history' not in kw and 'depth' not in kw:
            raise TypeError('History and/or depth settings are required.')
        self.history = kw.pop('history', QoSHistoryPolicy.KEEP_LAST)
        self.depth = kw.pop('depth', 0)
        self.reliability = kw.pop('reliability', QoSReliabilityPolicy.RELIABLE)
        self.durability = kw.pop('durability', QoSDurabilityPolicy.VOLATILE)

    def kept(self):
        return None if self.history == QoSHistoryPolicy.KEEP_ALL else max(1, self.depth)


def as_profile(q):
    return QoSProfile(depth=q) if isinstance(q, int) else q


qos_profile_sensor_data = QoSProfile(depth=5, reliability=QoSReliabilityPolicy.BEST_EFFORT)
qos_profile_system_default = QoSProfile(depth=10)
