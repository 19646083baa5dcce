from types import SimpleNamespace

from .qos import as_profile
from .world import norm, snapshot, world


class _Logger:
    def _log(self, *a, **k):
        pass
    debug = info = warn = warning = error = fatal = _log


class _Publisher:
    def __init__(self, node, t, topic, qos):
        self.topic_raw, self.topic, self.msg_type, self.qos, self.node = topic, norm(topic), t, as_profile(qos), node

    def publish(self, msg):
        if not isinstance(msg, self.msg_type):
            raise TypeError('Expected %s, got %s' % (self.msg_type, type(msg)))
        check = getattr(msg, 'check', None)
        if check:
            check()
        world.sent.append((self.topic, snapshot(msg)))       # a message is on its way once it is published


class Node:
    def __init__(self, node_name, *, context=None, cli_args=None, namespace=None, parameter_overrides=None, **kw):
        self._name = node_name
        world.nodes.append(self)

    def get_name(self):
        return self._name

    def get_logger(self):
        return _Logger()

    def create_subscription(self, t, topic, callback, qos, **kw):
        s = SimpleNamespace(node=self, msg_type=t, topic_raw=topic, topic=norm(topic), callback=callback, qos=as_profile(qos))
        world.subs.append(s)
        return s

    def create_publisher(self, t, topic, qos, **kw):
        p = _Publisher(self, t, topic, qos)
        world.pubs.append(p)
        return p

    def declare_parameter(self, name, value=None, *a, **k):
        world.declared[name] = world.params.get(name, value)
        return SimpleNamespace(name=name, value=world.declared[name])

    def get_parameter(self, name):
        return SimpleNamespace(name=name, value=world.declared[name])

    def get_clock(self):
        return SimpleNamespace(now=lambda: SimpleNamespace(nanoseconds=0))

    def destroy_node(self):
        return True
