"""Stand-in for rclpy: an in-process graph that only records and delivers what the harness tells it to."""
from . import context, executors, node, qos  # noqa: F401
from .node import Node
from .world import world


def init(*, args=None, context=None, **kw):
    world.inits += 1


def shutdown(*, context=None, **kw):
    world.shutdowns += 1


def ok(*, context=None):
    return world.shutdowns == 0


def create_node(name, *, context=None, **kw):
    return Node(name, context=context)


def spin(node, executor=None):
    if world.on_spin:
        world.on_spin(node)


def spin_once(node, *, executor=None, timeout_sec=None):
    spin(node)
