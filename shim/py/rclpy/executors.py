class MultiThreadedExecutor:
    def __init__(self, *a, **k):
        self.nodes = []

    def add_node(self, n):
        self.nodes.append(n)

    def spin(self):
        from .world import world
        if world.on_spin:
            world.on_spin(None)

    def spin_once(self, timeout_sec=None):
        pass


class SingleThreadedExecutor(MultiThreadedExecutor):
    pass


class ExternalShutdownException(Exception):
    pass
