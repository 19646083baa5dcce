import copy


class World:
    def __init__(self):
        self.reset()

    def reset(self):
        self.subs, self.pubs, self.sent = [], [], []
        self.nodes, self.params, self.declared = [], {}, {}
        self.on_spin, self.inits, self.shutdowns = None, 0, 0

    def deliver(self, topic, msgs):
        """msgs arrive together: each subscription keeps what its history depth allows"""
        taken = 0
        for s in list(self.subs):
            if s.topic != topic:
                continue
            depth = s.qos.kept()
            for m in (msgs if depth is None else msgs[-depth:]):
                s.callback(m)
                taken += 1
        return taken


world = World()


def norm(topic, node=''):
    return topic if topic.startswith('/') else '/' + topic


def snapshot(m):
    return copy.deepcopy(m)
