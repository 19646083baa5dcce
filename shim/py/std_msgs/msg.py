from builtin_interfaces.msg import Time


class Header:
    def __init__(self, stamp=None, frame_id=''):
        self.stamp, self.frame_id = stamp if stamp is not None else Time(), frame_id

    def __eq__(self, o):
        return isinstance(o, Header) and self.stamp == o.stamp and self.frame_id == o.frame_id
