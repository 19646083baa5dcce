class Time:
    def __init__(self, sec=0, nanosec=0):
        self.sec, self.nanosec = sec, nanosec

    def __eq__(self, o):
        return isinstance(o, Time) and (self.sec, self.nanosec) == (o.sec, o.nanosec)
