from launch.core import perform


class ParameterFile:
    def __init__(self, param_file, **kw):
        self.f = param_file

    def perform(self, ctx):
        return perform(self.f, ctx)


class ParameterValue:
    def __init__(self, v, *, value_type=None):
        self.v, self.t = v, value_type

    def value(self, ctx):
        s = perform(self.v, ctx)
        return self.t(s) if self.t else s
