from . import substitutions
from .core import perform


class DeclareLaunchArgument:
    def __init__(self, name, *, default_value=None, description='', **kw):
        self.name, self.default_value = name, default_value
        if name not in substitutions.names:
            substitutions.names.append(name)

    def visit(self, ctx, start):
        if self.name not in ctx.launch_configurations:
            if self.default_value is None:
                raise LookupError("launch argument '%s' is required" % self.name)
            ctx.launch_configurations[self.name] = perform(self.default_value, ctx)


class SetLaunchConfiguration:
    def __init__(self, name, value, **kw):
        self.name, self.value = name, value

    def visit(self, ctx, start):
        ctx.launch_configurations[perform(self.name, ctx)] = perform(self.value, ctx)


class GroupAction:
    def __init__(self, actions, **kw):
        self.entities = list(actions)

    def visit(self, ctx, start):
        for a in self.entities:
            a.visit(ctx, start)


class OpaqueFunction:
    def __init__(self, *, function, args=(), kwargs=None, **kw):
        self.function, self.args, self.kwargs = function, args, kwargs or {}

    def visit(self, ctx, start):
        for a in self.function(ctx, *self.args, **self.kwargs) or []:
            a.visit(ctx, start)


class _Nothing:
    def __init__(self, *a, **k):
        pass

    def visit(self, ctx, start):
        pass


LogInfo = SetEnvironmentVariable = ExecuteProcess = TimerAction = RegisterEventHandler = _Nothing
