import os

from .core import perform

names = []


class LaunchConfiguration:
    is_argument = True

    def __init__(self, variable_name, *, default=None):
        self.name, self.default = variable_name, default
        if variable_name not in names:
            names.append(variable_name)

    def perform(self, ctx):
        if self.name in ctx.launch_configurations:
            return ctx.launch_configurations[self.name]
        if self.default is None:
            raise LookupError("launch configuration '%s' does not exist" % self.name)
        return perform(self.default, ctx)


class TextSubstitution:
    def __init__(self, *, text):
        self.text = text

    def perform(self, ctx):
        return self.text


class PathJoinSubstitution:
    def __init__(self, substitutions):
        self.parts = list(substitutions)

    def perform(self, ctx):
        return os.path.join(*[perform(p, ctx) for p in self.parts])


class EnvironmentVariable:
    def __init__(self, name, *, default_value=''):
        self.default_value = default_value

    def perform(self, ctx):
        return perform(self.default_value, ctx)
