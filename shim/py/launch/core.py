class LaunchDescription:
    def __init__(self, entities=None, **kw):
        self.entities = list(entities or [])

    def add_action(self, a):
        self.entities.append(a)


class LaunchContext:
    def __init__(self, arguments):
        self.launch_configurations = dict(arguments)

    def perform_substitution(self, s):
        return perform(s, self)


def perform(x, ctx):
    if x is None:
        return ''
    if isinstance(x, (list, tuple)):
        return ''.join(perform(i, ctx) for i in x)
    return x.perform(ctx) if hasattr(x, 'perform') else x if isinstance(x, str) else str(x)


def uses_argument(x):
    if isinstance(x, (list, tuple)):
        return any(uses_argument(i) for i in x)
    return bool(getattr(x, 'is_argument', False)) or any(uses_argument(i) for i in getattr(x, 'parts', ()))
