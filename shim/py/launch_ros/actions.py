from launch.core import perform, uses_argument


class Node:
    def __init__(self, *, executable=None, package=None, name=None, namespace=None, exec_name=None, parameters=None, remappings=None,
                 arguments=None, condition=None, **kw):
        self.package, self.executable, self.name, self.namespace = package, executable, name, namespace
        self.parameters, self.remappings, self.condition = parameters or [], list(remappings or []), condition

    def visit(self, ctx, start):
        if self.condition is not None and not self.condition.evaluate(ctx):
            return
        ps = []
        for p in self.parameters:
            if isinstance(p, dict):
                for k, v in p.items():
                    v = perform(v, ctx) if hasattr(v, 'perform') or isinstance(v, (list, tuple)) and any(hasattr(i, 'perform') for i in v) else \
                        v.value(ctx) if hasattr(v, 'value') else v
                    ps.append((perform(k, ctx), v))
            else:
                ps.append(perform(p, ctx))
        start(dict(package=perform(self.package, ctx), executable=perform(self.executable, ctx), name=perform(self.name, ctx),
                   namespace=perform(self.namespace, ctx) or '/', parameters=ps,
                   remappings=[(perform(a, ctx), perform(b, ctx), uses_argument(b)) for a, b in self.remappings]))


class SetParameter:
    def __init__(self, *a, **k):
        pass

    def visit(self, ctx, start):
        pass
