from .core import perform


class IfCondition:
    wanted = ('true', '1', 'on', 'yes')

    def __init__(self, predicate_expression):
        self.e = predicate_expression

    def evaluate(self, ctx):
        return perform(self.e, ctx).lower() in self.wanted


class UnlessCondition(IfCondition):
    def evaluate(self, ctx):
        return not IfCondition.evaluate(self, ctx)
