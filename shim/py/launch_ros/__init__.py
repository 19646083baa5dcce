from . import actions, parameter_descriptions, substitutions  # noqa: F401
