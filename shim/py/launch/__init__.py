"""Stand-ins for launch: descriptions are evaluated to what they would start, under chosen launch arguments."""
from . import actions, conditions, launch_description_sources, substitutions  # noqa: F401
from .core import LaunchContext, LaunchDescription  # noqa: F401
