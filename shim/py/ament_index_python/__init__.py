from .packages import get_package_share_directory  # noqa: F401
