from launch.core import perform
from ament_index_python.packages import get_package_share_directory


class FindPackageShare:
    def __init__(self, package):
        self.package = package

    def perform(self, ctx):
        return get_package_share_directory(perform(self.package, ctx))


FindPackage = FindPackageShare
