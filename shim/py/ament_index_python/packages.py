import glob
import os
import re

REPO = os.environ.get('VERIF_REPO', '/repo')


def get_package_share_directory(name):
    for f in glob.glob(os.path.join(REPO, '*', 'package.xml')):
        if re.search(r'<name>\s*%s\s*</name>' % re.escape(name), open(f).read()):
            return os.path.dirname(f)
    raise LookupError("package '%s' not found" % name)
