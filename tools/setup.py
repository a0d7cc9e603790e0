"""Confirms that the interpreters and the code under test are there."""
import os
import subprocess
import sys

for py, lxml in (('/opt/venv/bin/python', True),
                 ('/opt/venv-nolxml/bin/python', False)):
    code = ('import sys; sys.dont_write_bytecode = True; '
            'sys.path.insert(0, "/repo"); import ndg.xacml; '
            'ndg.xacml.importElementTree(); '
            'sys.exit(ndg.xacml.Config.use_lxml != %r)' % lxml)
    rc = subprocess.call([py, '-c', code])
    print(py, 'ok' if rc == 0 else 'FAILED')
    if rc:
        sys.exit(1)
