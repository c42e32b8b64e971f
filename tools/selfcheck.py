#!/usr/bin/env python3
"""setup_cmd: nothing has to be installed; checks that the tools the checks use are there
and that the TLC overrides compile."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in ('/opt/py2/bin/jython', '/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(p):
        sys.exit('missing ' + p)
d = tempfile.mkdtemp()
try:
    subprocess.check_call(['javac', '-nowarn', '-cp', '/opt/veriftools/tla/tla2tools.jar', '-d', d,
                           os.path.join(HERE, 'spec', 'BigInt.java')])
finally:
    shutil.rmtree(d)
print('ok')
