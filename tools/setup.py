"""Nothing to build: checks that the tools the checks use are there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import drive
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
for p in drive.JARS.split(':'):
    assert os.path.exists(p), p
subprocess.check_call(['java', '-version'])
subprocess.check_call([drive.python(), '-B', '-c', 'import six'])
print('ok')
