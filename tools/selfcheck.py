"""setup_cmd: nothing to build; makes sure the interpreter has what the monitors need."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.path.exists('/opt/venv/bin/python') and os.environ.get('MM_VERIF_STARTED') != '1':
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)], dict(os.environ, MM_VERIF_STARTED='1'))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import numpy  # noqa
import scipy  # noqa
import mon.core  # noqa
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
print('ready: python %s, numpy %s, scipy %s' % (sys.version.split()[0], numpy.__version__, scipy.__version__))
