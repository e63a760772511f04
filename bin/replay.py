"""replay.py file.json : run one harness on one concrete input against the real modules.
exit 10: property violated, 0: held, 11: input outside the harness's assumptions."""
import importlib
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append(ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
d = json.load(open(sys.argv[1]))
from symex import api
api.install_real_stubs()
m = importlib.import_module('checks.' + d['property'])
h = [x for x in m.REG if x.name == d['harness']][0]
c = api.ConcreteCtx(d['input'])
w = api.RealWorld()
if h.opts.get('stubs'):
    for n, v in h.opts['stubs'](w).items():
        sys.modules[n] = v
try:
    h.fn(c, w)
except api.NotApplicable:
    print('input outside the assumptions')
    sys.exit(11)
except api.Violated as e:
    print('violated: %s' % e)
    sys.exit(10)
except ImportError:
    traceback.print_exc()
    print('the modules do not import')
    sys.exit(12)
except Exception as e:
    traceback.print_exc()
    print('violated: unexpected exception %s: %s' % (type(e).__name__, e))
    sys.exit(10)
print('held')
