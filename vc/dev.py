import sys; sys.path.insert(0, '/verif/vc'); sys.path.insert(0, '/verif/props')
import importlib
from prop import *
m = importlib.import_module(sys.argv[1])
ts = m.PROP.tasks
if len(sys.argv) > 2 and not sys.argv[2].startswith('-'): ts = [t for t in ts if sys.argv[2] in t.name]
t0 = time.time()
for r in pool(ts, 'quick', verbose=False): show(r, '-v' in sys.argv)
print(time.time() - t0)
