"""setup_cmd: warms the compile caches (checks rebuild whatever is missing or stale)."""
import sys, os
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(H, 'vc'))
import build
try:
    build.library(True)
except build.BuildError as e:
    print('setup: library does not build:', str(e)[:2000])
