import sys; sys.path.insert(0, '/verif/vc')
import native, tempfile, shutil
t = tempfile.mkdtemp()
np = 1; san = True
n = native.Native(sys.argv[1], np=int(sys.argv[2]) if len(sys.argv) > 2 else 1, san='nosan' not in sys.argv)
r = native.run(n, 'thorough' if 'thorough' in sys.argv else 'quick', 1, t)
shutil.rmtree(t)
print(r['status'], r['cases'], '%.1f' % r['wall_s']); print(r['out'][:6000])
