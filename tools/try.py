"""try.py ID [seed [mult]]: run only the concrete driver of a property"""
import sys, os, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools import harness as H
sc = tempfile.mkdtemp(prefix='cglh_', dir='/tmp'); t = time.time()
try:
    r = H.explore(sys.argv[1], sc, int(sys.argv[2]) if len(sys.argv) > 2 else 1, int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    print('%.1f s' % (time.time() - t), r['note']); print(r['bad'] or '\n'.join(r['samples'][:1]))
finally: shutil.rmtree(sc)
