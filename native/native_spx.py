"""Native replay for C16: the real SPHINCS+ sources linked with spx_drv.c (stand-in hash, independent reference)."""
import sys, os, subprocess
from nlib import *
work = sys.argv[2]
exe = os.path.join(work, 'spx')
srcs = [os.path.join(REPO, s) for s in build.sources() if s.startswith('sphincs/')]
r = subprocess.run(['gcc', '-w', '-O2', '-DNDEBUG', '-o', exe, os.path.join(HERE, 'spx_drv.c')] + srcs, capture_output=True, text=True)
if r.returncode: print('build failed: ' + r.stderr[-1500:]); sys.exit(2)
for flags in (60,):
    p = subprocess.run([exe, str(SEED), str(flags)], capture_output=True, text=True, timeout=100)
    print(p.stdout[-5000:], p.stderr[-500:])
    if p.returncode < 0: print('FAILING-INPUT the real code crashed with signal %d' % -p.returncode)
