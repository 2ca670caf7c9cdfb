"""Nothing to build ahead of time: checks the tools are there."""
import shutil, sys
missing = [t for t in ('clang++', 'g++', 'python3-vt', 'pkg-config') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'tools present'); sys.exit(1 if missing else 0)
