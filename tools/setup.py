"""Checks that the tools the framework needs are there. Each check builds its own harness from /repo."""
import shutil, sys
missing = [t for t in ('g++', 'ninja', 'protoc', 'python3') if not shutil.which(t)]
sys.exit('missing: ' + ' '.join(missing) if missing else 0)
