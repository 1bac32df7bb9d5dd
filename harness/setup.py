"""setup_cmd: build the extension once and make sure the specification parses."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run  # noqa: E402

run.build()
tmp = tempfile.mkdtemp(prefix='verif-s-')
try:
    run.judge([{'id': 1, 'heap': [], 'schemas': [], 'cfg': [], 'ops': [], 'outs': [], 'build': 'ok'}], tmp)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print('setup ok')
