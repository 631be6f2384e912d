"""Nothing to install: verifies that the interpreter, the compiler and the instrumentation are there."""
import subprocess
import sys
PY = '/opt/venv/bin/python'
subprocess.check_call([PY, '-c', 'import sys; assert sys.version_info >= (3, 12); sys.monitoring'])
subprocess.check_call(['gcc', '--version'], stdout=subprocess.DEVNULL)
print('ok')
