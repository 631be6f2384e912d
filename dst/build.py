"""Build the C extension from /repo's working tree into a scratch directory, outside /repo."""
import hashlib
import os
import shutil
import subprocess
import sysconfig
import tempfile

REPO = os.environ.get('DST_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'
CACHE_DEFINE = '#define NODE_CACHE_MAX_SIZE 1024'


def build(dest, variant):
    """variant: std | nocache | asan.  Returns the directory to put on the import path."""
    src = open(os.path.join(REPO, 'pvectorcmodule.c')).read()
    d = os.path.join(dest, variant)
    os.makedirs(d, exist_ok=True)
    if variant in ('nocache', 'asan'):
        # every node goes back to the allocator at once, so that the debug allocator sees stale accesses
        src = src.replace(CACHE_DEFINE, '#define NODE_CACHE_MAX_SIZE 0')
    c = os.path.join(d, 'pvectorcmodule.c')
    with open(c, 'w') as f:
        f.write(src)
    inc = subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])']).decode().strip()
    ext = subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))']).decode().strip()
    flags = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'] if variant == 'asan' else ['-O2']
    cmd = ['gcc', '-shared', '-fPIC', '-g', '-w', '-DNDEBUG'] + flags + ['-I' + inc, c, '-o', os.path.join(d, 'pvectorc' + ext)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('C extension does not compile:\n' + p.stderr[-2000:])
    shim = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native', 'simalloc.c')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O2', '-w', '-I' + inc, shim, '-o', os.path.join(d, 'simalloc' + ext)], check=True)
    return d


def env_for(flavor, scratch, hashseed='1'):
    """Environment of a worker process.  flavor: c | py | cdbg"""
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and k != 'PYRSISTENT_NO_C_EXTENSION'}
    path = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
    if flavor == 'py':
        e['PYRSISTENT_NO_C_EXTENSION'] = '1'
        path.append(os.path.join(scratch, 'empty'))
    else:
        path.append(os.path.join(scratch, 'nocache' if flavor == 'cdbg' else 'std'))
    if flavor == 'cdbg':
        e['PYTHONMALLOC'] = 'debug'
    path.append(REPO)
    e['PYTHONPATH'] = ':'.join(path)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    e['PYTHONHASHSEED'] = hashseed
    e['DST_SCRATCH'] = scratch
    return e


def scratch_dir():
    return tempfile.mkdtemp(prefix='dst-')
