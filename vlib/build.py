"""Builds /repo's current working tree in a scratch directory of /verif.

plain : the extensions compiled as setuptools would (-O2)
bounds: the extensions generated with Cython's own bounds checks switched back on, so that an
        access outside an array's own length is seen even where memory has been reserved
san   : the extensions compiled with AddressSanitizer and UndefinedBehaviorSanitizer

Nothing is written in /repo.  A build is keyed by the content of the sources, so a
change in the working tree is always rebuilt.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
BUILD = os.path.join(VERIF, '.build')
FLAVOURS = {
    'plain': ['-O2', '-fno-strict-aliasing'],
    'bounds': ['-O1', '-fno-strict-aliasing'],
    'san': ['-O1', '-g', '-fno-strict-aliasing', '-fno-omit-frame-pointer',
            '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
            '-fno-sanitize=vptr,alignment'],
}


def sources():
    out = []
    base = os.path.join(REPO, 'queueing_tool')
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if f.endswith(('.py', '.pyx', '.pxd', '.pxi', '.h')):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def extension_names():
    text = open(os.path.join(REPO, 'setup.py')).read()
    return re.findall(r"name\s*=\s*['\"](queueing_tool[\w.]+)['\"]", text)


def digest(flavour):
    sha = hashlib.sha256()
    sha.update(repr((flavour, FLAVOURS[flavour], extension_names(), 4)).encode())
    for path in sources():
        with open(os.path.join(REPO, path), 'rb') as f:
            sha.update(path.encode() + b'\0' + f.read() + b'\0')
    return sha.hexdigest()[:20]


CYTHONIZE = r'''
import sys, os, sysconfig
os.chdir(sys.argv[1])
from Cython.Build import cythonize
from Cython.Compiler import Options
cythonize(sys.argv[2:], language_level=None, quiet=True, force=True)
'''


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(flavour='plain'):
    """Returns the directory to put on PYTHONPATH."""
    os.makedirs(BUILD, exist_ok=True)
    key = '%s-%s' % (flavour, digest(flavour))
    dest = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, 'ok')):
            return dest
        prune()
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
        try:
            for path in sources():
                d = os.path.join(tmp, path)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, path), d)
                if flavour == 'bounds' and path.endswith(('.pyx', '.pxd')):
                    text = open(d).read()
                    with open(d, 'w') as f:
                        f.write(re.sub(r'\b(boundscheck)(\s*[(=]\s*)False', r'\1\2True',
                                       text))
            pyx = []
            for name in extension_names():
                p = name.replace('.', '/') + '.pyx'
                if os.path.exists(os.path.join(tmp, p)):
                    pyx.append(p)
            if not pyx:
                raise BuildError('no extension modules found')
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            run([PY, '-W', 'ignore', '-c', CYTHONIZE, tmp] + pyx, env=env)
            inc = run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"]);'
                                 'print(sysconfig.get_config_var("EXT_SUFFIX"))']).split()
            procs = []
            for p in pyx:
                c = os.path.join(tmp, p[:-4] + '.c')
                so = os.path.join(tmp, p[:-4] + inc[1])
                cmd = ['gcc', '-shared', '-fPIC', '-w', '-DNDEBUG', '-fwrapv', '-I', inc[0]]
                if flavour == 'san':
                    cmd.remove('-fwrapv')
                cmd += FLAVOURS[flavour] + [c, '-o', so]
                procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                                    stderr=subprocess.STDOUT, text=True)))
            for cmd, pr in procs:
                out = pr.communicate()[0]
                if pr.returncode:
                    raise BuildError('%s\n%s' % (' '.join(cmd), out[-4000:]))
            di = os.path.join(tmp, 'queueing_tool-0.0.0.dist-info')
            os.makedirs(di)
            with open(os.path.join(di, 'METADATA'), 'w') as f:
                f.write('Metadata-Version: 2.1\nName: queueing-tool\nVersion: 0.0.0\n')
            open(os.path.join(tmp, 'ok'), 'w').close()
            if os.path.exists(dest):
                shutil.rmtree(dest)
            os.rename(tmp, dest)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return dest


def prune(keep=6):
    """Old builds are removed so that .build stays small."""
    dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    dirs = [d for d in dirs if os.path.isdir(d) and
            os.path.basename(d).split('-')[0] in FLAVOURS]
    dirs.sort(key=os.path.getmtime, reverse=True)
    for d in dirs[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def env_for(dest, flavour='plain'):
    env = {k: v for k, v in os.environ.items()
           if k not in ('PYTHONPATH', 'LD_PRELOAD', 'PYTHONMALLOC', 'CI_TEST')}
    env.update(PYTHONPATH=dest + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore',
               QT_BUILD=dest, MPLCONFIGDIR=os.path.join(BUILD, 'mpl'))
    if flavour == 'san':
        libs = [os.path.realpath(subprocess.check_output(
            ['gcc', '-print-file-name=' + n], text=True).strip())
            for n in ('libasan.so', 'libstdc++.so.6')]
        env.update(LD_PRELOAD=' '.join(libs), PYTHONMALLOC='malloc',
                   ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:'
                                'allocator_may_return_null=1',
                   UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1:exitcode=78')
    return env


if __name__ == '__main__':
    for fl in (sys.argv[1:] or list(FLAVOURS)):
        try:
            print(build(fl))
        except BuildError as e:
            print('%s: %s' % (fl, str(e)[-2000:]))
            if fl == 'plain':
                sys.exit(1)
