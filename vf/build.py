"""Builds the Cython/C++ extension of /repo's current working tree outside /repo.

The result is cached under /verif/.build by the content hash of everything the
extension is compiled from, so a changed source is always rebuilt.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.build')
PKG = 'beam_telescope_analysis'


class BuildError(Exception):
    pass


def _inputs():
    files = [os.path.join(REPO, f) for f in ('setup.py', 'VERSION', 'requirements.txt', 'README.md') if os.path.exists(os.path.join(REPO, f))]
    base = os.path.join(REPO, PKG)
    for root, dirs, names in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ('testing', '__pycache__', 'examples'))
        for n in sorted(names):
            if n.endswith(('.pyx', '.pxd', '.pxi', '.h', '.hpp')):
                files.append(os.path.join(root, n))
    return sorted(files)


def extension_path():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256()
        inputs = _inputs()
        for f in inputs:
            h.update(os.path.relpath(f, REPO).encode())
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        dest = os.path.join(CACHE, 'ext-' + h.hexdigest()[:24])
        found = glob.glob(os.path.join(dest, 'analysis_functions.*.so'))
        if found:
            return found[0]
        tmp = tempfile.mkdtemp(prefix='vf-build-')
        try:
            for f in inputs:
                t = os.path.join(tmp, os.path.relpath(f, REPO))
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copy(f, t)
            for d in (PKG, os.path.join(PKG, 'cpp')):
                open(os.path.join(tmp, d, '__init__.py'), 'a').close()
            r = subprocess.run(['/opt/venv/bin/python', 'setup.py', 'build_ext', '--inplace'], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            so = glob.glob(os.path.join(tmp, PKG, 'analysis_functions.*.so'))
            if r.returncode != 0 or not so:
                raise BuildError(r.stdout.decode(errors='replace')[-4000:])
            os.makedirs(dest, exist_ok=True)
            part = os.path.join(dest, 'part')
            shutil.copy(so[0], part)
            final = os.path.join(dest, os.path.basename(so[0]))
            os.rename(part, final)
            return final
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def site_path():
    """Directory with hypothesis (installed from the offline tooling) and nothing else."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        dest = os.path.join(CACHE, 'site')
        if os.path.isdir(os.path.join(dest, 'hypothesis')):
            return dest
        part = tempfile.mkdtemp(prefix='site-part-', dir=CACHE)
        src = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
        names = []
        if os.path.isdir(os.path.join(src, 'hypothesis')):
            names = [n for n in os.listdir(src) if n in ('hypothesis', 'sortedcontainers') or n.startswith('_hypothesis')]
            for n in names:
                os.symlink(os.path.join(src, n), os.path.join(part, n))
        if 'hypothesis' not in names:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pip', 'install', '-q', '--no-index', '--find-links', '/opt/veriftools/wheels', '--target', part, 'hypothesis'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError(r.stdout.decode(errors='replace')[-4000:])
        shutil.rmtree(dest, ignore_errors=True)
        os.rename(part, dest)
        return dest


if __name__ == '__main__':
    print(site_path())
    print(extension_path())
