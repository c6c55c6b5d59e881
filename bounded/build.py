"""Scratch build of /repo's current working tree (C++ extensions included) outside /repo."""
import glob
import json
import os
import shutil
import subprocess
import tempfile

VENV = '/opt/venv/bin'
PYBIN = VENV + '/python' if os.path.exists(VENV + '/python') else 'python3'


class BuildError(Exception):
    pass


def scratch_build(repo):
    """copy the sources and build the extensions with the project's own meson build;
    returns the scratch directory (the caller removes it); PYTHONPATH=<dir> runs the copy"""
    d = tempfile.mkdtemp(prefix="pds_scratch_")
    ign = lambda p, ns: [n for n in ns if n == '__pycache__' or n.endswith('.so') or n.endswith('.pyc')]
    shutil.copytree(os.path.join(repo, 'pydatastructs'), os.path.join(d, 'pydatastructs'), ignore=ign)
    for f in ('meson.build', 'pyproject.toml', 'meson_options.txt', 'meson.options', 'README.md', 'LICENSE'):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            shutil.copy(p, d)
    env = dict(os.environ, PATH=VENV + ':' + os.environ.get('PATH', '/usr/bin:/bin'), VIRTUAL_ENV='/opt/venv',
               CXXFLAGS='-std=c++17 -O0 -g0', PYTHONDONTWRITEBYTECODE='1', CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    env.pop('PYTHONPATH', None)
    b = os.path.join(d, 'build')

    def sh(*cmd):
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))
        return p.stdout.decode(errors='replace')
    try:
        sh('meson', 'setup', b, '--prefix=/usr', '-Ddebug=false', '-Doptimization=0')
        sh('ninja', '-C', b)
        info = json.loads(sh('meson', 'introspect', '--installed', b))
    except BuildError:
        shutil.rmtree(d, ignore_errors=True)
        raise
    for src, dest in info.items():
        if src.endswith('.so'):
            rel = dest[dest.index('pydatastructs/'):]
            shutil.copy(src, os.path.join(d, rel))
    shutil.rmtree(b, ignore_errors=True)
    return d
