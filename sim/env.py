"""Builds what the checks need from /repo's working tree, outside /repo.

The C extension ``zope.index.text.okascore`` is compiled from the current
``okascore.c`` with the repository's own setup.py into a scratch directory and
preloaded under its real name, so that no build product inside /repo is read
or written.  If it does not compile the package's own pure-Python fall-back is
used, exactly as an installation without a compiler would.
"""
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):          # pragma: no cover
    PY = sys.executable


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 200 * 1024 * 1024:
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()


def make_scratch():
    return tempfile.mkdtemp(prefix='zisim-', dir=scratch_root())


def build_ext(scratch):
    """Compile okascore into scratch; return the .so path or ''."""
    lib = os.path.join(scratch, 'ext')
    tmp = os.path.join(scratch, 'exttmp')
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')
    env.pop('PYTHONPATH', None)
    # setup.py is run on a copy: setuptools may write egg-info beside it
    cp = os.path.join(scratch, 'extsrc')
    shutil.copytree(REPO, cp, symlinks=True, ignore=shutil.ignore_patterns(
        '.git', '*.so', 'build', '__pycache__', '*.egg-info', 'docs'))
    p = subprocess.run(
        [PY, '-W', 'ignore', 'setup.py', '-q', 'build_ext', '--build-lib', lib,
         '--build-temp', tmp], cwd=cp, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, timeout=300)
    sos = glob.glob(os.path.join(lib, '**', 'okascore*.so'), recursive=True)
    shutil.rmtree(cp, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    if not sos:
        return '', p.stdout.decode('utf-8', 'replace')[-2000:]
    return sos[0], ''


def load_package(so, pure):
    """Import zope.index from REPO with the chosen Okapi implementation."""
    import logging
    logging.disable(logging.CRITICAL)
    import BTrees  # noqa: F401  (before PURE_PYTHON is touched: stays C)
    import BTrees.check  # noqa: F401
    import persistent  # noqa: F401
    import zope  # noqa: F401
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import zope.index
    want = os.path.join(SRC, 'zope', 'index')
    if os.path.dirname(os.path.abspath(zope.index.__file__)) != want:
        # a namespace path put another copy first: force the tree under test
        for name in [n for n in sys.modules if n.startswith('zope.index')]:
            del sys.modules[name]
        zope.__path__ = [os.path.join(SRC, 'zope')] + [
            d for d in zope.__path__ if os.path.realpath(d) != os.path.realpath(
                os.path.join(SRC, 'zope'))]
        importlib.invalidate_caches()
        import zope.index
        assert os.path.dirname(os.path.abspath(zope.index.__file__)) == want, \
            zope.index.__file__
    # before anything of zope.index.text is imported: okapiindex picks its
    # scorer at import, and a build product lying in the tree must not be it
    modname = 'zope.index.text.okascore'
    os.environ['PURE_PYTHON'] = '0'
    if pure or not so:
        sys.modules[modname] = None     # as where it is not installed
        mod = None
    else:
        spec = importlib.util.spec_from_file_location(modname, so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules[modname] = mod
    import zope.index.text
    if mod is not None:
        zope.index.text.okascore = mod
    import zope.index.field
    import zope.index.keyword
    import zope.index.nbest
    import zope.index.text.cosineindex
    import zope.index.text.htmlsplitter
    import zope.index.text.lexicon
    import zope.index.text.okapiindex
    import zope.index.text.textindex
    import zope.index.topic
    import zope.index.topic.filter  # noqa: F401
    assert sys.modules.get(modname) is mod, sys.modules[modname].__file__
    return zope.index
