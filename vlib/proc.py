"""Runs the real np-utils program and other fresh processes, with the tree under test first on the path."""
import os
import subprocess
import tempfile
from vlib import core, oracle  # noqa: F401

PY = '/opt/venv/bin/python'
NP = '/opt/venv/bin/np-utils'


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONPATH=core.REPO + os.pathsep + core.VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=os.environ.get('PYTHONHASHSEED', '0'), LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore', VERIF_REPO=core.REPO, VERIF_CHILD='1',
             PYTHONPYCACHEPREFIX=os.path.join(os.environ.get('VERIF_TMP') or tempfile.gettempdir(), 'pyc'), COLUMNS='80')
    return e


def run(argv, stdin=None, timeout=240):
    p = subprocess.run(argv, input=stdin, stdin=subprocess.DEVNULL if stdin is None else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=timeout,
                       cwd=os.environ.get('VERIF_TMP') or '/tmp')
    return p.returncode, p.stdout, p.stderr


def np_utils(*args):
    """(status, stdout text, stderr text) of the installed command"""
    argv = [PY, NP] if os.path.exists(NP) else [PY, '-m', 'neocore.bin.cli']
    rc, o, e = run(argv + [a for a in args])
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
