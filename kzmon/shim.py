"""Builds native/shim.c and (re)starts the interpreter with it preloaded."""
import ctypes
import hashlib
import os
import subprocess
import sys
import tempfile

_VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_SRC = os.path.join(_VERIF, 'native', 'shim.c')

NONE, KILL_BEFORE, KILL_AFTER, ERROR, SHORT_KILL, SHORT_ERROR, ERROR_ON = range(7)


def _Build():
  with open(_SRC, 'rb') as f:
    h = hashlib.sha1(f.read()).hexdigest()[:12]
  d = os.path.join(_VERIF, 'build')
  os.makedirs(d, exist_ok=True)
  so = os.path.join(d, 'shim-%s.so' % h)
  if not os.path.exists(so):
    fd, tmp = tempfile.mkstemp(dir=d, suffix='.so')
    os.close(fd)
    subprocess.run(['gcc', '-O2', '-fno-builtin', '-fno-strict-aliasing', '-shared', '-fPIC', '-w',
                    '-o', tmp, _SRC, '-ldl'], check=True)
    os.replace(tmp, so)
  return so


class Shim(object):
  lib = None


def Preload():
  """Makes sure this process runs with the shim; does not return if it has to restart."""
  so = _Build()
  if so not in os.environ.get('LD_PRELOAD', '').split(':'):
    env = dict(os.environ, LD_PRELOAD=so)
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable] + sys.argv, env)
  lib = ctypes.CDLL(so)
  lib.kz_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
  lib.kz_count.restype = ctypes.c_long
  lib.kz_log.restype = ctypes.c_char_p
  lib.kz_watch.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
  lib.kz_unwatch.restype = ctypes.c_long
  Shim.lib = lib
  return lib


if __name__ == '__main__':
  print(_Build())
