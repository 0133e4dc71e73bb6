"""Loads keyczar from /repo's working tree, and repairs the environment around it.

The sandbox has PyCrypto 2.6.1 under Python 3.12, where two parts of PyCrypto
itself cannot run, whatever keyczar does:
  * Crypto.Random calls time.clock(), which Python 3.8 removed; RSA and DSA key
    generation and the blinding of RSA private key operations need it.
  * Crypto.Cipher.AES.new() raises SystemError (the extension was built for
    PY_SSIZE_T_CLEAN-less interpreters).
Neither is code of this repository.  We replace the first by os.urandom and the
second by the same cipher from OpenSSL (through M2Crypto) with PyCrypto's
interface, so that all of keyczar's own code can run and be watched.
"""
import os
import sys

REPO = os.environ.get('KZMON_REPO', '/repo')
SRC = os.path.join(REPO, 'python', 'src')

sys.dont_write_bytecode = True
if SRC not in sys.path:
  sys.path.insert(0, SRC)


class Entropy(object):
  """
  All ways to the operating system's randomness lead through here, so that it can
  be counted or, for reproducible cases, replaced.  Installed before keyczar is
  imported, so that it does not matter how the code refers to os.urandom.
  """
  real = staticmethod(os.urandom)
  impl = staticmethod(os.urandom)
  drawn = 0        # bytes
  direct = 0       # accesses to the random devices that cannot be counted in bytes

  @classmethod
  def read(cls, n):
    b = cls.impl(n)
    cls.drawn += len(b)
    return b

  @classmethod
  def use(cls, fn=None):
    cls.impl = staticmethod(fn or cls.real)


def _InstallEntropy():
  import random

  def urandom(n):
    return Entropy.read(n)

  os.urandom = random._urandom = urandom
  if hasattr(os, 'getrandom'):
    os.getrandom = lambda n, flags=0: Entropy.read(n)
  import ssl
  ssl.RAND_bytes = urandom
  import M2Crypto.Rand
  M2Crypto.Rand.rand_bytes = urandom

  def audit(event, args):
    if event == 'open' and args and args[0] in ('/dev/urandom', '/dev/random', b'/dev/urandom'):
      Entropy.direct += 1

  sys.addaudithook(audit)


_InstallEntropy()


def _RepairPyCrypto():
  import Crypto.Random
  from Crypto.Random import _UserFriendlyRNG

  def read(self, n):
    return os.urandom(n)

  _UserFriendlyRNG.RNGFile.read = read
  _UserFriendlyRNG.get_random_bytes = os.urandom
  Crypto.Random.get_random_bytes = os.urandom

  class _Rng(object):
    def read(self, n):
      return os.urandom(n)
    def flush(self):
      pass
    reinit = close = flush

  Crypto.Random.new = lambda *a, **k: _Rng()

  import warnings
  warnings.simplefilter('ignore')
  from Crypto.Cipher import AES
  from M2Crypto import EVP

  class _PyCryptoLikeAes(object):
    """AES-CBC with the semantics of a PyCrypto cipher object."""
    block_size = 16

    def __init__(self, key, mode, iv):
      if not isinstance(key, bytes) or not isinstance(iv, bytes):
        raise TypeError("argument must be bytes")
      if len(key) not in (16, 24, 32):
        raise ValueError("AES key must be either 16, 24, or 32 bytes long")
      if mode != AES.MODE_CBC:
        raise ValueError("only CBC is provided by the stand-in")
      if len(iv) != 16:
        raise ValueError("IV must be 16 bytes long")
      self._key, self.IV, self.mode = key, iv, mode
      self.key_size = len(key)
      self._c = {}

    def _run(self, op, data):
      if not isinstance(data, bytes):
        raise TypeError("argument must be bytes")
      if len(data) % 16:
        raise ValueError("Input strings must be a multiple of 16 in length")
      if op not in self._c:
        self._c[op] = EVP.Cipher('aes_%d_cbc' % (len(self._key) * 8), self._key,
                                 self.IV, op, padding=0)
      return self._c[op].update(data) if data else b''

    def encrypt(self, data):
      return self._run(1, data)

    def decrypt(self, data):
      return self._run(0, data)

  def new(key, mode=AES.MODE_ECB, IV=b'', *args, **kwargs):
    return _PyCryptoLikeAes(key, mode, kwargs.get('IV', IV))

  AES.new = new


_RepairPyCrypto()

import keyczar  # noqa: E402
from keyczar import errors, keyczar as kz, keydata, keyinfo, keys, readers  # noqa: E402,F401
from keyczar import keyczart, util, writers  # noqa: E402,F401

for _m in (errors, kz, keydata, keyinfo, keys, readers, keyczart, util, writers):
  assert _m.__file__.startswith(SRC + os.sep), _m.__file__


def S(b):
  """bytes -> keyczar's byte string (one character per byte)."""
  return b.decode('latin-1')


def B(s):
  """keyczar's byte string -> bytes."""
  return s.encode('latin-1') if isinstance(s, str) else bytes(s)


class CryptLib(object):
  """Selects the crypt library that AES keys use, e.g. 'm2crypto', 'pycrypto'."""

  def __init__(self, name):
    self.name = name

  def __enter__(self):
    self.old = keys.ACTIVE_CRYPT_LIB
    keys.ACTIVE_CRYPT_LIB = self.name

  def __exit__(self, *exc):
    keys.ACTIVE_CRYPT_LIB = self.old


LIBS = ('m2crypto', 'pycrypto')
