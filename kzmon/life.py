"""Key set histories: an executable model of the documented life cycle, and drivers.

The model knows only what the documentation of keyczart says.  State: a map from
version number to status; what each version's key is, is learned when it appears
and must never change afterwards.
"""
import json
import os

from . import gen, ref
from .env import errors, keyczart, keyinfo, kz, readers, writers
from .mon import Outcome  # noqa: F401

P, A, I = 'PRIMARY', 'ACTIVE', 'INACTIVE'


class Refused(Exception):
  pass


class Model(object):

  def __init__(self, versions=()):
    self.v = dict(versions)     # number -> status

  def copy(self):
    return Model(self.v)

  @property
  def primary(self):
    for n, s in self.v.items():
      if s == P:
        return n
    return None

  def apply(self, cmd):
    """Changes the state or raises Refused."""
    op = cmd[0]
    if op == 'add':
      n = max(self.v) + 1 if self.v else 1
      if cmd[1] == P and self.primary is not None:
        self.v[self.primary] = A
      self.v[n] = cmd[1]
      return
    n = cmd[1]
    if n not in self.v:
      raise Refused('no such version')
    s = self.v[n]
    if op == 'promote':
      if s == P:
        raise Refused('already primary')
      if s == A:
        if self.primary is not None:
          self.v[self.primary] = A
        self.v[n] = P
      else:
        self.v[n] = A
    elif op == 'demote':
      if s == I:
        raise Refused('already inactive')
      self.v[n] = A if s == P else I
    elif op == 'revoke':
      if s != I:
        raise Refused('not inactive')
      del self.v[n]
    else:
      raise ValueError(op)


def key_id(k):
  """An exact fingerprint of a reference key."""
  return json.dumps(k if isinstance(k, dict) else k.json(), sort_keys=True)


def snapshot(loc):
  """All files below loc with contents and modes."""
  out = {}
  for d, dirs, files in os.walk(loc):
    for n in dirs:
      out[os.path.relpath(os.path.join(d, n), loc) + '/'] = ''
    for n in files:
      p = os.path.join(d, n)
      with open(p, 'rb') as f:
        out[os.path.relpath(p, loc)] = f.read()
  return out


def diff(a, b):
  return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def argv(cmd, loc, size=None, crypter=None):
  op = cmd[0]
  if op == 'add':
    l = ['addkey', '--location=' + loc, '--status=' + cmd[1].lower()]
    if size:
      l.append('--size=%d' % size)
    if crypter:
      l.append('--crypter=' + crypter)
    return l
  return [op, '--location=' + loc, '--version=%d' % cmd[1]]


def tool(mon, args):
  """Runs the tool; an error is an exception or a non-zero result."""
  o = mon.call(keyczart.main, list(args))
  if o.ok and o.value:
    o.exc = errors.KeyczarError('exit status %r' % (o.value,))
  return o


STATUS = {P: keyinfo.PRIMARY, A: keyinfo.ACTIVE, I: keyinfo.INACTIVE}


def on_disk(mon, loc, how, cmd, size=None, crypter=None):
  """Applies cmd to the key set at loc through the tool, its functions or the classes."""
  op = cmd[0]
  if how == 'tool':
    return tool(mon, argv(cmd, loc, size, crypter))
  if how == 'functions':
    if op == 'add':
      c = kz.Crypter.Read(crypter) if crypter else None
      return mon.call(keyczart.AddKey, loc, STATUS[cmd[1]], c, size)
    return mon.call({'promote': keyczart.Promote, 'demote': keyczart.Demote,
                     'revoke': keyczart.Revoke}[op], loc, cmd[1])

  def classes():
    r = readers.CreateReader(loc)
    c = None
    if crypter:
      c = kz.Crypter.Read(crypter)
      r = readers.EncryptedReader(r, c)
    g = kz.GenericKeyczar(r)
    in_memory(g, cmd, size)
    w = writers.CreateWriter(loc)
    g.Write(w, c)
    if op == 'revoke':
      w.Remove(cmd[1])
    w.Close()
  return mon.call(classes)


def in_memory(g, cmd, size=None):
  op = cmd[0]
  if op == 'add':
    g.AddVersion(STATUS[cmd[1]], size)
  else:
    {'promote': g.Promote, 'demote': g.Demote, 'revoke': g.Revoke}[op](cmd[1])


def random_command(rng, model, valid=.8):
  """A random command, usually one that is not refused in this state."""
  nums = sorted(model.v)
  for _ in range(20):
    x = rng.random()
    if not nums or x < (.3 if len(nums) < 8 else .1):
      return ('add', rng.choice((P, P, A, A, I)))
    n = rng.choice(nums) if rng.random() < .93 else rng.choice((0, max(nums) + 1, 99, 2 ** 31, 1))
    cmd = (rng.choice(('promote', 'promote', 'demote', 'demote', 'revoke', 'revoke')), n)
    try:
      model.copy().apply(cmd)
    except Refused:
      if rng.random() < valid:
        continue
    return cmd
  return ('add', A)


def start(spec, loc):
  """Writes the initial key set; returns (KeySet, Model)."""
  ks = gen.keyset(spec) if spec['keys'] else ref.KeySet(
      {'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[spec['purpose']], spec['type'], [],
      spec.get('name', 'Test'))
  ks.write(loc)
  return ks, Model((v.number, v.status) for v in ks.versions)


def start_spec(rng, kind, n=None):
  """A starting key set of kind aes|hmac|rsa-crypt|rsa-sign|dsa with n keys, odd numbers included."""
  n = rng.choice((0, 1, 2, 3, 4)) if n is None else n
  base = {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'rsa-crypt': 'RSA_PRIV', 'rsa-sign': 'RSA_PRIV', 'dsa': 'DSA_PRIV'}
  if kind == 'aes':
    keys = ['aes%d:%d' % (rng.choice((128, 192, 256)), rng.randrange(1 << 20)) for _ in range(n)]
  elif kind == 'hmac':
    keys = ['hmac:%d' % rng.randrange(1 << 20) for _ in range(n)]
  elif kind == 'dsa':
    keys = ['dsa:%d' % i for i in gen.distinct_idx(rng, n, len(gen.DSA))]
  elif n > len(gen.RSA[1024]):     # a long list: small keys
    keys = ['rsa512:%d' % i for i in gen.distinct_idx(rng, n, len(gen.RSA[512]))]
  else:
    keys = ['rsa1024:%d' % i for i in gen.distinct_idx(rng, n, len(gen.RSA[1024]))]
  n = len(keys)
  numbers = list(range(1, n + 1))
  if rng.random() < .4:
    numbers = rng.sample(range(1, rng.choice((40, 40, 300, 3000)) if n < 30 else 3000), n)
  return {'keys': keys, 'status': gen.statuses(rng, n, rng.random() < .8) if n else '',
          'numbers': numbers, 'type': base[kind],
          'purpose': 'crypt' if kind in ('aes', 'rsa-crypt') else 'sign',
          'name': rng.choice(('Test', 'a key set', '', 'n\u00e4me "x"'))}
