"""C20: key identifiers are stable, correct and unique."""
import json
import os
import random

from kzmon import env, gen, kit, life, ref
from kzmon.env import B, S, keyczart, keyinfo, kz, readers, writers

ID = 'C20'
LEVEL = 'exploration'
RULE = ('a key whose identifier was observed in one place (object, header of an output, lookup, after storing, exported) and '
        'compared with the reference, or a key set after additions with forced collisions: distinct by key, representation and place')
REQUIRED = ('type:aes', 'type:hmac', 'type:rsa', 'type:dsa', 'place:object', 'place:public-object', 'place:header', 'place:attached',
            'place:stream', 'place:lookup', 'place:stored', 'place:exported', 'place:public-header', 'repr:minimal', 'repr:zeros',
            'repr:java', 'short-integer', 'replayed', 'unique', 'odd-exponent', 'collision:inactive', 'collision:revoked', 'generated',
            'large-set')
ASSUMPTIONS = ()


def cases(rng, tier):
  for i in range(60 if tier == 'quick' else 900):
    yield {'k': 'key', 'kind': ('aes', 'hmac', 'rsa', 'dsa')[i % 4], 'salt': rng.randrange(1 << 30)}
  for i in range(30 if tier == 'quick' else 240):
    yield {'k': 'replay', 'kind': ('aes', 'hmac', 'aes', 'hmac', 'rsa-crypt', 'rsa-sign', 'dsa')[i % 7], 'salt': rng.randrange(1 << 30),
           'how': ('memory', 'functions', 'tool')[i % 3]}
  for i in range(6 if tier == 'quick' else 40):
    yield {'k': 'birthday', 'kind': ('aes', 'hmac')[i % 2], 'salt': rng.randrange(1 << 30)}
  for i in range(4 if tier == 'quick' else 20):
    yield {'k': 'large', 'kind': ('aes', 'hmac')[i % 2], 'salt': rng.randrange(1 << 30), 'n': 40}


# ---------------------------------------------------------------- one key

def odd_key(rng, kind, mon):
  """Keys of unusual shapes."""
  if kind == 'aes':
    n = rng.choice((16, 24, 32))
    shape = rng.choice((lambda n: rng.randbytes(n), lambda n: b'\0' * n, lambda n: b'\0\0' + rng.randbytes(n - 2),
                        lambda n: b'\xff' * n, lambda n: rng.randbytes(n - 3) + b'\0\0\0', lambda n: b'\0' + rng.randbytes(n - 1)))
    return ref.AesK(shape(n), rng.choice((rng.randbytes(32), b'\0' * 4 + rng.randbytes(28), b'\0' * 32)))
  if kind == 'hmac':
    return ref.HmacK(rng.choice((rng.randbytes(32), b'\0' * 32, b'\0' + rng.randbytes(31), b'\0' * 8 + rng.randbytes(24), b'\xff' * 32,
                                 rng.randbytes(31) + b'\0', b'\x80' + b'\0' * 31)))
  if kind == 'rsa':
    k = rng.choice(gen.RSA[rng.choice((1024, 1024, 2048, 768))])
    if rng.random() < .6:
      phi = (k.p - 1) * (k.q - 1)
      while True:
        e = rng.choice((3, 5, 17, 257, 65537, rng.randrange(1 << 15, 1 << 16) | 1, rng.randrange(1 << 31, 1 << 32) | 1,
                        rng.getrandbits(40) | 1))
        try:
          d = pow(e, -1, phi)
          break
        except ValueError:
          pass
      mon.event('odd-exponent')
      k = ref.RsaK(k.n, e, d, k.p, k.q)
    return k
  k = rng.choice(gen.DSA)
  if rng.random() < .7:
    while True:
      x = rng.randrange(2, k.q)
      y = pow(k.g, x, k.p)
      if y.bit_length() <= k.p.bit_length() - 8:
        break
    mon.event('short-integer')
    k = ref.DsaK(k.p, k.q, k.g, y, x)
  return k


def reps(j):
  """The same key with different numbers of leading zero bytes in its integers."""
  def change(o, how):
    out = {}
    for f, v in o.items():
      if isinstance(v, dict):
        out[f] = change(v, how)
      elif isinstance(v, str) and f not in ('mode',):
        out[f] = ref.b64(how(ref.unb64(v).lstrip(b'\0')))
      else:
        out[f] = v
    return out
  yield 'minimal', change(j, lambda b: b)
  yield 'zeros', change(j, lambda b: b'\0' * 5 + b)
  yield 'java', change(j, lambda b: (b'\0' if b[:1] > b'\x7f' else b'') + b)


def _key(mon, case):
  rng = random.Random(case['salt'])
  kind = case['kind']
  key = odd_key(rng, kind, mon)
  mon.event('type:' + kind)
  texts = [('plain', key.json())]
  if kind in ('rsa', 'dsa'):
    texts += list(reps(key.json()))
  purposes = {'aes': ('crypt',), 'hmac': ('sign',), 'dsa': ('sign',), 'rsa': ('crypt', 'sign')}[kind]
  other = gen.key({'aes': 'aes128:77', 'hmac': 'hmac:77', 'rsa': 'rsa1024:5', 'dsa': 'dsa:5'}[kind])
  for rep, j in texts:
    mon.event('repr:' + rep)
    for purpose in purposes:
      _observe(mon, rng, key, j, kind, purpose, rep, other)


def _observe(mon, rng, key, j, kind, purpose, rep, other):
  want = key.id

  def judge(place, got, detail=''):
    mon.check(got == want, lambda: 'the identifier of a %s key (%s) is %s in place "%s"%s, must be %s' % (
        kind, rep, got and got.hex(), place, detail, want.hex()), key=j)
    mon.event('place:' + place)
    mon.distinct(place, kind, rep, want)

  versions = [ref.Version(1, 'PRIMARY', key)]
  if other.id != key.id:
    versions.append(ref.Version(2, 'ACTIVE', other))
  ks = ref.KeySet({'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose], key.type, versions)

  def reader(public=False):
    src = ks.public() if public else ks
    r = ref.MemReader(src)
    r.keys[1] = json.dumps(j['publicKey'] if public else j)
    return r
  g = mon.must('GenericKeyczar', kz.GenericKeyczar, reader())
  v1 = [v for v in g.versions if v.version_number == 1][0]
  k = g.GetKey(v1)
  judge('object', B_id(k.hash_id))
  mon.check(g.GetKey(ref.b64(want)) is k, 'the identifier does not lead to the key')
  mon.event('place:lookup')
  if kind in ('rsa', 'dsa'):
    judge('public-object', B_id(k.public_key.hash_id))
  d = mon.tmpdir()
  mon.must('Write', g.Write, writers.CreateWriter(d))
  again = mon.must('GenericKeyczar.Read', kz.GenericKeyczar.Read, d)
  judge('stored', B_id(again.GetKey([v for v in again.versions if v.version_number == 1][0]).hash_id))
  data = S(gen.message(gen.msg(rng, maxlen=30)))
  pub = None
  if kind in ('rsa', 'dsa'):
    d2 = mon.tmpdir()
    mon.must('PublicKeyExport', again.PublicKeyExport, d2)
    p = mon.must('GenericKeyczar.Read', kz.GenericKeyczar.Read, d2)
    judge('exported', B_id(p.GetKey([v for v in p.versions if v.version_number == 1][0]).hash_id))
    pub = (kz.Encrypter if purpose == 'crypt' else kz.Verifier).Read(d2)
    direct = mon.must('reading the public key', kz.Encrypter if purpose == 'crypt' else kz.Verifier, reader(True))
  if purpose == 'crypt':
    c = mon.must('Crypter', kz.Crypter, reader())
    ct = mon.must('Encrypt', c.Encrypt, data)
    judge('header', ref.unb64(ct)[1:5])
    if kind == 'aes':
      sink = kit.Sink()
      w = c.CreateEncryptingStreamWriter(sink)
      w.write(data)
      w.flush()
      judge('stream', ref.unb64(sink.value())[1:5])
    if pub is not None:
      for o in (pub, direct):
        ct = mon.must('Encrypt', o.Encrypt, data)
        judge('public-header', ref.unb64(ct)[1:5])
        back = mon.call(c.Decrypt, ct)
        mon.check(back.ok and back.value == data, lambda: 'the private key cannot decrypt: %r' % back)
  else:
    s = mon.must('Signer', kz.Signer, reader())
    sig = mon.must('Sign', s.Sign, data)
    judge('header', ref.unb64(sig)[1:5])
    att = mon.must('AttachedSign', s.AttachedSign, data, 'n')
    judge('attached', ref.unb64(att)[1:5])
    if pub is not None:
      for o in (pub, direct):
        r = mon.call(o.Verify, data, sig)
        mon.check(r.ok and r.value, lambda: 'the public key does not accept the signature: %r' % r)


def B_id(s):
  try:
    return ref.unb64(s)
  except (ValueError, AttributeError):
    return B(s) if isinstance(s, str) else None


# ---------------------------------------------------------------- collisions

class Tape(object):
  """Randomness that is recorded, and played again from the beginning on demand."""

  def __init__(self, rng):
    self.rng, self.tape, self.pos, self.drawn = rng, b'', 0, 0

  def __call__(self, n):
    while len(self.tape) < self.pos + n:
      self.tape += self.rng.randbytes(64)
    out = self.tape[self.pos:self.pos + n]
    self.pos += n
    self.drawn += n
    return out


def unique(mon, ks, what):
  ids = [v.key.id for v in ks.versions]
  mon.check(len(set(ids)) == len(ids), lambda: 'two keys of a key set have the same identifier %s' % what,
            ids=[i.hex() for i in ids])
  mats = [life.key_id(v.key) for v in ks.versions]
  mon.check(len(set(mats)) == len(mats), lambda: 'a key set contains the same key twice %s' % what)
  mon.event('unique')


def add(mon, how, loc, g, status, size):
  if how == 'memory':
    o = mon.call(g.AddVersion, status, size)
  elif how == 'functions':
    o = mon.call(keyczart.AddKey, loc, status, None, size)
  else:
    o = life.tool(mon, ['addkey', '--location=' + loc, '--status=' + str(status).lower()] + (
        ['--size=%d' % size] if size else []))
  mon.check(o.ok, lambda: 'adding a key fails when the first key generated collides: %r' % o, traceback=o.tb)


def _replay(mon, case):
  """Every key after the first is generated from the randomness of the first, and has to be generated again."""
  rng = random.Random(case['salt'])
  kind, how = case['kind'], case['how']
  loc = mon.tmpdir()
  ks, model = life.start(life.start_spec(rng, kind, rng.choice((0, 2))), loc)
  tape = Tape(rng)
  env.Entropy.use(tape)
  size = 1024 if kind.startswith('rsa') else None
  g = mon.must('reading', kz.GenericKeyczar.Read, loc) if how == 'memory' else None
  revoked = None
  for i in range(4 if kind in ('aes', 'hmac') else 2):
    tape.pos = 0
    before = tape.drawn
    status = rng.choice((keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE))
    add(mon, how, loc, g, status, size)
    if how == 'memory':
      w = writers.CreateWriter(loc)
      mon.must('Write', g.Write, w)
    now = ref.read_keyset(loc)
    unique(mon, now, 'after adding one from the same randomness')
    mon.check(len(now.versions) == len(ks.versions) + 1 + i, 'the number of versions is wrong after a collision')
    if i:
      mon.event('replayed')
      mon.distinct('replay', kind, how, i, case['salt'])
    first = [v for v in now.versions if v.number not in [x.number for x in ks.versions]][0]
    if i and first.status == 'INACTIVE':
      mon.event('collision:inactive')
  # the number and the key of a revoked version are free again
  number = max(v.number for v in now.versions)
  for _ in range(3):
    cur = [v for v in ref.read_keyset(loc).versions if v.number == number][0]
    if cur.status == 'INACTIVE':
      break
    keyczart.Demote(loc, number)
  keyczart.Revoke(loc, number)
  if how == 'memory':
    g = mon.must('reading', kz.GenericKeyczar.Read, loc)
  tape.pos = 0
  add(mon, how, loc, g, keyinfo.PRIMARY, size)
  if how == 'memory':
    mon.must('Write', g.Write, writers.CreateWriter(loc))
  unique(mon, ref.read_keyset(loc), 'after revoking and adding')
  mon.event('collision:revoked')
  _usable(mon, loc, kind)


def _usable(mon, loc, kind):
  ks = ref.read_keyset(loc)
  if ks.primary is None:
    return
  if ks.purpose == 'SIGN_AND_VERIFY':
    s = mon.must('Signer.Read', kz.Signer.Read, loc)
    sig = mon.must('Sign', s.Sign, 'x')
    mon.check(ref.unb64(sig)[1:5] == ks.primary.key.id, 'a generated key signs with another identifier')
  else:
    s = mon.must('Crypter.Read', kz.Crypter.Read, loc)
    ct = mon.must('Encrypt', s.Encrypt, 'x')
    mon.check(ref.unb64(ct)[1:5] == ks.primary.key.id, 'a generated key encrypts with another identifier')
  mon.event('generated')


def _birthday(mon, case):
  """Two different keys with the same identifier, found by search; the second is offered to a set with the first."""
  rng = random.Random(case['salt'])
  kind = case['kind']
  seen = {}
  base = rng.getrandbits(64)
  i = 0
  while True:
    tag = b'%d' % (base + i)
    m = ref.sha1(tag) + ref.sha1(tag + b'x') + ref.sha1(tag + b'y')
    if kind == 'aes':
      k = ref.sha1(ref.u32(16) + m[:48])[:4]
    else:
      k = ref.sha1(m[:32])[:4]
    if k in seen:
      a, b = seen[k], m
      break
    seen[k] = m
    i += 1
  mk = (lambda m: ref.AesK(m[:16], m[16:48])) if kind == 'aes' else (lambda m: ref.HmacK(m[:32]))
  if mk(a).id != mk(b).id:
    raise RuntimeError('the search for collisions does not work')
  loc = mon.tmpdir()
  status = rng.choice(('PRIMARY', 'ACTIVE', 'INACTIVE'))
  ref.KeySet('DECRYPT_AND_ENCRYPT' if kind == 'aes' else 'SIGN_AND_VERIFY', mk(a).type, [ref.Version(1, status, mk(a))]).write(loc)
  tape = Tape(rng)
  tape.tape = b[:48] if kind == 'aes' else b[:32]
  env.Entropy.use(tape)
  add(mon, rng.choice(('functions', 'tool')), loc, None, keyinfo.PRIMARY, None)
  now = ref.read_keyset(loc)
  unique(mon, now, 'after adding a different key with the same identifier')
  mon.check(len(now.versions) == 2, 'the number of versions is wrong after a collision')
  if tape.drawn > (48 if kind == 'aes' else 32):
    mon.event('birthday')
  mon.distinct('birthday', kind, status, case['salt'])
  _usable(mon, loc, kind)


def _large(mon, case):
  rng = random.Random(case['salt'])
  loc = mon.tmpdir()
  life.start(life.start_spec(rng, case['kind'], 0), loc)
  g = kz.GenericKeyczar.Read(loc)
  # a poor source of randomness: only a few different keys at first
  pool = [rng.randbytes(64) for _ in range(12)]
  count = [0]

  def poor(n):
    count[0] += 1
    if count[0] % 7 == 0:
      return rng.randbytes(n)
    return rng.choice(pool)[:n]
  env.Entropy.use(poor)
  for i in range(case['n']):
    add(mon, 'memory', loc, g, rng.choice((keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE)), None)
  mon.must('Write', g.Write, writers.CreateWriter(loc))
  ks = ref.read_keyset(loc)
  mon.check(len(ks.versions) == case['n'], 'versions are missing')
  unique(mon, ks, 'with a poor source of randomness')
  mon.event('large-set')
  mon.distinct('large', case['kind'], case['salt'])


def run(mon, case):
  {'key': _key, 'replay': _replay, 'birthday': _birthday, 'large': _large}[case['k']](mon, case)
