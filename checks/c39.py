"""C39: C++ and Java open key sets only for their purpose and, if encrypted, only with their key."""
import json
import os
import random

from kzmon import foreign, gen, ref
from checks import c15, c31

ID = 'C39'
LEVEL = 'exploration'
RULE = ('an attempt to open a key set, or an operation on the result: distinct by language, class, key type, purpose, storage, statuses and what is wrong')
LANGS = ('C++', 'Java')
REQUIRED = tuple('%s %s' % (l, e) for l in LANGS for e in ('refused', 'allowed', 'operation', 'storage:plain', 'storage:crypted', 'two-primaries', 'no-crypter', 'other-crypter', 'damaged', 'inactive',
                                                             'unknown:type', 'unknown:purpose', 'plain-as-crypted')) + ('C++ password',)
ASSUMPTIONS = ('key sets whose type and purpose contradict each other are only judged by purpose',
               'java/org/json behaves as the library of json.org, which is not in the sandbox',
               'a stored key set that cannot be read is refused by any exception in Java (its documentation promises none)',
               'RSA and DSA key files stored with a password carry no authenticator: only wrong passwords are judged')
CASE_TIMEOUT = {'quick': 250, 'thorough': 600}
CLASSES = {'C++': c15.CLASSES, 'Java': c15.CLASSES + ('TimeoutSigner', 'TimeoutVerifier')}
ALLOW = dict(c15.ALLOW, TimeoutSigner=(c15.SV,), TimeoutVerifier=(c15.SV, c15.V))


def setup():
  foreign.setup_java()
  foreign.setup_cpp()


def cases(rng, tier):
  for r in range(3 if tier == 'quick' else 10):
    for t in sorted(c15.TYPES):
      for p in c15.PURPOSES:
        for st in ('P', 'AP', 'PAI', 'I'):
          yield {'k': 'matrix', 'type': t, 'purpose': p, 'status': st, 'salt': rng.randrange(1 << 20)}
        for st in ('PP', 'PAP', 'IPP'):
          yield {'k': 'primaries', 'type': t, 'purpose': p, 'status': st, 'salt': rng.randrange(1 << 20)}
        for field in ('type', 'purpose'):
          yield {'k': 'unknown', 'type': t, 'purpose': p, 'status': 'AP', 'field': field, 'salt': rng.randrange(1 << 20)}
    for t, p in sorted(c15.CONSISTENT):
      if not t.endswith('PUB'):
        for st in ('P', 'AP', 'PAI'):
          yield {'k': 'crypted', 'type': t, 'purpose': p, 'status': st, 'salt': rng.randrange(1 << 20), 'n': 12 if tier == 'quick' else 40}


class Lang(object):

  def __init__(self, mon, name):
    self.mon, self.name = mon, name
    self.lib = foreign.Cpp(mon) if name == 'C++' else foreign.Java(mon, False)

  def open(self, kind, loc, storage='plain', secret=''):
    """A handle or None."""
    r = self.lib.raw('open', kind, storage, secret, loc)
    return int(r[1]) if r[0] == 'ok' else None

  def do(self, *a):
    r = self.lib.raw(*a)
    return None if r[0] != 'ok' else foreign.unhex(r[1]) if len(r) > 1 else True

  def event(self, e):
    self.mon.event('%s %s' % (self.name, e))


def operate(mon, g, rng, ks, h, kind, case):
  """An object that could be opened works, with the key it should."""
  msg = gen.message(gen.msg(rng))[:40]
  k = ks.primary
  g.do('encoding', h, 0)
  g.event('operation')
  if kind in ('Encrypter', 'Crypter'):
    out = g.do('encrypt', h, msg)
    if k is None:
      mon.check(out is None, '%s: a set without a primary key encrypts' % g.name)
      return
    mon.check(out is not None and k.key.decrypt(out)[0] == msg, '%s: %s does not encrypt' % (g.name, kind), case_=case)
  elif kind in ('Signer', 'UnversionedSigner'):
    out = g.do('sign', h, msg)
    if k is None:
      mon.check(out is None, '%s: a set without a primary key signs' % g.name)
      return
    mon.check(out is not None, '%s: %s does not sign' % (g.name, kind), case_=case)
    c31.holds(foreign.Renamed(mon, g.name), k.key, msg + (b'\0' if kind == 'Signer' else b''), out[5:] if kind == 'Signer' else out, 'a signature')
  elif kind in ('Verifier', 'UnversionedVerifier'):
    for v in ks.versions:
      plain = kind == 'UnversionedVerifier'
      sig = c31.genuine(rng, v.key, msg + (b'' if plain else b'\0'))
      mon.check(g.do('verify', h, msg, sig if plain else b'\0' + v.key.id + sig), '%s: %s does not accept a genuine signature' % (g.name, kind), status=v.status, case_=case)
      mon.check(not g.do('verify', h, msg + b'x', sig if plain else b'\0' + v.key.id + sig), '%s: %s accepts a wrong signature' % (g.name, kind), case_=case)
  if kind == 'Crypter':
    for v in ks.versions:
      if v.status == 'INACTIVE':
        g.event('inactive')
      ct = v.key.encrypt(msg, rng.randbytes(16 if v.key.kind == 'aes' else 20))
      mon.check(g.do('decrypt', h, ct) == msg, '%s: what was encrypted with a key of the set does not decrypt' % g.name, status=v.status, case_=case)


def matrix(mon, case):
  rng = random.Random(case['salt'])
  consistent = (case['type'], case['purpose']) in c15.CONSISTENT
  for l in LANGS:
    g = Lang(mon, l)
    for storage in ('plain', 'crypted'):
      if storage == 'crypted' and case['type'].endswith('PUB'):
        continue
      ks = c15.build(case, case['status'])
      loc, secret, outer = mon.tmpdir(), '', None
      if storage == 'crypted':
        outer = gen.keyset({'keys': ['aes128:%d' % case['salt']]})
        secret = outer.write(mon.tmpdir())
        ks.encrypted = True
        ks.write(loc, lambda t: ref.b64(outer.primary.key.encrypt(t.encode(), rng.randbytes(16))))
      else:
        ks.write(loc)
      g.event('storage:' + storage)
      for kind in CLASSES[l]:
        h = g.open(kind, loc, storage, secret)
        may = case['purpose'] in ALLOW[kind]
        if consistent and may:
          mon.check(h is not None, '%s: %s refuses a key set for its purpose' % (l, kind), case_=case, storage=storage)
          g.event('allowed')
          operate(mon, g, rng, ks, h, kind, case)
        elif not may:
          mon.check(h is None, '%s: %s opens a key set of another purpose' % (l, kind), case_=case, storage=storage)
          g.event('refused')
        mon.distinct(l, kind, case['type'], case['purpose'], storage, case['status'])
    g.lib.done()


def primaries(mon, case):
  for l in LANGS:
    g = Lang(mon, l)
    loc = c15.build(case, case['status']).write(mon.tmpdir())
    for kind in CLASSES[l]:
      mon.check(g.open(kind, loc) is None, '%s: %s opens a key set with two primary keys' % (l, kind), case_=case)
      g.event('two-primaries')
    mon.distinct(l, 'primaries', case['type'], case['purpose'], case['status'])
    g.lib.done()


def unknown(mon, case):
  rng = random.Random(case['salt'])
  for l in LANGS:
    g = Lang(mon, l)
    loc = c15.build(case, case['status']).write(mon.tmpdir())
    with open(os.path.join(loc, 'meta')) as f:
      m = json.load(f)
    was = m[case['field']]
    m[case['field']] = rng.choice((was + 'X', 'X' + was, was[:-1], '', 'NOTHING'))
    if m[case['field']] in c15.PURPOSES + tuple(c15.TYPES):
      continue
    with open(os.path.join(loc, 'meta'), 'w') as f:
      json.dump(m, f)
    for kind in CLASSES[l]:
      mon.check(g.open(kind, loc) is None, '%s: %s opens a key set with an unknown %s' % (l, kind, case['field']), case_=case, value=m[case['field']])
      g.event('unknown:' + case['field'])
    mon.distinct(l, 'unknown', case['type'], case['purpose'], m[case['field']])
    g.lib.done()


def crypted(mon, case):
  """Encrypted key sets without their key."""
  rng = random.Random(case['salt'])
  for l in LANGS:
    g = Lang(mon, l)
    kinds = [k for k in CLASSES[l] if case['purpose'] in ALLOW[k]]
    ks = c15.build(case, case['status'])
    outer = gen.keyset({'keys': ['aes128:%d' % (case['salt'] + i) for i in range(2)]})
    others = [gen.keyset({'keys': ['aes128:%d' % (case['salt'] + 7)]}), gen.keyset({'keys': ['aes128:%d' % (case['salt'] + i) for i in (8, 9)]})]
    secret = outer.write(mon.tmpdir())
    plain, loc = ks.write(mon.tmpdir()), mon.tmpdir()
    ks.encrypted = True
    ks.write(loc, lambda t: ref.b64(outer.primary.key.encrypt(t.encode(), rng.randbytes(16))))

    def control():
      for kind in kinds:
        mon.check(g.open(kind, loc, 'crypted', secret) is not None, '%s: an encrypted key set does not open with its key' % l, kind=kind)
        g.event('allowed')

    control()
    for kind in kinds:
      mon.check(g.open(kind, loc) is None, '%s: %s opens an encrypted key set without its key' % (l, kind))
      g.event('no-crypter')
      for o in others:
        mon.check(g.open(kind, loc, 'crypted', o.write(mon.tmpdir())) is None, '%s: %s opens an encrypted key set with another key' % (l, kind))
        g.event('other-crypter')
      # key files that are not encrypted in a set that says so
      mixed = mon.tmpdir()
      for n in os.listdir(plain):
        with open(os.path.join(loc if n == 'meta' else plain, n)) as f, open(os.path.join(mixed, n), 'w') as t:
          t.write(f.read())
      mon.check(g.open(kind, mixed, 'crypted', secret) is None, '%s: %s takes plain key files for encrypted ones' % (l, kind))
      g.event('plain-as-crypted')
      mon.distinct(l, kind, case['type'], case['purpose'], case['status'], 'crypted')
    v = rng.choice(ks.versions)
    path = os.path.join(loc, str(v.number))
    with open(path) as f:
      text = f.read()
    raw = ref.unb64(text)
    for _ in range(case['n']):
      x = bytearray(raw)
      how = rng.choice(('flip', 'flip', 'head', 'tail', 'cut', 'tag'))
      i = {'head': rng.randrange(5), 'tail': len(x) - 21 - rng.randrange(16), 'tag': len(x) - 1 - rng.randrange(20)}.get(how, rng.randrange(len(x)))
      if how == 'cut':
        x = x[:rng.randrange(len(x))]
      else:
        x[i] ^= 1 << rng.randrange(8)
      with open(path, 'w') as f:
        f.write(ref.b64(bytes(x)))
      mon.check(g.open(rng.choice(kinds), loc, 'crypted', secret) is None, '%s: a damaged encrypted key file is used' % l, how=how, position=i)
      g.event('damaged')
      mon.distinct(l, 'damaged', case['type'], how)
    with open(path, 'w') as f:
      f.write(text)
    control()
    if l == 'C++':
      password(mon, g, rng, case, kinds)
    g.lib.done()


def password(mon, g, rng, case, kinds):
  """Key sets stored with a password by the tool."""
  kind = {'AES': ['--purpose=crypt'], 'HMAC_SHA1': ['--purpose=sign'], 'DSA_PRIV': ['--purpose=sign', '--asymmetric=dsa']}.get(case['type'])
  if kind is None:
    return
  loc = mon.tmpdir()
  word = ''.join(rng.choice('abcXYZ 019_') for _ in range(rng.choice((1, 8, 20))))
  mon.check(g.lib.tool('create', '--location=' + loc, '--name=x', *kind) and g.lib.tool('addkey', '--location=' + loc, '--status=primary', '--pass=' + word), 'C++: no key set with a password')
  for k in kinds:
    mon.check(g.open(k, loc, 'pbe', word) is not None, 'C++: a key set does not open with its password', word=word)
    for w in (word + 'x', word[:-1] or 'y', word.swapcase() + '!', 'other'):
      mon.check(g.open(k, loc, 'pbe', w) is None, 'C++: a key set opens with another password', word=word, other=w)
    mon.check(g.open(k, loc) is None, 'C++: a key set with a password opens without it')
    g.event('password')


def run(mon, case):
  {'matrix': matrix, 'primaries': primaries, 'unknown': unknown, 'crypted': crypted}[case['k']](mon, case)
