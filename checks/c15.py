"""C15: key sets are used only for their purpose."""
import json
import random

from kzmon import gen, kit, life, ref
from kzmon.env import B, S, errors, kz, readers

ID = 'C15'
LEVEL = 'exploration'
RULE = ('an attempt to construct an object from a key set, or an operation on the result: distinct by key type, purpose, '
        'class, way of reading and statuses')
REQUIRED = ('refused', 'allowed', 'via:memory', 'via:file', 'via:Read', 'via:encrypted', 'two-primaries',
            'unknown:type', 'unknown:purpose', 'unknown:status', 'operation', 'session', 'no-versions')
ASSUMPTIONS = ('key sets whose type and purpose contradict each other are only judged by purpose',)

D, E, SV, V = 'DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY'
PURPOSES = (D, E, SV, V)
TYPES = {'AES': 'aes128', 'HMAC_SHA1': 'hmac', 'RSA_PRIV': 'rsa1024', 'RSA_PUB': 'rsa1024', 'DSA_PRIV': 'dsa',
         'DSA_PUB': 'dsa'}
CLASSES = ('Encrypter', 'Crypter', 'Verifier', 'Signer', 'UnversionedVerifier', 'UnversionedSigner')
ALLOW = {'Encrypter': (D, E), 'Crypter': (D,), 'Verifier': (SV, V), 'UnversionedVerifier': (SV, V),
         'Signer': (SV,), 'UnversionedSigner': (SV,)}
OPS = {'Encrypt': (D, E), 'CreateEncryptingStreamWriter': (D, E), 'Decrypt': (D,), 'CreateDecryptingStreamReader': (D,),
       'Sign': (SV,), 'AttachedSign': (SV,), 'Verify': (SV, V), 'AttachedVerify': (SV, V)}
CONSISTENT = {('AES', D), ('RSA_PRIV', D), ('RSA_PUB', E), ('HMAC_SHA1', SV), ('RSA_PRIV', SV), ('DSA_PRIV', SV),
              ('RSA_PUB', V), ('DSA_PUB', V)}
WAYS = ('memory', 'file', 'Read', 'encrypted')


def cases(rng, tier):
  n = 1 if tier == 'quick' else 12
  for r in range(n):
    for t in sorted(TYPES):
      for p in PURPOSES:
        for way in WAYS:
          for st in ('P', 'AP', 'I', 'AAI', 'PAI', ''):
            yield {'k': 'matrix', 'type': t, 'purpose': p, 'way': way, 'status': st, 'salt': rng.randrange(1 << 20)}
    for t in sorted(TYPES):
      for p in PURPOSES:
        for st in ('PP', 'PAP', 'IPP', 'PPP'):
          yield {'k': 'primaries', 'type': t, 'purpose': p, 'status': st, 'salt': rng.randrange(1 << 20)}
        for field in ('type', 'purpose', 'status'):
          yield {'k': 'unknown', 'type': t, 'purpose': p, 'field': field, 'salt': rng.randrange(1 << 20)}
    for t, p in sorted(CONSISTENT):
      yield {'k': 'session', 'type': t, 'purpose': p, 'salt': rng.randrange(1 << 20)}


class Pub(ref.PublicKeySet):
  pass


def build(case, status):
  kind = TYPES[case['type']]
  n = len(status)
  if kind == 'aes128' or kind == 'hmac':
    ks = ['%s:%d' % (kind, case['salt'] + i) for i in range(n)]
  else:
    pool = len(gen.DSA) if kind == 'dsa' else len(gen.RSA[1024])
    ks = ['%s:%d' % (kind, (case['salt'] + i) % pool) for i in range(n)]
  names = {'P': 'PRIMARY', 'A': 'ACTIVE', 'I': 'INACTIVE'}
  cls = Pub if case['type'].endswith('PUB') else ref.KeySet
  return cls(case['purpose'], case['type'], [ref.Version(i + 1, names[c], gen.key(k))
                                             for i, (c, k) in enumerate(zip(status, ks))])


def outer(salt):
  return gen.keyset({'keys': ['aes256:%d' % salt]})


def opener(mon, ks, way, salt):
  """-> function from class to object."""
  if way == 'memory':
    return lambda cls: cls(ref.MemReader(ks))
  loc = mon.tmpdir()
  if way == 'encrypted':
    ck = outer(salt)
    ks.encrypted = True
    ks.write(loc, lambda t: ref.b64(ck.primary.key.encrypt(t.encode(), gen.stream(t[-8:], 16))))
    return lambda cls: cls(readers.EncryptedReader(readers.CreateReader(loc), kz.Crypter(ref.MemReader(ck))))
  ks.write(loc)
  if way == 'file':
    return lambda cls: cls(readers.FileReader(loc))
  return lambda cls: cls.Read(loc)


def operations(mon, case, cname, obj, ks):
  """Whatever the object does successfully is covered by the purpose."""
  v = ks.primary or ks.versions[0]
  k = v.key
  data = b'some data'
  if k.kind in ('aes', 'rsa'):
    ct = ref.b64(k.encrypt(data, gen.stream('i', 16 if k.kind == 'aes' else 20)))
  else:
    ct = ref.b64(b'\0' + k.id + b'x' * 60)
  sig = b'' if k.kind == 'aes' else k.sign(data + b'\0', 7) if k.kind == 'dsa' else k.sign(data + b'\0')
  am = ref.attached_message(data, b'n')
  asig = b'' if k.kind == 'aes' else k.sign(am, 7) if k.kind == 'dsa' else k.sign(am)
  unv = b'' if k.kind == 'aes' else k.sign(data, 7) if k.kind == 'dsa' else k.sign(data)

  def verify():
    if cname.startswith('Unversioned'):
      return obj.Verify(S(data), ref.b64(unv))
    return obj.Verify(S(data), ref.b64(b'\0' + k.id + sig))

  def stream_out():
    s = kit.Sink()
    w = obj.CreateEncryptingStreamWriter(s)
    w.write(S(data))
    w.flush()
    return s.value()

  def stream_in():
    r = obj.CreateDecryptingStreamReader(kit.Source(ct))
    out = ''
    while True:
      x = r.read()
      if x == '':
        return out
      out += x or ''

  calls = {'Encrypt': lambda: obj.Encrypt(S(data)), 'CreateEncryptingStreamWriter': stream_out,
           'Decrypt': lambda: obj.Decrypt(ct), 'CreateDecryptingStreamReader': stream_in,
           'Sign': lambda: obj.Sign(S(data)), 'AttachedSign': lambda: obj.AttachedSign(S(data), 'n'),
           'Verify': verify,
           'AttachedVerify': lambda: obj.AttachedVerify(
               ref.b64(b'\0' + k.id + ref.u32(len(data)) + data + asig), 'n')}
  consistent = (case['type'], case['purpose']) in CONSISTENT
  for op in sorted(OPS):
    if not hasattr(obj, op):
      continue
    o = mon.call(calls[op])
    done = o.ok and o.value is not None and o.value is not False
    may = case['purpose'] in OPS[op]
    if not may:
      mon.check(not done, lambda: '%s of a %s/%s key set can %s' % (cname, case['type'], case['purpose'], op))
      mon.event('unsupported-operation')
      continue
    # an operation that the key type cannot do is never pretended
    private = not case['type'].endswith('PUB')
    can = {'Encrypt': k.kind in ('aes', 'rsa'), 'Decrypt': k.kind in ('aes', 'rsa') and private,
           'CreateEncryptingStreamWriter': k.kind == 'aes', 'CreateDecryptingStreamReader': k.kind == 'aes',
           'Sign': k.kind != 'aes' and private, 'AttachedSign': k.kind != 'aes' and private,
           'Verify': k.kind != 'aes', 'AttachedVerify': k.kind != 'aes'}[op]
    if not can:
      mon.check(not done, lambda: '%s of a %s/%s key set pretends to %s' % (cname, case['type'], case['purpose'], op))
    elif consistent:
      need = op in ('Encrypt', 'CreateEncryptingStreamWriter', 'Sign', 'AttachedSign')
      if need and ks.primary is None:
        mon.check(kit.refused(o), lambda: '%s without primary: %r' % (op, o))
      else:
        mon.check(done, lambda: '%s of a %s/%s key set cannot %s: %r' % (cname, case['type'], case['purpose'], op, o),
                  traceback=o.tb)
      mon.event('operation')


def classes():
  """All classes that can do something with a key set."""
  out = []
  todo = [kz.Keyczar]
  while todo:
    c = todo.pop()
    todo += c.__subclasses__()
    if c.__module__ == kz.__name__ and any(hasattr(c, op) for op in OPS):
      out.append(c)
  return out


def _matrix(mon, case):
  ks = build(case, case['status'])
  way = opener(mon, ks, case['way'], case['salt'])
  found = dict((c.__name__, c) for c in classes())
  for n in CLASSES:
    found.setdefault(n, getattr(kz, n))
  for cname, cls in sorted(found.items()):
    o = mon.call(way, cls)
    if cname in ALLOW:
      if case['purpose'] in ALLOW[cname]:
        consistent = (case['type'], case['purpose']) in CONSISTENT
        mon.check(o.ok or not consistent and kit.refused(o), lambda: '%s cannot be made from a %s/%s key set (%s): %r'
                  % (cname, case['type'], case['purpose'], case['way'], o), traceback=o.tb)
        mon.event('allowed')
      else:
        mon.check(kit.refused(o), lambda: '%s made from a %s/%s key set (%s): %r, must be refused'
                  % (cname, case['type'], case['purpose'], case['way'], o), traceback=o.tb)
        mon.event('refused')
    if not ks.versions:
      mon.event('no-versions')
    elif o.ok:
      operations(mon, case, cname, o.value, ks)
    mon.event('via:' + case['way'])
    mon.distinct(cname, case['type'], case['purpose'], case['way'], case['status'])


def _primaries(mon, case):
  ks = build(case, case['status'])
  for cls in classes() + [kz.GenericKeyczar]:
    for way in WAYS:
      k2 = build(case, case['status'])
      o = mon.call(opener(mon, k2, way, case['salt']), cls)
      mon.check(kit.refused(o), lambda: '%s accepts a key set with two primary versions: %r' % (cls.__name__, o))
      mon.event('two-primaries')
      mon.distinct('primaries', cls.__name__, way, case['type'], case['purpose'], case['status'])


BAD = {'type': ('', 'AES2', 'aes', 'RSA', 'HMAC', 'DSA_PRIV ', 'UNKNOWN', None, 0, 'TEST', 'EC_PRIV'),
       'purpose': ('', 'SIGN', 'CRYPT', 'encrypt', 'DECRYPT', 'VERIFY ', None, 1, 'TEST', 'ENCRYPT_AND_DECRYPT'),
       'status': ('', 'primary', 'active', 'PRIMARY ', 'SCHEDULED_FOR_REVOCATION', 'REVOKED', None, 2, 'PENDING')}


class Raw(object):

  def __init__(self, meta, keys):
    self.meta, self.keys = meta, keys

  def GetMetadata(self):
    return json.dumps(self.meta)

  def GetKey(self, n):
    return self.keys[n]

  def Close(self):
    pass


def _unknown(mon, case):
  ks = build(case, 'PA')
  base = ref.MemReader(ks)
  for bad in BAD[case['field']]:
    m = json.loads(base.meta)
    if case['field'] == 'status':
      m['versions'][case['salt'] % 2]['status'] = bad
    else:
      m[case['field']] = bad
    for cls in classes() + [kz.GenericKeyczar]:
      o = mon.call(cls, Raw(m, base.keys))
      mon.check(kit.refused(o), lambda: '%s and the unknown %s %r: %r' % (cls.__name__, case['field'], bad, o),
                traceback=o.tb)
      mon.event('unknown:' + case['field'])
    mon.distinct('unknown', case['type'], case['purpose'], case['field'], bad)


def _session(mon, case):
  """Sessions need an object of the right kind."""
  ks = build(case, 'P')
  p = case['purpose']
  ck = outer(case['salt'])
  good = kz.Crypter(ref.MemReader(ck))
  signer = kz.Signer(ref.MemReader(gen.keyset({'keys': ['hmac:%d' % case['salt']]})))
  enc = kz.SignedSessionEncrypter(good, signer)
  for cname in CLASSES:
    if p not in ALLOW[cname]:
      continue
    obj = getattr(kz, cname)(ref.MemReader(ks))
    # a session can be opened only by something that encrypts
    o = mon.call(kz.SessionEncrypter, obj)
    if 'rypter' not in cname:
      mon.check(not o.ok, lambda: 'a session encrypter made from a %s' % cname)
    # and decrypted only by something that decrypts
    material = kz.SessionEncrypter(good).session_material
    o = mon.call(kz.SessionDecrypter, obj, material)
    mon.check(not o.ok, lambda: 'a session decrypter made from an unrelated %s' % cname)
    if cname not in ('Signer',):
      s = mon.call(lambda: kz.SignedSessionEncrypter(good, obj).Encrypt('x'))
      mon.check(not s.ok, lambda: 'a signed session encrypter signs with a %s' % cname)
    if cname in ('Encrypter', 'Crypter'):
      s = mon.call(lambda: kz.SignedSessionDecrypter(good, obj, enc.session_material).Decrypt(enc.Encrypt('x')))
      mon.check(not s.ok or s.value is None, lambda: 'a signed session decrypter verifies with a %s' % cname)
    mon.event('session')
    mon.distinct('session', case['type'], p, cname)


def run(mon, case):
  {'matrix': _matrix, 'primaries': _primaries, 'unknown': _unknown, 'session': _session}[case['k']](mon, case)
