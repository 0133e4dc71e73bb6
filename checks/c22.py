"""C22: generated keys are valid and of the requested strength."""
import json
import os
import random

from kzmon import env, gen, kit, life, ref
from kzmon.env import B, S, errors, keyczart, keyinfo, keys, kz, readers, writers

ID = 'C22'
LEVEL = 'exploration'
RULE = ('a generated key whose stored form was parsed and checked by reference arithmetic and used, or a refused request: distinct by '
        'type, size, entry point and key')
REQUIRED = ('valid:AES:128', 'valid:AES:192', 'valid:AES:256', 'valid:HMAC_SHA1:256', 'valid:DSA_PRIV:1024', 'valid:RSA_PRIV:1024',
            'valid:RSA_PRIV:2048', 'via:GenKey', 'via:memory', 'via:functions', 'via:tool', 'default:AES', 'default:HMAC_SHA1',
            'default:DSA_PRIV', 'default:RSA_PRIV', 'refused:size', 'refused:public', 'refused:public-set', 'small-rsa', 'used:object',
            'used:stored', 'used:reference', 'bits', 'session', 'odd-entropy', 'mixed-sizes')
ASSUMPTIONS = ('probable primes by 24 rounds of Miller-Rabin are primes', )

TYPES = ('AES', 'HMAC_SHA1', 'DSA_PRIV', 'RSA_PRIV')
DEFAULT = {'AES': 128, 'HMAC_SHA1': 256, 'DSA_PRIV': 1024, 'RSA_PRIV': 2048}
SIZES = {'AES': (128, 192, 256), 'HMAC_SHA1': (256,), 'DSA_PRIV': (1024,), 'DSA_PUB': (1024,),
         'RSA_PRIV': (512, 768, 1024, 2048, 4096), 'RSA_PUB': (512, 768, 1024, 2048, 4096)}
VIAS = ('GenKey', 'memory', 'functions', 'tool')


def cases(rng, tier):
  q = tier == 'quick'
  for i, via in enumerate(VIAS):
    # the slow ones first
    yield {'k': 'gen', 'type': 'RSA_PRIV', 'size': None, 'via': via, 'salt': rng.randrange(1 << 30)}
    yield {'k': 'gen', 'type': 'RSA_PRIV', 'size': 2048, 'via': via, 'salt': rng.randrange(1 << 30)}
  for i in range(0 if q else 4):
    yield {'k': 'gen', 'type': 'RSA_PRIV', 'size': 4096, 'via': VIAS[i], 'salt': rng.randrange(1 << 30)}
  for i in range(16 if q else 160):
    yield {'k': 'gen', 'type': 'RSA_PRIV', 'size': 1024, 'via': VIAS[i % 4], 'salt': rng.randrange(1 << 30)}
    yield {'k': 'gen', 'type': 'DSA_PRIV', 'size': rng.choice((None, 1024)), 'via': VIAS[i % 4], 'salt': rng.randrange(1 << 30)}
  for i in range(48 if q else 2000):
    yield {'k': 'gen', 'type': 'AES', 'size': (None, 128, 192, 256)[i // 4 % 4], 'via': VIAS[i % 4], 'salt': rng.randrange(1 << 30)}
    yield {'k': 'gen', 'type': 'HMAC_SHA1', 'size': (None, 256)[i // 4 % 2], 'via': VIAS[i % 4], 'salt': rng.randrange(1 << 30)}
  for t in TYPES + ('DSA_PUB', 'RSA_PUB'):
    for part in range(4):
      yield {'k': 'sizes', 'type': t, 'part': part, 'salt': rng.randrange(1 << 30)}
  for i in range(8):
    yield {'k': 'public', 'kind': ('rsa-crypt', 'rsa-sign', 'dsa')[i % 3], 'salt': rng.randrange(1 << 30)}
  for i in range(4):
    yield {'k': 'small-rsa', 'size': (512, 768)[i % 2], 'via': ('GenKey', 'memory')[i // 2], 'salt': rng.randrange(1 << 30)}
  for t, s in (('AES', 128), ('AES', 192), ('AES', 256), ('HMAC_SHA1', 256)):
    for i in range(1 if q else 10):
      yield {'k': 'bits', 'type': t, 'size': s, 'salt': rng.randrange(1 << 30)}
  for i in range(6 if q else 40):
    yield {'k': 'session', 'salt': rng.randrange(1 << 30), 'signed': i % 2}
  for i in range(8 if q else 60):
    yield {'k': 'mixed', 'salt': rng.randrange(1 << 30), 'via': VIAS[1 + i % 3]}
  for i in range(12 if q else 60):
    yield {'k': 'entropy', 'type': TYPES[i % 2], 'salt': rng.randrange(1 << 30), 'byte': (0, 255, 61, 128)[i // 2 % 4]}


def prime(n, rng):
  if n < 4:
    return n in (2, 3)
  for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    if n % p == 0:
      return n == p
  d, r = n - 1, 0
  while not d & 1:
    d >>= 1
    r += 1
  for _ in range(24):
    x = pow(rng.randrange(2, n - 1), d, n)
    if x in (1, n - 1):
      continue
    for _ in range(r - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def check_key(mon, rng, t, size, j):
  """j: the stored form. Returns the reference key after checking everything about it."""
  mon.check(j.get('size') == size, lambda: 'a %s key of %s bits records the size %r' % (t, size, j.get('size')), key=j)
  try:
    k = ref.CLASSES[t].parse(j)
  except (ref.FormatError, ValueError, TypeError, LookupError) as e:
    mon.violate('a generated %s key of %s bits is not valid: %s' % (t, size, e), key=j)
  mon.check(k.size == size, lambda: 'a %s key of %s bits has %s bits' % (t, size, k.size), key=j)
  bad = None
  if t == 'AES':
    if len(k.hmac) != 32:
      bad = 'the HMAC key inside has %d bytes' % len(k.hmac)
    elif any(k.key[i:i + 6] in k.hmac for i in range(len(k.key) - 6)):
      bad = 'the HMAC key repeats a part of the AES key'
  elif t == 'RSA_PRIV':
    if not (prime(k.p, rng) and prime(k.q, rng)):
      bad = 'a factor of the modulus is not prime'
    elif k.p == k.q or abs(k.p - k.q).bit_length() < size // 2 - 100:
      bad = 'the prime factors are (almost) equal'
    elif min(k.p.bit_length(), k.q.bit_length()) < size // 2 - 8:
      bad = 'a prime factor has only %d bits' % min(k.p.bit_length(), k.q.bit_length())
    elif k.e % 2 == 0 or k.e < 3:
      bad = 'the public exponent is %d' % k.e
    elif k.d.bit_length() < size // 2 or k.d >= k.n:
      bad = 'the private exponent has %d bits' % k.d.bit_length()
  elif t == 'DSA_PRIV':
    if not (prime(k.p, rng) and prime(k.q, rng)):
      bad = 'p or q is not prime'
    elif k.q.bit_length() != 160:
      bad = 'q has %d bits' % k.q.bit_length()
    elif not 0 < k.x < k.q or k.x.bit_length() < 100:
      bad = 'x is out of range'
    elif not 1 < k.g < k.p:
      bad = 'g is out of range'
  mon.check(bad is None, lambda: 'a generated %s key of %s bits is not valid: %s' % (t, size, bad), key=j)
  mon.event('valid:%s:%d' % (t, size))
  return k


def use(mon, rng, g_or_loc, k, t, purpose, event):
  """Works with the key, and agrees with the reference."""
  reader = lambda: ref.MemReader(ref.KeySet({'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose], t,
                                            [ref.Version(1, 'PRIMARY', k)]))
  make = (lambda cls: cls(reader())) if g_or_loc is None else (lambda cls: cls.Read(g_or_loc))
  data = gen.message(gen.msg(rng, maxlen=20))
  if purpose == 'crypt':
    c = mon.must('Crypter', make, kz.Crypter)
    ct = mon.must('Encrypt with a new key', c.Encrypt, S(data))
    mon.check(mon.call(c.Decrypt, ct).value == S(data), 'a new %s key does not decrypt what it encrypted' % t)
    mon.check(k.decrypt(ref.unb64(ct))[0] == data, 'the reference does not decrypt what a new %s key encrypted' % t)
    back = ref.b64(k.encrypt(data, rng.randbytes(16 if t == 'AES' else 20)))
    o = mon.call(c.Decrypt, back)
    mon.check(o.value == S(data), lambda: 'a new %s key does not decrypt what the reference encrypted: %r' % (t, o))
  else:
    s = mon.must('Signer', make, kz.Signer)
    sig = mon.must('Sign with a new key', s.Sign, S(data))
    mon.check(mon.call(s.Verify, S(data), sig).value is True, 'a new %s key does not verify its signature' % t)
    mon.check(k.verify(data + b'\0', ref.unb64(sig)[5:]), 'the reference does not verify the signature of a new %s key' % t)
  mon.event('used:' + event)
  mon.event('used:reference')


def purpose_of(rng, t):
  return {'AES': 'crypt', 'HMAC_SHA1': 'sign', 'DSA_PRIV': 'sign'}.get(t) or rng.choice(('crypt', 'sign'))


def create(mon, rng, t, purpose, via):
  """An empty key set of the type, made by the tool or by the reference."""
  d = mon.tmpdir()
  if via == 'tool':
    args = ['create', '--location=' + d, '--purpose=' + purpose, '--name=x']
    if t in ('RSA_PRIV', 'DSA_PRIV'):
      args.append('--asymmetric=' + t[:3].lower())
    o = life.tool(mon, args)
    mon.check(o.ok, lambda: 'create: %r' % o)
  else:
    ref.KeySet({'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose], t, []).write(d)
  return d


def generate(mon, rng, t, size, via, d=None, status='PRIMARY'):
  """Returns (json of the newest key, location or None)."""
  if via == 'GenKey':
    o = mon.call(keys.GenKey, keyinfo.GetType(t), *([] if size is None and rng.random() < .5 else [size]))
    return o, (json.loads(str(o.value)) if o.ok else None)
  if via == 'memory':
    g = kz.GenericKeyczar(readers.CreateReader(d))
    o = mon.call(g.AddVersion, life.STATUS[status], *([] if size is None and rng.random() < .5 else [size]))
    if o.ok:
      w = writers.CreateWriter(d)
      mon.must('Write', g.Write, w)
      w.Close()
  elif via == 'functions':
    o = mon.call(keyczart.AddKey, d, life.STATUS[status], None, *([] if size is None else [size]))
  else:
    o = life.tool(mon, ['addkey', '--location=' + d, '--status=' + status.lower()] + (['--size=%d' % size] if size is not None else []))
  if not o.ok:
    return o, None
  with open(os.path.join(d, 'meta')) as f:
    n = max(v['versionNumber'] for v in json.load(f)['versions'])
  with open(os.path.join(d, str(n))) as f:
    return o, json.load(f)


def _gen(mon, case):
  rng = random.Random(case['salt'])
  t, size, via = case['type'], case['size'], case['via']
  purpose = purpose_of(rng, t)
  d = None if via == 'GenKey' else create(mon, rng, t, purpose, via)
  o, j = generate(mon, rng, t, size, via, d)
  mon.check(o.ok, lambda: 'generating a %s key of %s bits through %s: %r' % (t, size or 'default', via, o), traceback=o.tb)
  if size is None:
    mon.check(j.get('size') == DEFAULT[t], lambda: 'the default size of %s through %s is %r, documented: %d' % (t, via, j.get('size'),
                                                                                                            DEFAULT[t]))
    mon.event('default:' + t)
  k = check_key(mon, rng, t, size or DEFAULT[t], j)
  mon.event('via:' + via)
  if via == 'GenKey':
    # the object itself
    obj = o.value
    mon.check(obj.size == k.size, lambda: 'the object records %r bits' % obj.size)
    mon.check(ref.unb64(obj.hash_id) == k.id, 'the identifier does not belong to the key')
    data = S(gen.message(gen.msg(rng, maxlen=20)))
    if purpose == 'crypt':
      ct = mon.must('Encrypt', obj.Encrypt, data)
      mon.check(k.decrypt(B(ct))[0] == B(data), 'the new key object encrypts with something else than it stores')
      mon.check(mon.call(obj.Decrypt, ct).value == data, 'the new key object does not decrypt what it encrypted')
    else:
      sig = mon.must('Sign', obj.Sign, data)
      mon.check(k.verify(B(data), B(sig)), 'the new key object signs with something else than it stores')
      mon.check(bool(mon.call(obj.Verify, data, sig).value), 'the new key object does not verify its signature')
    mon.event('used:object')
    use(mon, rng, None, k, t, purpose, 'stored')
  else:
    use(mon, rng, d, k, t, purpose, 'stored')
  mon.distinct(t, size, via, k.id)


def _mixed(mon, case):
  """Sizes are kept apart within a set."""
  rng = random.Random(case['salt'])
  d = create(mon, rng, 'AES', 'crypt', case['via'])
  want = []
  for i in range(rng.randrange(2, 7)):
    size = rng.choice((128, 192, 256, None))
    o, j = generate(mon, rng, 'AES', size, case['via'], d, rng.choice(('PRIMARY', 'ACTIVE')))
    mon.check(o.ok, lambda: 'addkey: %r' % o)
    check_key(mon, rng, 'AES', size or 128, j)
    want.append(size or 128)
  ks = ref.read_keyset(d)
  mon.check([v.key.size for v in sorted(ks.versions, key=lambda v: v.number)] == want,
            lambda: 'sizes %r, requested %r' % ([v.key.size for v in ks.versions], want))
  mon.event('mixed-sizes')
  mon.distinct('mixed', tuple(want), case['via'])


def _sizes(mon, case):
  rng = random.Random(case['salt'])
  t = case['type']
  ktype = keyinfo.GetType(t)
  valid = SIZES[t]
  sizes = [s for s in range(-3, 4201) if s % 4 == case['part'] and s not in valid]
  sizes += [2 ** 13, 2 ** 16, 2 ** 31, 2 ** 40]
  purpose = purpose_of(rng, t)
  meta = ref.KeySet({'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose], t, [])
  if t.endswith('PUB'):
    meta.purpose = {'DECRYPT_AND_ENCRYPT': 'ENCRYPT', 'SIGN_AND_VERIFY': 'VERIFY'}[meta.purpose]
  for s in sizes:
    o = mon.call(keys.GenKey, ktype, s)
    mon.check(kit.refused(o), lambda: 'GenKey(%s, %d): %r' % (t, s, o))
    mon.event('refused:size')
    mon.distinct('refused', t, s)
    if s % 16 == case['part'] or s in (64, 512, 160, 3072):
      g = kz.GenericKeyczar(ref.MemReader(meta))
      o = mon.call(g.AddVersion, keyinfo.PRIMARY, s)
      mon.check(kit.refused(o), lambda: 'AddVersion to a %s set, size %d: %r' % (t, s, o))
      mon.check(not g.versions and g.primary_version is None, 'a refused AddVersion left a version')
  d = mon.tmpdir()
  meta.write(d)
  before = life.snapshot(d)
  for s in rng.sample([s for s in sizes if s > 0], 8) + [8, 64, 100, 1023, 1025, 3072]:
    if s in valid:
      continue
    o = life.tool(mon, ['addkey', '--location=' + d, '--status=primary', '--size=%d' % s])
    mon.check(kit.refused(o), lambda: 'addkey --size=%d to a %s set: %r' % (s, t, o))
    o = mon.call(keyczart.AddKey, d, keyinfo.ACTIVE, None, s)
    mon.check(kit.refused(o), lambda: 'AddKey of %d bits to a %s set: %r' % (s, t, o))
    mon.check(life.snapshot(d) == before, 'a refused size changed the key set')
  if t.endswith('PUB'):
    for s in valid + (None,):
      for args in ((ktype,), (ktype, s)):
        o = mon.call(keys.GenKey, *args)
        mon.check(kit.refused(o), lambda: 'GenKey%r: %r' % (args, o))
        mon.event('refused:public')


def _public(mon, case):
  """Nothing can be generated into an exported public set."""
  rng = random.Random(case['salt'])
  spec = life.start_spec(rng, case['kind'], rng.choice((1, 2, 3)))
  d = mon.tmpdir()
  ks, _ = life.start(spec, d)
  p = mon.tmpdir()
  ks.public().write(p)
  before = life.snapshot(p)
  size = rng.choice((None, 1024, 2048, 4096))
  status = rng.choice((life.P, life.A, life.I))
  g = mon.must('GenericKeyczar', kz.GenericKeyczar, readers.CreateReader(p))
  n = len(g.versions)
  o = mon.call(g.AddVersion, life.STATUS[status], size)
  mon.check(kit.refused(o), lambda: 'AddVersion to a public set: %r' % o)
  mon.check(len(g.versions) == n, 'a refused AddVersion left a version')
  for how in ('tool', 'functions'):
    o = life.on_disk(mon, p, how, ('add', status), size)
    mon.check(kit.refused(o), lambda: 'addkey to a public set through %s: %r' % (how, o))
    mon.check(life.snapshot(p) == before, 'a refused addkey changed the public set')
  mon.event('refused:public-set')
  mon.distinct('public', case['kind'], size, status)


def _small_rsa(mon, case):
  """Sizes that the type lists but the crypto library may not offer: a right key or a KeyczarError."""
  rng = random.Random(case['salt'])
  size = case['size']
  if case['via'] == 'GenKey':
    o = mon.call(keys.GenKey, keyinfo.RSA_PRIV, size)
    if o.ok:
      check_key(mon, rng, 'RSA_PRIV', size, json.loads(str(o.value)))
  else:
    d = create(mon, rng, 'RSA_PRIV', 'sign', 'memory')
    before = life.snapshot(d)
    o, j = generate(mon, rng, 'RSA_PRIV', size, 'tool', d)
    if o.ok:
      check_key(mon, rng, 'RSA_PRIV', size, j)
    else:
      mon.check(life.snapshot(d) == before, 'a refused size changed the key set')
  mon.check(o.ok or kit.refused(o), lambda: 'a %d-bit RSA key: %r' % (size, o), traceback=o.tb)
  mon.event('small-rsa')
  mon.distinct('small', size, case['via'])


def _bits(mon, case):
  """Every bit of the key material takes both values, all keys differ."""
  rng = random.Random(case['salt'])
  t, size = case['type'], case['size']
  n, ones, zeros, seen = 160, 0, 0, set()
  for i in range(n):
    j = json.loads(str(mon.must('GenKey', keys.GenKey, keyinfo.GetType(t), size)))
    k = check_key(mon, rng, t, size, j)
    raw = b''.join(k.secrets())
    mon.check(len(raw) * 8 == size + (256 if t == 'AES' else 0), 'key material of %d bytes' % len(raw))
    v = ref.b2i(raw)
    ones |= v
    zeros |= ~v & ((1 << len(raw) * 8) - 1)
    mon.check(raw not in seen, 'the same key was generated twice')
    seen.add(raw)
    mon.distinct(t, size, raw)
  full = (1 << len(raw) * 8) - 1
  # a false alarm has a probability of 2 * 512 / 2**160
  mon.check(ones == full and zeros == full, lambda: 'some bits of %s keys of %d bits never change: always 1 %x, always 0 %x' % (
      t, size, full & ~zeros, full & ~ones))
  # no part follows from others: full rank over GF(2), also of the complements (false alarms: 2**-64)
  while len(seen) < 8 * len(raw) + 65:
    seen.add(b''.join(ref.CLASSES[t].parse(json.loads(str(keys.GenKey(keyinfo.GetType(t), size)))).secrets()))
  rank = kit.rank(seen)
  mon.check(rank == 8 * len(raw) + 1, lambda: 'only %d of the %d bits of %s keys of %d bits are independent' % (rank - 1, 8 * len(raw), t, size))
  mon.event('bits')


def _session(mon, case):
  """Session keys are generated keys as well."""
  rng = random.Random(case['salt'])
  outer = gen.key('aes128:3')
  c = kz.Crypter(ref.MemReader(ref.KeySet('DECRYPT_AND_ENCRYPT', 'AES', [ref.Version(1, 'PRIMARY', outer)])))
  data = gen.message(gen.msg(rng, maxlen=60))
  seen = set()
  for i in range(40):
    if case['signed']:
      hm = ref.MemReader(ref.KeySet('SIGN_AND_VERIFY', 'HMAC_SHA1', [ref.Version(1, 'PRIMARY', gen.key('hmac:9'))]))
      s = mon.must('SignedSessionEncrypter', kz.SignedSessionEncrypter, c, kz.Signer(hm))
      j = json.loads(outer.decrypt(ref.unb64(s.session_material))[0])
      k = check_key(mon, rng, 'AES', DEFAULT['AES'], j['key'])
    else:
      s = mon.must('SessionEncrypter', kz.SessionEncrypter, c)
      b = outer.decrypt(ref.unb64(s.session_material))[0]
      parts, rest = [], b[4:]
      mon.check(ref.b2i(b[:4]) == 2, 'session material of %d parts' % ref.b2i(b[:4]))
      while rest:
        n = ref.b2i(rest[:4])
        parts.append(rest[4:4 + n])
        rest = rest[4 + n:]
      mon.check([len(p) for p in parts] == [16, 32], lambda: 'session keys of %r bytes' % [len(p) for p in parts])
      k = ref.AesK(*parts)
      ct = mon.must('Encrypt', s.Encrypt, S(data))
      mon.check(k.decrypt(B(ct) if not ct.isascii() or ct[:1] == '\0' else ref.unb64(ct))[0] == data,
                'the session key of the material does not decrypt the message')
    mon.check(k.key not in seen, 'a session key was used twice')
    seen.add(k.key)
    mon.distinct('session', k.key)
  mon.event('session')


def _entropy(mon, case):
  """Freak randomness (runs of equal bytes) still makes valid keys."""
  rng = random.Random(case['salt'])
  t = case['type']
  count = [0]

  def source(n):
    count[0] += 1
    return bytes([case['byte']]) * n if count[0] < 4 else rng.randbytes(n)
  env.Entropy.use(source)
  size = rng.choice(SIZES[t])
  j = json.loads(str(mon.must('GenKey', keys.GenKey, keyinfo.GetType(t), size)))
  k = ref.CLASSES[t].parse(j)
  mon.check(k.size == size and len(k.secrets()[-1]) == 32, 'a %s key with %d bits' % (t, k.size))
  env.Entropy.use(rng.randbytes)
  use(mon, rng, None, k, t, purpose_of(rng, t), 'stored')
  mon.event('odd-entropy')
  mon.distinct('entropy', t, case['byte'])


def run(mon, case):
  {'gen': _gen, 'sizes': _sizes, 'public': _public, 'small-rsa': _small_rsa, 'bits': _bits, 'session': _session, 'entropy': _entropy,
   'mixed': _mixed}[case['k']](mon, case)
