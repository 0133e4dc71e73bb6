"""C31: the C++ library's ciphertexts, signatures and sessions round trip and follow the shared formats."""
import gzip
import json
import random
import zlib

from kzmon import foreign, gen, ref

ID = 'C31'
LEVEL = 'exploration'
RULE = ('one operation of the C++ library judged against the reference implementation of the formats: distinct by operation, kind and position of the '
        'key, encoding, compression, length and pattern of the message')
REQUIRED = ('aes128', 'aes192', 'aes256', 'rsa1024', 'rsa2048', 'rsa4096', 'hmac', 'dsa', 'ecdsa', 'old-version', 'inactive-version', 'no-primary', 'primary-not-last', 'public-set',
            'unversioned', 'attached', 'session:cpp', 'session:ref', 'gzip', 'zlib', 'too-long', 'fresh', 'raw', 'base64', 'empty-message', 'big', 'zeros', 'earlier-version')
ASSUMPTIONS = ('the reference in kzmon/ref.py and kzmon/ec.py implements the published formats (it is judged against Python by C08)',
               'cpp/openssl_compat.h behaves as OpenSSL 0.9.8 did')
CASE_TIMEOUT = {'quick': 200, 'thorough': 600}


def setup():
  foreign.setup_cpp()


CRYPT = ('aes', 'aes', 'aes', 'rsa1024', 'rsa2048')
SIGN = ('hmac', 'hmac', 'dsa', 'ecdsa', 'rsa1024', 'rsa2048')


def spec(rng, kind, purpose):
  n = rng.choice((1, 2, 3, 5))
  if kind == 'aes':
    keys = gen.aes_keys(rng, n)
  else:
    keys = gen.sign_keys(rng, kind, n if not kind.startswith('rsa') else min(n, 3))
  n = len(keys)
  s = {'keys': keys, 'purpose': purpose, 'status': gen.statuses(rng, n, rng.random() < .93)}
  if rng.random() < .3:
    s['numbers'] = rng.sample(range(1, 60), n)
  return s


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(60 if q else 800):
    yield {'k': 'crypt', 'set': spec(rng, CRYPT[i % len(CRYPT)], 'crypt'), 'salt': rng.randrange(1 << 30), 'n': 30}
  for i in range(60 if q else 800):
    yield {'k': 'sign', 'set': spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 25}
  for i in range(2 if q else 10):
    yield {'k': 'crypt', 'set': {'keys': gen.sign_keys(rng, 'rsa4096', 1), 'purpose': 'crypt'}, 'salt': rng.randrange(1 << 30), 'n': 8}
    yield {'k': 'sign', 'set': {'keys': gen.sign_keys(rng, 'rsa4096', 1), 'purpose': 'sign'}, 'salt': rng.randrange(1 << 30), 'n': 8}
  for i in range(20 if q else 250):
    yield {'k': 'session', 'crypt': spec(rng, 'aes', 'crypt') if i % 10 else {'keys': gen.sign_keys(rng, 'rsa4096', 1), 'purpose': 'crypt'},
           'sign': spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 12}
  for i in range(16 if q else 200):
    yield {'k': 'compress', 'set': spec(rng, 'aes', 'crypt'), 'salt': rng.randrange(1 << 30), 'n': 16}
  # long histories of one process, and the beginnings of several
  for i in range(2 if q else 12):
    yield {'k': 'many', 'salt': rng.randrange(1 << 30), 'n': 2500 if q else 20000}
  # what begins with zeros: RSA signatures and numbers, DSA integers
  for i in range(2 if q else 10):
    yield {'k': 'zeros', 'salt': rng.randrange(1 << 30)}


def many(mon, case):
  """Nothing random ever repeats: IVs, seeds, nonces, session keys; in one process and in several."""
  rng = random.Random(case['salt'])
  seen = {}
  columns = {}

  def fresh(what, x):
    for i, b in enumerate(x if isinstance(x, bytes) else b''):
      columns.setdefault((what, i, len(x)), []).append(b)
    mon.check(x not in seen, lambda: 'C++: %s occurs twice' % what, what=what, value=x, since=len(seen) - seen.get(x, 0))
    seen[x] = len(seen)
    mon.event('fresh')

  cks = gen.keyset({'keys': gen.aes_keys(rng, 2), 'purpose': 'crypt'})
  rks = gen.keyset({'keys': gen.sign_keys(rng, 'rsa1024', 1), 'purpose': 'crypt'})
  dks = gen.keyset({'keys': gen.sign_keys(rng, 'dsa' if foreign.is_java() else rng.choice(('dsa', 'ecdsa')), 1), 'purpose': 'sign'})
  hks = gen.keyset({'keys': gen.sign_keys(rng, 'hmac', 1), 'purpose': 'sign'})
  cloc, rloc, dloc, hloc = [k.write(mon.tmpdir()) for k in (cks, rks, dks, hks)]
  for part in range(4):
    # every part is a process of its own, but for the last one
    if part < 3:
      foreign.drop_lib()
    cpp = foreign.lib(mon)
    c = [cpp.open(k, cloc) for k in ('Crypter', 'Encrypter', 'Crypter')]
    r, d = cpp.open('Encrypter', rloc), cpp.open('Signer', dloc)
    for h in c + [r, d]:
      cpp.do('encoding', h, 0)
    for i in range(case['n'] if part == 2 else 40):
      raw = cpp.do('encrypt', rng.choice(c), b'x' * rng.choice((0, 1, 16)))
      fresh('an IV', raw[5:21])
      if rng.random() < .2:
        # an IV may be made by encrypting a random block
        fresh('the block behind an IV', ref.cbc_dec(cks.primary.key.key, bytes(16), raw[5:21]))
      if i < 40:
        fresh('an OAEP seed', rks.primary.key.decrypt(cpp.do('encrypt', r, b'data'))[1])
        sig = cpp.do('sign', d, b'data')
        k = dks.primary.key
        fresh('a nonce', k.recover_k(b'data\0', *ref.parse_dsa_sig(sig[5:])))
      if i < 20:
        material = cpp.do('blob', cpp.newsession(cloc, hloc, rng.choice((128, 192, 256))))
        j = json.loads(cks.primary.key.decrypt(ref.unb64(material.decode('ascii')))[0])
        fresh('the nonce of a session', ref.unb64(j['nonce']))
        fresh('the key of a session', ref.unb64(j['key']['aesKeyString']))
        fresh('the HMAC key of a session', ref.unb64(j['key']['hmacKey']['hmacKeyString']))
        mon.event('sessions')
    mon.distinct('many', part, case['n'])
    cpp.done()
  for (what, i, n), col in sorted(columns.items()):
    if len(col) > 20:
      # of N random bytes, this few values occur with a probability below 2^-50
      mon.check(len(set(col)) > min(len(col) // 4, 120), lambda: 'C++: byte %d of %s takes only %d values' % (i, what, len(set(col))))


def kind_of(k):
  return 'aes%d' % k.size if k.kind == 'aes' else 'rsa%d' % k.size if k.kind == 'rsa' else k.kind


def note(mon, ks):
  for v in ks.versions:
    mon.event(kind_of(v.key))
  if ks.primary is None:
    mon.event('no-primary')
  elif ks.primary is not ks.versions[-1]:
    mon.event('primary-not-last')


class Wire(object):
  """Encoding of one handle."""

  def __init__(self, mon, cpp, h, rng):
    self.mon, self.cpp, self.h, self.rng, self.on = mon, cpp, h, rng, True

  def toss(self):
    on = self.rng.random() < .5
    if on != self.on:
      self.cpp.do('encoding', self.h, int(on))
      self.on = on
    self.mon.event('base64' if on else 'raw')

  def dec(self, out):
    if not self.on:
      return out
    try:
      return ref.unb64(out.decode('ascii'))
    except ValueError as e:
      self.mon.violate('C++: the output is not web safe Base64: %s' % e, out=out)

  def enc(self, raw):
    return ref.b64(raw).encode() if self.on else raw


def a_message(rng, k):
  if k is not None and k.kind == 'rsa' and rng.random() < .8:
    return gen.message(gen.msg(rng, maxlen=k.k - 42))
  return gen.message(gen.msg(rng, big=rng.random() < .3))


def crypt(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  ks = gen.keyset(case['set'])
  note(mon, ks)
  loc = ks.write(mon.tmpdir())
  c = Wire(mon, cpp, cpp.open('Crypter', loc), rng)
  e = Wire(mon, cpp, cpp.open('Encrypter', loc), rng)
  mon.check(c.h is not None and e.h is not None, 'C++: a key set cannot be opened', set=case['set'])
  ends = [c, e]
  if ks.type == 'RSA_PRIV':
    ploc = ks.public().write(mon.tmpdir())
    p = Wire(mon, cpp, cpp.open('Encrypter', ploc), rng)
    mon.check(p.h is not None, 'C++: a public key set cannot be opened')
    mon.check(cpp.open('Crypter', ploc) is None, 'C++: a public key set opens for decrypting')
    ends.append(p)
    mon.event('public-set')
  mon.check(cpp.open('Signer', loc) is None and cpp.open('Verifier', loc) is None and cpp.open('UnversionedSigner', loc) is None
            and cpp.open('UnversionedVerifier', loc) is None, 'C++: a key set for encryption opens for signatures')
  prim = ks.primary.key if ks.primary else None
  seen = set()
  for i in range(case['n']):
    msg = a_message(rng, prim)
    if not msg:
      mon.event('empty-message')
    if len(msg) > 60000:
      mon.event('big')
    w = rng.choice(ends)
    w.toss()
    op = rng.choice(('encrypt', 'encrypt', 'encrypt1'))
    out = cpp.do(op, w.h, msg)
    if op == 'encrypt1' and out == b'':
      out = None
    if prim is None:
      mon.check(out is None, 'C++: encrypts without primary key')
    elif prim.kind == 'rsa' and len(msg) > prim.k - 42:
      mon.check(out is None, 'C++: RSA encrypts a message that is too long', length=len(msg))
      mon.event('too-long')
    else:
      mon.check(out is not None, lambda: 'C++: encryption fails', length=len(msg))
      raw = w.dec(out)
      try:
        got, rnd = prim.decrypt(raw)
      except ref.FormatError as x:
        mon.violate('C++: the ciphertext does not follow the format: %s' % x, ciphertext=raw, message_=msg)
      mon.check(got == msg, 'C++: the ciphertext decrypts to something else', ciphertext=raw, message_=msg, got=got)
      if prim.kind == 'rsa':
        mon.check(len(raw) == 5 + prim.k, 'C++: length of an RSA ciphertext', length=len(raw))
      mon.check(rnd not in seen and len(set(rnd)) > 4, 'C++: an IV or seed occurs twice', iv=rnd)
      seen.add(rnd)
      mon.event('fresh')
      c.on == w.on or c.toss()
      got = cpp.do('decrypt', c.h, c.enc(raw))
      mon.check(got == msg, 'C++: a ciphertext of its own does not decrypt', ciphertext=raw, message_=msg, got=got)
      mon.distinct('encrypt', kind_of(prim), w.on, len(msg), msg[:1] == b'\0')
    # what others encrypted, with any version
    v = rng.choice(ks.versions)
    k = v.key
    msg = a_message(rng, k)
    if k.kind == 'rsa':
      msg = msg[:k.k - 42]
      raw = k.encrypt(msg, rng.randbytes(20))
    else:
      raw = k.encrypt(msg, rng.choice((rng.randbytes(16), b'\0' * 16, b'\xff' * 16)))
    c.toss()
    op = rng.choice(('decrypt', 'decrypt', 'decrypt1'))
    got = cpp.do(op, c.h, c.enc(raw))
    mon.check(got == msg, 'C++: a genuine ciphertext does not decrypt', status=v.status, ciphertext=raw, message_=msg, got=got)
    if v.status != 'PRIMARY':
      mon.event('old-version' if v.status == 'ACTIVE' else 'inactive-version')
    mon.distinct('decrypt', kind_of(k), v.status, c.on, len(msg))
  cpp.done()


def genuine(rng, k, msg):
  """A signature by the reference."""
  if k.kind == 'dsa':
    return k.sign(msg, rng.randrange(1, k.q))
  if k.kind == 'ecdsa':
    return k.sign(msg, rng.randrange(1, k.c[5]))
  return k.sign(msg)


def holds(mon, k, signed, sig, what):
  try:
    ok = k.verify(signed, sig)
  except ref.FormatError as x:
    mon.violate('C++: %s does not follow the format: %s' % (what, x), signature=sig)
  mon.check(ok, 'C++: %s is wrong' % what, signature=sig, signed=signed)
  if k.kind == 'rsa':
    mon.check(len(sig) == k.k, 'C++: length of an RSA signature', length=len(sig))


def sign(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  ks = gen.keyset(case['set'])
  note(mon, ks)
  loc = ks.write(mon.tmpdir())
  s = Wire(mon, cpp, cpp.open('Signer', loc), rng)
  us = Wire(mon, cpp, cpp.open('UnversionedSigner', loc), rng)
  vs = [s, Wire(mon, cpp, cpp.open('Verifier', loc), rng)]
  uvs = [us, Wire(mon, cpp, cpp.open('UnversionedVerifier', loc), rng)]
  if ks.type.endswith('PRIV'):
    ploc = ks.public().write(mon.tmpdir())
    vs.append(Wire(mon, cpp, cpp.open('Verifier', ploc), rng))
    uvs.append(Wire(mon, cpp, cpp.open('UnversionedVerifier', ploc), rng))
    mon.check(cpp.open('Signer', ploc) is None and cpp.open('UnversionedSigner', ploc) is None, 'C++: a public key set opens for signing')
    mon.event('public-set')
  mon.check(all(w.h is not None for w in vs + uvs), 'C++: a key set cannot be opened', set=case['set'])
  mon.check(cpp.open('Crypter', loc) is None and cpp.open('Encrypter', loc) is None, 'C++: a key set for signatures opens for encryption')
  prim = ks.primary.key if ks.primary else None
  nonces = set()
  for i in range(case['n']):
    msg = gen.message(gen.msg(rng, big=rng.random() < .2))
    hid = gen.message(gen.msg(rng, maxlen=rng.choice((0, 20, 300)))) if rng.random() < .85 else rng.randbytes(rng.choice((1000, 4093, 5000, 66000)))
    if not msg:
      mon.event('empty-message')
    if len(msg) > 60000:
      mon.event('big')
    # its own
    for op, w, signed in (('sign', s, msg + b'\0'), ('unversioned', us, msg), ('attach', s, ref.attached_message(msg, hid))):
      w.toss()
      one = rng.random() < .3
      if op == 'attach':
        out = cpp.do('attach1' if one else 'attach', w.h, msg, hid)
      else:
        out = cpp.do('sign1' if one else 'sign', w.h, msg)
      if one and out == b'':
        out = None
      if prim is None:
        mon.check(out is None, 'C++: signs without primary key')
        continue
      mon.check(out is not None, 'C++: signing fails', op=op, length=len(msg))
      raw = w.dec(out)
      what = {'sign': 'a signature', 'unversioned': 'an unversioned signature', 'attach': 'an attached signature'}[op]
      if op == 'sign':
        mon.check(raw[:5] == b'\0' + prim.id, 'C++: the header of a signature is wrong', raw=raw)
        sig = raw[5:]
      elif op == 'attach':
        mon.check(raw[:5] == b'\0' + prim.id, 'C++: the header of an attached signature is wrong', raw=raw)
        mon.check(raw[5:9 + len(msg)] == ref.u32(len(msg)) + msg, 'C++: the data of an attached signature is wrong', raw=raw)
        sig = raw[9 + len(msg):]
        mon.event('attached')
      else:
        sig = raw
        mon.event('unversioned')
      holds(mon, prim, signed, sig, what)
      if prim.kind in ('dsa', 'ecdsa'):
        k = prim.recover_k(signed, *ref.parse_dsa_sig(sig))
        mon.check(k not in nonces, 'C++: a nonce occurs twice')
        nonces.add(k)
        mon.event('fresh')
      check_accepts(mon, cpp, rng, op, vs if op != 'unversioned' else uvs, raw, msg, hid, 'its own')
      mon.distinct(op, kind_of(prim), w.on, len(msg), len(hid) if op == 'attach' else 0)
    # what others signed, with any version
    v = rng.choice(ks.versions)
    k = v.key
    for op, signed in (('sign', msg + b'\0'), ('unversioned', msg), ('attach', ref.attached_message(msg, hid))):
      sig = genuine(rng, k, signed)
      raw = sig if op == 'unversioned' else b'\0' + k.id + (ref.u32(len(msg)) + msg if op == 'attach' else b'') + sig
      check_accepts(mon, cpp, rng, op, vs if op != 'unversioned' else uvs, raw, msg, hid, 'a genuine')
    if v.status != 'PRIMARY':
      mon.event('old-version' if v.status == 'ACTIVE' else 'inactive-version')
    mon.distinct('verify', kind_of(k), v.status, len(msg), len(hid))
  cpp.done()


def check_accepts(mon, cpp, rng, op, ws, raw, msg, hid, whose):
  w = rng.choice(ws)
  w.toss()
  if op == 'attach':
    got = cpp.do('attached', w.h, w.enc(raw), hid)
    mon.check(got == msg, 'C++: %s attached signature is refused or gives other data' % whose, raw=raw, message_=msg, hidden=hid, got=got)
    got = cpp.do('peek', w.h, w.enc(raw))
    mon.check(got == msg, 'C++: the data of an attached signature is read wrongly', raw=raw, message_=msg, got=got)
  else:
    mon.check(cpp.do('verify', w.h, msg, w.enc(raw)) is True, 'C++: %s signature is refused' % whose, op=op, raw=raw, message_=msg)


def session(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  cks, sks = gen.keyset(case['crypt']), gen.keyset(case['sign'])
  for ks in (cks, sks):
    if ks.primary is None:
      ks.versions[0].status = 'PRIMARY'
  note(mon, cks)
  note(mon, sks)
  cloc, sloc = cks.write(mon.tmpdir()), sks.write(mon.tmpdir())
  ploc = cks.public().write(mon.tmpdir()) if cks.type.endswith('PRIV') else cloc
  vloc = sks.public().write(mon.tmpdir()) if sks.type.endswith('PRIV') else sloc
  seen = set()
  for r in range(3):
    bits = rng.choice((128, 192, 256))
    e = cpp.newsession(ploc, sloc, bits)
    mon.check(e is not None, 'C++: no session')
    blob = cpp.do('blob', e)
    mon.check(blob is not None, 'C++: no session material')
    material = ref.unb64(blob.decode('ascii'))
    try:
      text, _ = cks.primary.key.decrypt(material)
    except ref.FormatError as x:
      mon.violate('C++: session material does not follow the format: %s' % x, material=material)
    j = json.loads(text)
    mon.check(set(j) == set(('key', 'nonce')), 'C++: fields of session material', fields=sorted(j))
    key, nonce = ref.AesK.parse(j['key']), ref.unb64(j['nonce'])
    mon.check(key.size == bits and len(nonce) == 16, 'C++: sizes of session material', size=key.size, nonce=nonce)
    for x in (key.key, key.hmac, nonce):
      mon.check(x not in seen, 'C++: session secrets occur twice')
      seen.add(x)
    mon.event('session:cpp')
    d = cpp.opensession(cloc, vloc, blob)
    mon.check(d is not None, 'C++: session material of its own is refused')
    # and a session of another implementation
    k2, n2 = ref.AesK(rng.randbytes(bits // 8), rng.randbytes(32)), rng.randbytes(16)
    text = json.dumps({'key': k2.json(), 'nonce': ref.b64(n2)}).encode()
    v = rng.choice(cks.versions)
    blob2 = ref.b64(v.key.encrypt(text, rng.randbytes(16 if v.key.kind == 'aes' else 20)))
    d2 = cpp.opensession(cloc, vloc, blob2)
    mon.check(d2 is not None, 'C++: genuine session material is refused', version=v.status)
    mon.event('session:ref')
    enc = rng.random() < .5
    # encoding of decrypting sessions is the verifier's: Base64
    for i in range(case['n']):
      msg = gen.message(gen.msg(rng))
      out = cpp.do('sessencrypt', e, msg)
      mon.check(out is not None, 'C++: encryption in a session fails')
      raw = ref.unb64(out.decode('ascii'))
      try:
        head, data, sig = ref.attached_parts(raw)
        mon.check(head == b'\0' + sks.primary.key.id, 'C++: header of a session message')
        holds(mon, sks.primary.key, ref.attached_message(data, nonce), sig, 'the signature of a session message')
        got, iv = key.decrypt(data)
      except ref.FormatError as x:
        mon.violate('C++: a session message does not follow the format: %s' % x, raw=raw)
      mon.check(got == msg, 'C++: a session message decrypts to something else', got=got, message_=msg)
      mon.check(iv not in seen, 'C++: an IV occurs twice in a session')
      seen.add(iv)
      mon.event('fresh')
      mon.check(cpp.do('sessdecrypt', d, out) == msg, 'C++: a session message of its own does not decrypt', message_=msg)
      msg = gen.message(gen.msg(rng))
      data = k2.encrypt(msg, rng.randbytes(16))
      sk = rng.choice(sks.versions).key
      raw = b'\0' + sk.id + ref.u32(len(data)) + data + genuine(rng, sk, ref.attached_message(data, n2))
      mon.check(cpp.do('sessdecrypt', d2, ref.b64(raw)) == msg, 'C++: a genuine session message does not decrypt', message_=msg)
      mon.check(cpp.do('sessdecrypt', d, ref.b64(raw)) is None, 'C++: a message of another session decrypts')
      mon.distinct('session', kind_of(cks.primary.key), kind_of(sks.primary.key), bits, len(msg), enc)
    if foreign.is_java():
      # a new session on the same object has nothing in common with the last one
      for _ in range(2):
        blob = cpp.do('renew', e)
        j = json.loads(cks.primary.key.decrypt(ref.unb64(blob.decode('ascii')))[0])
        key, nonce = ref.AesK.parse(j['key']), ref.unb64(j['nonce'])
        for x in (key.key, key.hmac, nonce):
          mon.check(x not in seen, 'C++: session secrets occur twice')
          seen.add(x)
        out = cpp.do('sessencrypt', e, msg)
        mon.check(cpp.do('sessdecrypt', d, out) is None, 'C++: a message of a later session decrypts in an earlier one')
        d = cpp.opensession(cloc, vloc, blob)
        mon.check(cpp.do('sessdecrypt', d, out) == msg, 'C++: a message of a renewed session does not decrypt')
        mon.event('session:renewed')
  cpp.done()


def compress(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  ks = gen.keyset(case['set'])
  if ks.primary is None:
    ks.versions[0].status = 'PRIMARY'
  k = ks.primary.key
  c = Wire(mon, cpp, cpp.open('Crypter', ks.write(mon.tmpdir())), rng)
  for i in range(case['n']):
    mode = rng.choice((1, 2))
    mon.event('gzip' if mode == 1 else 'zlib')
    cpp.do('compression', c.h, mode)
    c.toss()
    x = rng.random()
    if x < .5:
      msg = gen.message(gen.msg(rng, big=True))
    elif x < .8:
      msg = bytes(rng.choice((1000, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 300001, 1 << 20)))
    else:
      msg = rng.randbytes(rng.choice((1000, 4096, 65536, 65537, 131072, 400000, 1200003, 3000001)))
    if len(msg) > 60000:
      mon.event('big')
    out = cpp.do('encrypt', c.h, msg)
    mon.check(out is not None, 'C++: compressed encryption fails', length=len(msg))
    got, _ = k.decrypt(c.dec(out)) if len(msg) < 20000 else (None, None)
    if got is not None:
      try:
        plain = gzip.decompress(got) if mode == 1 else zlib.decompress(got)
      except Exception as e:
        mon.violate('C++: compressed data cannot be decompressed: %r' % e)
      mon.check(plain == msg, 'C++: compressed data decompresses to something else')
    mon.check(cpp.do('decrypt', c.h, out) == msg, 'C++: compressed data does not decrypt', length=len(msg), mode=mode)
    level = rng.choice((0, 1, 6, 9))
    short = msg[:5000]
    raw = k.encrypt(gzip.compress(short, level) if mode == 1 else zlib.compress(short, level), rng.randbytes(16))
    mon.check(cpp.do('decrypt', c.h, c.enc(raw)) == short, 'C++: data compressed elsewhere does not decrypt', length=len(short), mode=mode, level=level)
    mon.distinct('compress', mode, len(msg), c.on)
  cpp.do('compression', c.h, 0)
  msg = b'plain again'
  mon.check(k.decrypt(c.dec(cpp.do('encrypt', c.h, msg)))[0] == msg, 'C++: compression cannot be switched off')
  cpp.done()


def zeros(mon, case):
  """Values that begin with zero bytes."""
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  handles = {}
  for z in gen.rsa_zero():
    if not z['key'].startswith(('rsa1024', 'rsa2048')):
      continue
    ks = gen.keyset({'keys': [z['key']], 'purpose': 'sign'})
    if z['key'] not in handles:
      handles[z['key']] = (cpp.open('Signer', ks.write(mon.tmpdir())), cpp.open('UnversionedSigner', ks.write(mon.tmpdir())))
      for h in handles[z['key']]:
        cpp.do('encoding', h, 0)
    h, u = handles[z['key']]
    msg = z['msg'].encode()
    k = ks.versions[0].key
    if z['versioned']:
      raw = cpp.do('sign', h, msg)
      sig, signed = raw[5:], msg + b'\0'
    else:
      raw = cpp.do('sign', u, msg)
      sig, signed = raw, msg
    holds(mon, k, signed, sig, 'a signature that begins with zeros')
    mon.check(cpp.do('verify', h if z['versioned'] else u, msg, raw) is True, 'C++: a signature that begins with zeros is refused')
    mon.event('zeros')
    mon.distinct('zeros', z['key'], z['msg'])
  # AES and HMAC keys that begin with zeros
  for i in range(10):
    n = rng.choice((1, 2, 3, 16))
    k = ref.AesK(b'\0' * n + rng.randbytes(16 - n), b'\0' * rng.choice((0, 1, 2)) + rng.randbytes(32))
    k = ref.AesK(k.key, k.hmac[:32])
    ks = ref.KeySet('DECRYPT_AND_ENCRYPT', 'AES', [ref.Version(1, 'PRIMARY', k)])
    h = cpp.open('Crypter', ks.write(mon.tmpdir()))
    mon.check(h is not None, 'C++: a key that begins with zeros cannot be read')
    cpp.do('encoding', h, 0)
    raw = cpp.do('encrypt', h, b'data')
    mon.check(raw is not None and k.decrypt(raw)[0] == b'data', 'C++: a ciphertext of a key that begins with zeros is wrong')
    mon.check(cpp.do('decrypt', h, k.encrypt(b'data', rng.randbytes(16))) == b'data', 'C++: decrypting with a key that begins with zeros fails')
    if not foreign.is_java():
      # earlier versions left the zeros out of the identifier; what they encrypted is still read, whichever key is primary
      other = ref.AesK(rng.randbytes(16), rng.randbytes(32))
      old = rng.choice(('PRIMARY', 'ACTIVE', 'INACTIVE'))
      at = rng.choice((1, 2))
      vs = sorted([ref.Version(at, old, k), ref.Version(3 - at, 'ACTIVE' if old == 'PRIMARY' else 'PRIMARY', other)], key=lambda v: v.number)
      h = cpp.open('Crypter', ref.KeySet('DECRYPT_AND_ENCRYPT', 'AES', vs).write(mon.tmpdir()))
      cpp.do('encoding', h, 0)
      trimmed = k.key.lstrip(b'\0')
      msg = rng.randbytes(rng.choice((0, 4, 15, 16, 40)))
      pad, iv = 16 - len(msg) % 16, rng.randbytes(16)
      ct = b'\0' + ref.sha1(ref.u32(len(trimmed)) + trimmed + k.hmac)[:4] + iv + ref.cbc_enc(k.key, iv, msg + bytes([pad]) * pad)
      ct += ref.hmac_sha1(k.hmac, ct)
      mon.check(cpp.do('decrypt', h, ct) == msg, 'C++: what an earlier version encrypted (identifier without leading zeros) is not decrypted', key=k.key[:4], status=old)
      i = rng.randrange(1, len(ct))
      mon.check(cpp.do('decrypt', h, ct[:i] + bytes([ct[i] ^ 1 << rng.randrange(8)]) + ct[i + 1:]) is None, 'C++: an altered message of an earlier version is decrypted')
      raw = cpp.do('encrypt', h, msg)
      mon.check(raw is not None and (k if old == 'PRIMARY' else other).decrypt(raw)[0] == msg, 'C++: a new message has an identifier of earlier versions')
      mon.event('earlier-version')
    hk = ref.HmacK(b'\0' * rng.choice((1, 2, 3)) + rng.randbytes(32))
    hk = ref.HmacK(hk.key[:32])
    ks = ref.KeySet('SIGN_AND_VERIFY', 'HMAC_SHA1', [ref.Version(1, 'PRIMARY', hk)])
    h = cpp.open('Signer', ks.write(mon.tmpdir()))
    cpp.do('encoding', h, 0)
    mon.check(cpp.do('sign', h, b'data') == b'\0' + hk.id + hk.sign(b'data\0'), 'C++: an HMAC with a key that begins with zeros is wrong')
    mon.distinct('zero-key', k.key[:5], hk.key[:5])
  cpp.done()


def run(mon, case):
  {'crypt': crypt, 'sign': sign, 'session': session, 'compress': compress, 'zeros': zeros, 'many': many}[case['k']](mon, case)
