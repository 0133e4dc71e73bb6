"""C34: the Java library's ciphertexts, signatures and sessions round trip and follow the shared formats."""
import json
import random
import time

from kzmon import foreign, gen, ref
from checks import c31

ID = 'C34'
LEVEL = 'exploration'
RULE = ('one operation of the Java library judged against the reference implementation of the formats: distinct by operation, kind and position of the '
        'key, encoding, length and pattern of the message')
REQUIRED = ('aes128', 'aes192', 'aes256', 'rsa1024', 'rsa2048', 'rsa4096', 'hmac', 'dsa', 'old-version', 'inactive-version', 'no-primary', 'primary-not-last', 'public-set',
            'unversioned', 'attached', 'session:cpp', 'session:ref', 'too-long', 'fresh', 'raw', 'base64', 'empty-message', 'big', 'zeros', 'text', 'timeout', 'expired',
            'session:plain', 'session:renewed', 'near-expired', 'near-live')
ASSUMPTIONS = ('the reference in kzmon/ref.py implements the published formats (it is judged against Python by C08)',
               'java/org/json behaves as the library of json.org, which is not in the sandbox',
               'identifiers of AES keys are those of Java, which take every key for one of 128 bits (issue 105, in the runner\'s list of ignored tests)')
CASE_TIMEOUT = {'quick': 300, 'thorough': 600}
SIGN = ('hmac', 'hmac', 'dsa', 'rsa1024', 'rsa2048')


def setup():
  foreign.setup_java()


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(60 if q else 800):
    yield {'k': 'crypt', 'set': c31.spec(rng, c31.CRYPT[i % len(c31.CRYPT)], 'crypt'), 'salt': rng.randrange(1 << 30), 'n': 30}
  for i in range(60 if q else 800):
    yield {'k': 'sign', 'set': c31.spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 25}
  for i in range(2 if q else 10):
    yield {'k': 'crypt', 'set': {'keys': gen.sign_keys(rng, 'rsa4096', 1), 'purpose': 'crypt'}, 'salt': rng.randrange(1 << 30), 'n': 8}
    yield {'k': 'sign', 'set': {'keys': gen.sign_keys(rng, 'rsa4096', 1), 'purpose': 'sign'}, 'salt': rng.randrange(1 << 30), 'n': 8}
  for i in range(20 if q else 250):
    yield {'k': 'session', 'crypt': c31.spec(rng, 'aes', 'crypt') if i % 10 else {'keys': gen.sign_keys(rng, 'rsa4096', 1), 'purpose': 'crypt'},
           'sign': c31.spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 12}
  for i in range(2 if q else 12):
    yield {'k': 'many', 'salt': rng.randrange(1 << 30), 'n': 2500 if q else 20000}
  for i in range(24 if q else 300):
    yield {'k': 'text', 'salt': rng.randrange(1 << 30), 'n': 15}
    yield {'k': 'timeout', 'set': c31.spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 15}
  for i in range(10 if q else 100):
    yield {'k': 'plain-session', 'set': c31.spec(rng, c31.CRYPT[i % len(c31.CRYPT)], 'crypt'), 'salt': rng.randrange(1 << 30), 'n': 5}
  for i in range(2 if q else 10):
    yield {'k': 'zeros', 'salt': rng.randrange(1 << 30)}


def text(mon, case):
  """The interfaces for character strings, and encrypted key sets."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  cks = gen.keyset(c31.spec(rng, 'aes', 'crypt'))
  if cks.primary is None:
    cks.versions[0].status = 'PRIMARY'
  cloc = cks.write(mon.tmpdir())
  for kind in (rng.choice(('aes', 'rsa2048')), rng.choice(SIGN)):
    crypt = kind == 'aes' or (kind == 'rsa2048' and rng.random() < .5)
    ks = gen.keyset(c31.spec(rng, kind, 'crypt' if crypt else 'sign'))
    if ks.primary is None:
      ks.versions[0].status = 'PRIMARY'
    storage = rng.choice(('plain', 'crypted'))
    if storage == 'crypted':
      ks.encrypted = True
      loc = ks.write(mon.tmpdir(), lambda t: ref.b64(rng.choice(cks.versions).key.encrypt(t.encode(), rng.randbytes(16))))
      mon.event('encrypted-set')
    else:
      loc = ks.write(mon.tmpdir())
    h = java.open('Crypter' if crypt else 'Signer', loc, storage, cloc)
    u = None if crypt else java.open('UnversionedSigner', loc, storage, cloc)
    mon.check(h is not None, 'Java: a key set cannot be opened', storage=storage)
    k = ks.primary.key
    for i in range(case['n']):
      t = ''.join(rng.choice((rng.choice('abc xyz{}"\\'), chr(rng.randrange(1, 256)), chr(rng.randrange(0x20, 0x3000)), chr(rng.randrange(0x10000, 0x10ffff))))
                  for _ in range(rng.choice((0, 1, 5, 30)))).encode()
      mon.event('text')
      if crypt:
        out = java.do('encryptS', h, t)
        mon.check(out is not None, 'Java: encrypting a text fails')
        try:
          got = k.decrypt(ref.unb64(out.decode('ascii')))[0]
        except (ref.FormatError, ValueError) as e:
          mon.violate('Java: the ciphertext of a text does not follow the format: %s' % e, out=out)
        mon.check(got == t, 'Java: the ciphertext of a text decrypts to something else', got=got, text=t)
        mon.check(java.do('decryptS', h, out) == t, 'Java: a text does not come back', text=t, got=java.do('decryptS', h, out))
        raw = rng.choice(ks.versions).key.encrypt(t, rng.randbytes(16 if kind == 'aes' else 20))
        pad = rng.choice(('', '', '=' * (-len(ref.b64(raw)) % 4)))
        mon.check(java.do('decryptS', h, ref.b64(raw) + pad) == t, 'Java: a genuine text does not decrypt', text=t)
      else:
        for x, signed in ((h, t + b'\0'), (u, t)):
          out = java.do('signS', x, t)
          mon.check(out is not None, 'Java: signing a text fails')
          raw = ref.unb64(out.decode('ascii'))
          c31.holds(foreign.Renamed(mon, 'Java'), k, signed, raw[5:] if x is h else raw, 'the signature of a text')
          mon.check(java.do('verifyS', x, t, out), 'Java: the signature of a text is refused')
          mon.check(not java.do('verifyS', x, t + b'x', out), 'Java: the signature of a text holds for another')
      mon.distinct('text', kind, crypt, storage, len(t))
  java.done()


def timeout(mon, case):
  """Signatures that expire."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  ks = gen.keyset(case['set'])
  if ks.primary is None:
    ks.versions[0].status = 'PRIMARY'
  loc = ks.write(mon.tmpdir())
  s = c31.Wire(mon, java, java.open('TimeoutSigner', loc), rng)
  vs = [s, c31.Wire(mon, java, java.open('TimeoutVerifier', loc), rng)]
  if ks.type.endswith('PRIV'):
    vs.append(c31.Wire(mon, java, java.open('TimeoutVerifier', ks.public().write(mon.tmpdir())), rng))
  plain = java.open('Verifier', loc)
  java.do('encoding', plain, 0)
  for i in range(case['n']):
    msg = gen.message(gen.msg(rng))
    now = int(time.time() * 1000)
    when = rng.choice((now + 3600000, now + 60000 * rng.randrange(10, 10 ** 6), (1 << 63) - 1, now - 1000, now - 3600000, 1, 255, 1 << 40))
    live = when > now
    mon.event('timeout' if live else 'expired')
    s.toss()
    out = java.do('tsign', s.h, msg, when)
    mon.check(out is not None, 'Java: signing with an expiration fails')
    raw = s.dec(out)
    k = ks.primary.key
    ts = when.to_bytes(8, 'big')
    mon.check(raw[:13] == b'\0' + k.id + ts, 'Java: the header of a timeout signature is wrong', raw=raw)
    c31.holds(foreign.Renamed(mon, 'Java'), k, ts + msg + b'\0', raw[13:], 'a timeout signature')
    w = rng.choice(vs)
    w.toss()
    mon.check(bool(java.do('verify', w.h, msg, w.enc(raw))) == live, 'Java: a timeout signature that %s' % ('has not expired is refused' if live else 'expired is accepted'),
              when=when, now=now)
    k = rng.choice(ks.versions).key
    raw = b'\0' + k.id + ts + c31.genuine(rng, k, ts + msg + b'\0')
    mon.check(bool(java.do('verify', w.h, msg, w.enc(raw))) == live, 'Java: a genuine timeout signature is judged wrongly', when=when, now=now)
    # close to the expiration, by the clock of the verifier
    for d in (rng.randrange(-40, 0), rng.randrange(-900, -40), rng.randrange(0, 4), rng.randrange(1, 6)):
      near = int(time.time() * 1000) + d
      b8 = near.to_bytes(8, 'big')
      sig = b'\0' + k.id + b8 + c31.genuine(rng, k, b8 + msg + b'\0')
      for _ in range(3):
        t0, t1, r = map(int, java.do('vtimed', w.h, msg, w.enc(sig)).split())
        if t1 < t0:
          continue
        mon.check(t1 > near or r, 'Java: a timeout signature is refused before it expires', near=near, t0=t0, t1=t1)
        mon.check(t0 <= near or not r, 'Java: a timeout signature is accepted just after it expired', near=near, t0=t0, t1=t1)
        mon.event('near-live' if t1 <= near else 'near-expired' if t0 > near else 'near-unsure')
    # the expiration is covered by the signature
    for t2 in (now + 3600000 * 48 + i, (1 << 63) - 1 - i, when ^ 1, when ^ (1 << rng.randrange(63))):
      if t2 != when:
        x = raw[:5] + t2.to_bytes(8, 'big') + raw[13:]
        mon.check(not java.do('verify', w.h, msg, w.enc(x)), 'Java: the expiration of a signature can be changed', when=when, other=t2)
    for m2 in (msg + b'\0', msg[1:] if msg else b'x', ts + msg):
      mon.check(not java.do('verify', w.h, m2, w.enc(raw)), 'Java: a timeout signature holds for another message')
    mon.check(not java.do('verify', plain, msg, raw), 'Java: a timeout signature is a plain one')
    sig = b'\0' + k.id + c31.genuine(rng, k, msg + b'\0')
    mon.check(not java.do('verify', w.h, msg, w.enc(sig)), 'Java: a plain signature is a timeout signature')
    mon.distinct('timeout', k.kind, live, w.on, len(msg))
  java.done()


def plain_session(mon, case):
  """Sessions without signatures."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  ks = gen.keyset(case['set'])
  if ks.primary is None:
    ks.versions[0].status = 'PRIMARY'
  loc = ks.write(mon.tmpdir())
  ploc = ks.public().write(mon.tmpdir()) if ks.type.endswith('PRIV') else loc
  seen = set()

  def parts(text):
    n = int.from_bytes(text[4:8], 'big')
    key, rest = text[8:8 + n], text[8 + n:]
    mon.check(text[:4] == ref.u32(2) and ref.u32(len(rest) - 4) == rest[:4], 'Java: session material does not follow the format')
    return ref.AesK(key, rest[4:])

  for i in range(case['n']):
    new, old = rng.choice((('newplain', 'openplain'), ('newold', 'openold')))
    r = java.raw(new, ploc)
    mon.check(r[0] == 'ok', 'Java: no session')
    e = int(r[1])
    material = java.do('blob', e)
    key = parts(ks.primary.key.decrypt(material)[0])
    for x in (key.key, key.hmac):
      mon.check(x not in seen, 'Java: session keys occur twice')
      seen.add(x)
    mon.check(len(key.key) == 16 and len(key.hmac) == 32, 'Java: sizes of session keys')
    k2 = ref.AesK(rng.randbytes(rng.choice((16, 24, 32))), rng.randbytes(32))
    v = rng.choice(ks.versions).key
    m2 = v.encrypt(ref.u32(2) + ref.u32(len(k2.key)) + k2.key + ref.u32(len(k2.hmac)) + k2.hmac, rng.randbytes(16 if v.kind == 'aes' else 20))
    d, d2 = (java.raw(old, loc, m) for m in (material, m2))
    mon.check(d[0] == 'ok' and d2[0] == 'ok', 'Java: session material is refused')
    d, d2 = int(d[1]), int(d2[1])
    for j in range(4):
      msg = gen.message(gen.msg(rng))
      out = java.do('sessencrypt', e, msg)
      try:
        got = key.decrypt(out)[0]
      except ref.FormatError as x:
        mon.violate('Java: a session message does not follow the format: %s' % x)
      mon.check(got == msg, 'Java: a session message decrypts to something else')
      mon.check(java.do('sessdecrypt', d, out) == msg, 'Java: a session message does not come back')
      mon.check(java.do('sessdecrypt', d2, out) is None, 'Java: a message of another session decrypts')
      mon.check(java.do('sessdecrypt', d2, k2.encrypt(msg, rng.randbytes(16))) == msg, 'Java: a genuine session message does not decrypt')
      mon.event('session:plain')
      mon.distinct('plain-session', new, ks.type, len(msg))
  java.done()


MINE = {'text': text, 'timeout': timeout, 'plain-session': plain_session}


def run(mon, case):
  foreign.use_java()
  if case['k'] in MINE:
    MINE[case['k']](mon, case)
  else:
    c31.run(foreign.Renamed(mon, 'Java'), case)
