"""C35: the Java library accepts no altered ciphertext and no forged signature, and refuses malformed input with its own exceptions."""
import random

from kzmon import foreign, gen, kit, ref
from checks import c31, c32

ID = 'C35'
LEVEL = 'exploration'
RULE = 'one altered, forged or malformed input given to the Java library: distinct by operation, kind of key, kind and place of the alteration, length'
REQUIRED = ('large', 'sizes', 'aes', 'rsa', 'hmac', 'dsa', 'flip', 'cut', 'extend', 'splice', 'cancel', 'other-key', 'version-byte', 'other-message', 'other-hidden', 'boundary',
            'other-set', 'accepted-genuine', 'refused', 'session', 'material', 'text', 'unversioned', 'key-file', 'signature-of-other-kind', 'hostile', 'twins', 'probe')
ASSUMPTIONS = ('the reference in kzmon/ref.py implements the published formats (it is judged against Python by C08)',
               'java/org/json behaves as the library of json.org, which is not in the sandbox',
               'identifiers of AES keys are those of Java, which take every key for one of 128 bits (issue 105)')
CASE_TIMEOUT = {'quick': 300, 'thorough': 600}
SIGN = ('hmac', 'hmac', 'dsa', 'rsa1024', 'rsa2048')


def setup():
  foreign.setup_java()


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(48 if q else 700):
    yield {'k': 'crypt', 'set': c31.spec(rng, c32.CRYPT[i % len(c32.CRYPT)], 'crypt'), 'salt': rng.randrange(1 << 30), 'n': 5}
  for i in range(48 if q else 700):
    yield {'k': 'sign', 'set': c31.spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 4}
  for i in range(14 if q else 200):
    yield {'k': 'session', 'crypt': c31.spec(rng, 'aes', 'crypt'), 'sign': c31.spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 2}
  for i in range(8 if q else 100):
    yield {'k': 'keyfile', 'salt': rng.randrange(1 << 30)}
  for n in (70001, 1200000, 5000000) if q else (70001, 300000, 1200000, 2500000, 5000000, 9000000):
    yield {'k': 'large', 'n': n, 'salt': rng.randrange(1 << 30)}
  for lo in range(0, 420 if q else 2100, 60):
    yield {'k': 'sizes', 'from': lo, 'to': lo + 60, 'salt': rng.randrange(1 << 30)}
  for kind in ('aes', 'hmac', 'dsa', 'rsa1024'):
    yield {'k': 'bits', 'kind': kind, 'salt': rng.randrange(1 << 30)}
  for i in range(40 if q else 500):
    yield {'k': 'hostile', 'salt': rng.randrange(1 << 30), 'n': 80}
  for i in range(6 if q else 60):
    yield {'k': 'twins', 'salt': rng.randrange(1 << 30)}


def junk(rng, seeds):
  """Bytes of all lengths, related to genuine ones or not."""
  x = rng.random()
  if x < .25:
    return rng.randbytes(rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 13, 20, 21, 24, 25, 40, 41, 57, 100)))
  s = rng.choice(seeds)
  if x < .5:
    return s[:rng.randrange(len(s) + 1)]
  if x < .6:
    return s[:5] + rng.randbytes(rng.choice((0, 1, 3, 4, 8, 15, 16, 20, 36, 52, 64, 128, 129, 256, 300)))
  if x < .75:
    return s[:5] + ref.u32(rng.choice((0, 1, 4, 100, len(s), len(s) - 9, 1 << 20, 0x7fffffff, 0x7ffffff0, 0x80000000, 0xffffffff, rng.randrange(1 << 32)))) + s[9:9 + rng.randrange(40)]
  b = bytearray(s)
  for _ in range(rng.choice((1, 2, 8))):
    b[rng.randrange(len(b))] = rng.choice((0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)))
  return bytes(b)


def junk_text(rng, seeds):
  x = rng.random()
  t = ref.b64(junk(rng, seeds)).encode()
  if x < .1:
    return b'=' * rng.randrange(5)
  if x < .2:
    return b' ' * rng.randrange(4) + b'=' * rng.randrange(4) + rng.choice((b'', b' ', b'\n', b'A', b'AB'))
  if x < .4:
    i = rng.randrange(len(t) + 1)
    return t[:i] + rng.choice((b'=', b'==', b' ', b'\n', b'+', b'/', b'\xe9', b'\xff', b'\x80', b'\0', b'\x7f', b'*')) * rng.choice((1, 1, 2, 5)) + t[i:]
  if x < .6:
    return t + b'=' * rng.randrange(4)
  if x < .7:
    return bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 2, 3, 4, 10, 50))))
  return t[:rng.randrange(len(t) + 1)]


def hostile(mon, case):
  """Whatever is given, the answer is a result, false or a KeyczarException, and the object goes on working."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  kind = rng.choice(('aes', 'aes', 'rsa1024', 'rsa1024', 'hmac', 'dsa'))
  crypt = kind == 'aes' or (kind == 'rsa1024' and rng.random() < .5)
  ks = c32.with_primary(c31.spec(rng, kind, 'crypt' if crypt else 'sign'))
  loc = ks.write(mon.tmpdir())
  k = ks.primary.key
  msg = gen.message(gen.msg(rng, maxlen=80))[:80]
  if crypt:
    h = java.open('Crypter', loc)
    good = k.encrypt(msg, rng.randbytes(16 if k.kind == 'aes' else 20))
    seeds = [good] + [v.key.encrypt(b'x', rng.randbytes(16 if k.kind == 'aes' else 20)) for v in ks.versions]
  else:
    h, u, t = (java.open(c, loc) for c in ('Verifier', 'UnversionedVerifier', 'TimeoutVerifier'))
    hid = b'hidden'
    good = b'\0' + k.id + c31.genuine(rng, k, msg + b'\0')
    att = b'\0' + k.id + ref.u32(len(msg)) + msg + c31.genuine(rng, k, ref.attached_message(msg, hid))
    ts = ((1 << 63) - 1).to_bytes(8, 'big')
    tim = b'\0' + k.id + ts + c31.genuine(rng, k, ts + msg + b'\0')
    seeds = [good, att, tim, good[5:]]

  def probe():
    if crypt:
      mon.check(java.do('decrypt', h, ref.b64(good)) == msg, 'Java: after malformed input a genuine ciphertext does not decrypt')
    else:
      mon.check(java.do('verify', h, msg, ref.b64(good)), 'Java: after malformed input a genuine signature is refused')
      mon.check(java.do('verify', u, msg, ref.b64(c31.genuine(rng, k, msg))), 'Java: after malformed input a genuine unversioned signature is refused')
      mon.check(java.do('attached', h, ref.b64(att), hid) == msg, 'Java: after malformed input a genuine attached signature is refused')
      mon.check(java.do('verify', t, msg, ref.b64(tim)), 'Java: after malformed input a genuine timeout signature is refused')
    mon.event('probe')

  probe()
  for i in range(case['n']):
    text = rng.random() < .4
    x = junk_text(rng, seeds) if text else junk(rng, seeds)
    for hh in ((h,) if crypt else (h, u, t)):
      java.do('encoding', hh, int(text))
    if crypt:
      got = java.do(rng.choice(('decrypt', 'decrypt1')), h, x)
      if text:
        java.do('decryptS', h, x)
      if got is not None and got != msg and got != b'x':
        mon.violate('Java: malformed input decrypts', given=x, got=got)
      if rng.random() < .2 and k.kind == 'aes':
        java.raw('openplain', loc, x if not text else b'')
        java.raw('openold', loc, x if not text else b'')
    else:
      for hh, op in ((h, 'sign'), (u, 'unversioned'), (t, 'timeout')):
        got = java.do('verify', hh, msg, x)
        if text:
          java.do('verifyS', hh, msg, x)
        elif op == 'timeout':
          mon.check(not got or x[:13] == tim[:13], 'Java: malformed input is a timeout signature', given=x)
        else:
          mon.check(not got or c32.verified(mon, ks, op, x, msg, b''), 'Java: malformed input is a signature', given=x, op=op)
      got = java.do('attached', h, x, hid)
      java.do('peek', h, x)
      mon.check(got is None or got == msg, 'Java: malformed input is an attached signature', given=x, got=got)
    mon.event('hostile')
    mon.distinct('hostile', kind, crypt, text, len(x), x[:6])
    if i % 10 == 9:
      for hh in ((h,) if crypt else (h, u, t)):
        java.do('encoding', hh, 1)
      probe()
  java.done()


def twins(mon, case):
  """Keys of different sets that have the same identifier are not taken for each other."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  pairs = [(gen.key(x), gen.key(y)) for x, y in gen.twins()['hmac']]
  for a, b in rng.sample(pairs, min(len(pairs), 4)):
    sets = [ref.KeySet('SIGN_AND_VERIFY', 'HMAC_SHA1', [ref.Version(1, 'PRIMARY', x)]) for x in (a, b)]
    locs = [s.write(mon.tmpdir()) for s in sets]
    for cls in ('UnversionedVerifier', 'Verifier', 'UnversionedSigner', 'Signer'):
      hs = [java.open(cls, l) for l in locs]
      for r in range(3):
        for i in rng.sample((0, 1), 2):
          for j, k in enumerate((a, b)):
            msg = rng.randbytes(5)
            raw = k.sign(msg) if cls.startswith('Un') else b'\0' + k.id + k.sign(msg + b'\0')
            mon.check(bool(java.do('verify', hs[i], msg, ref.b64(raw))) == (i == j),
                      'Java: a signature by another key with the same identifier is %s' % ('refused' if i == j else 'accepted'), cls=cls)
            mon.event('twins')
            mon.distinct('twins', cls, i, j, a.id)
  java.done()


MINE = {'hostile': hostile, 'twins': twins}


def run(mon, case):
  foreign.use_java()
  if case['k'] in MINE:
    MINE[case['k']](mon, case)
  else:
    c32.run(foreign.Renamed(mon, 'Java'), case)
