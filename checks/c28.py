"""C28: a refused ciphertext does not tell what it would have decrypted to."""
import io
import random

from kzmon import gen, kit, ref
from kzmon.env import B, LIBS, S, CryptLib, kz, readers

ID = 'C28'
LEVEL = 'exploration'
RULE = ('one group of forgeries that agree in everything their maker can see (key, length, way of decrypting), whose '
        'outcomes were compared: distinct by key, length, way and construction of the forgeries')
REQUIRED = ('way:Decrypt', 'way:text', 'way:stream', 'way:session', 'way:material', 'aes:valid-padding', 'aes:bad-padding',
            'aes:tag', 'aes:iv', 'rsa:zero', 'rsa:nonzero', 'rsa:two-zeros', 'rsa:malleated', 'rsa:other-label',
            'way:rsa-material', 'way:encrypted-set')
ASSUMPTIONS = ('time is not judged', 'nor are RSA plaintexts with a correct label hash, which cannot be hit without the '
               'private key')


def cases(rng, tier):
  n = 12 if tier == 'quick' else 200
  for i in range(n):
    for bits in (128, 192, 256):
      for way in ('Decrypt', 'text', 'stream', 'session', 'material', 'encrypted-set'):
        yield {'k': 'aes', 'key': 'aes%d:%d' % (bits, i % 7), 'way': way, 'salt': rng.randrange(1 << 30), 'lib': LIBS[i % 2],
               'len': rng.choice((0, 1, 15, 16, 17, 31, 32, 48, 100, 500))}
    for bits in (512, 768, 1024, 2048):
      for way in ('Decrypt', 'text', 'rsa-material'):
        yield {'k': 'rsa', 'key': 'rsa%d:%d' % (bits, i % 4), 'way': way, 'salt': rng.randrange(1 << 30)}


def outcome(o):
  return (type(o.exc).__name__, str(o.exc)) if o.exc is not None else ('returned', type(o.value).__name__, o.value)


def compare(mon, what, results):
  """results: [(construction, Outcome)]"""
  groups = {}
  for how, o in results:
    groups.setdefault(outcome(o), []).append(how)
  mon.check(len(groups) == 1, lambda: '%s: forgeries of one length are answered differently: %s' % (
      what, '; '.join('%s: %s' % (g[:2], sorted(set(h))[:4]) for g, h in groups.items())))


def _aes(mon, case):
  rng = random.Random(case['salt'])
  key = gen.key(case['key'])
  way = case['way']
  with CryptLib(case['lib']):
    c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': [case['key']]}))
    if way == 'session':
      enc = kz.SessionEncrypter(c)
      dec = kz.SessionDecrypter(c, enc.session_material)
      from checks import c08
      a, h = c08.unpack(key.decrypt(ref.unb64(enc.session_material))[0])
      key = ref.AesK(a, h)
    data = rng.randbytes(case['len'])
    ct = key.encrypt(data, rng.randbytes(16))

    def ask(x):
      if way == 'Decrypt':
        return mon.call(c.Decrypt, S(x), None)
      if way == 'text':
        return mon.call(c.Decrypt, ref.b64(x))
      if way == 'session':
        return mon.call(dec.Decrypt, ref.b64(x))
      if way == 'material':
        return mon.call(kz.SessionDecrypter, c, ref.b64(x))
      if way == 'encrypted-set':
        ks = gen.keyset({'keys': ['hmac:1']})
        ks.encrypted = True
        r = ref.MemReader(ks)
        r.keys = dict((n, ref.b64(x)) for n in r.keys)
        return mon.call(lambda: kz.Signer(readers.EncryptedReader(r, c)))

      def stream():
        r = c.CreateDecryptingStreamReader(io.StringIO(S(x), newline=''), None)
        while True:
          d = r.read(64)
          if d == '':
            return 'end'
      return mon.call(stream)

    results = []
    tag = rng.randbytes(20)
    body = len(ct) - 41

    def forge(how, x):
      assert len(x) == len(ct) and x != ct
      results.append((how, ask(x)))
      mon.event('aes:' + how)
    for i in range(6):
      forge('tag', ct[:-20] + rng.randbytes(20))
      forge('tag', kit.flip(ct, len(ct) - 1 - rng.randrange(20), 1 << rng.randrange(8)))
      forge('iv', kit.flip(ct, 5 + rng.randrange(16), 1 << rng.randrange(8)))
      forge('body', ct[:21] + rng.randbytes(body) + ct[-20:])
      forge('all', ct[:5] + rng.randbytes(len(ct) - 5))
    # padding: XOR into the block before the last one sets the last plaintext block
    pad = 16 - len(data) % 16
    last = (data + bytes([pad]) * pad)[-16:]
    for want in [bytes(15) + bytes([p]) for p in (1, 2, 0, 17, 255)] + [
        bytes(16 - p) + bytes([p]) * p for p in (2, 3, 8, 15, 16)]:
      good = 1 <= want[-1] <= 16 and want[-want[-1]:] == bytes([want[-1]]) * want[-1]
      if want == last:
        continue
      prev = bytes(a ^ b ^ w for a, b, w in zip(ct[-52:-36], last, want))
      x = ct[:-52] + prev + ct[-36:]
      plain = ref.cbc_dec(key.key, x[5:21], x[21:-20])
      if not plain.endswith(want):
        raise RuntimeError('construction')
      forge('valid-padding' if good else 'bad-padding', x)
      forge('valid-padding' if good else 'bad-padding', x[:-20] + tag)
    compare(mon, '%s, AES' % way, results)
    # lengths that no message has
    for cut in (1, 8, 15):
      x = ct[:-cut]
      odd = []
      for i in range(4):
        for y in (x[:5] + rng.randbytes(len(x) - 5), x, kit.flip(x, 5 + rng.randrange(16), 1)):
          odd.append(('odd', ask(y)))
      compare(mon, '%s, AES, odd length' % way, odd)
  mon.event('way:' + way)
  mon.distinct(case['key'], way, case['lib'], case['len'])


def _rsa(mon, case):
  rng = random.Random(case['salt'])
  key = gen.key(case['key'])
  way = case['way']
  ks = gen.keyset({'keys': [case['key']], 'purpose': 'crypt'})
  c = kit.opened(mon, kz.Crypter, ks)
  k = key.k
  header = b'\0' + key.id

  def ask(em):
    """em: the integer it decrypts to."""
    x = header + pow(em, key.e, key.n).to_bytes(k, 'big')
    if way == 'Decrypt':
      return mon.call(c.Decrypt, S(x), None)
    if way == 'text':
      return mon.call(c.Decrypt, ref.b64(x))
    return mon.call(kz.SessionDecrypter, c, ref.b64(x))

  results = []

  def forge(how, em):
    results.append((how, ask(em)))
    mon.event('rsa:' + how)
  top = key.n >> (8 * (k - 1))
  for i in range(8):
    forge('zero', ref.b2i(b'\0' + bytes([rng.randrange(1, 256)]) + rng.randbytes(k - 2)))
    forge('two-zeros', ref.b2i(b'\0\0' + bytes([rng.randrange(1, 256)]) + rng.randbytes(k - 3)))
    forge('two-zeros', ref.b2i(b'\0\0\0' + rng.randbytes(k - 3)))
    forge('nonzero', ref.b2i(bytes([rng.randrange(1, top)]) + rng.randbytes(k - 1)))
    forge('nonzero', ref.b2i(bytes([1]) + rng.randbytes(k - 1)))
    forge('any', rng.randrange(1 << (8 * k - 20), key.n))
    # a target, multiplied by something known
    m = ref.b2i(ref.oaep_encode(b'secret', k, rng.randbytes(20)))
    forge('malleated', m * rng.randrange(2, 1 << 64) % key.n)
    forge('malleated', m * 2 % key.n)
    # encodings of another label, and a correct one behind a first byte that is not zero
    db = b'\0' * (k - 48) + b'\1secret'
    forge('other-label', ref.b2i(ref.oaep_mask(ref.sha1(b'label') + db, rng.randbytes(20))))
    forge('nonzero', ref.b2i(ref.oaep_mask(ref.sha1(b'') + db, rng.randbytes(20), first=1)))
  compare(mon, '%s, RSA' % way, results)
  mon.check(all(not o.ok for _, o in results), 'a forged RSA ciphertext is accepted')
  mon.event('way:' + way)
  mon.distinct(case['key'], way, case['salt'])


def run(mon, case):
  {'aes': _aes, 'rsa': _rsa}[case['k']](mon, case)
