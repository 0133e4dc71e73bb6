"""C18: hostile input yields only documented outcomes."""
import io
import json
import random
import time

from kzmon import gen, kit, ref
from kzmon.env import B, LIBS, S, CryptLib, errors, kz, util

ID = 'C18'
LEVEL = 'exploration'
RULE = ('one hostile input given to one entry point, with the kind of outcome judged: distinct by entry point, key type, '
        'construction of the input, length and outcome')
ENTRIES = ('Decrypt:aes', 'Decrypt:rsa', 'Verify:hmac', 'Verify:rsa', 'Verify:dsa', 'Attached:hmac', 'Attached:rsa',
           'Attached:dsa', 'Unversioned:hmac', 'Unversioned:rsa', 'Unversioned:dsa', 'Material', 'SignedMaterial',
           'Session', 'SignedSession', 'Base64', 'Unpack', 'Stream')
REQUIRED = ENTRIES + ('outcome:KeyczarError', 'outcome:returned', 'probe', 'large', 'text', 'raw', 'crafted', 'constructed',
                      'public-set')
ASSUMPTIONS = ('inputs are str with code points below 256', 'session material encrypted by a dishonest holder of the key is not judged', 'nor are malformed AES messages with a valid tag')
LIMIT = 12.    # seconds of CPU time for one operation; they take less than one

SIZES = (100, 1000, 5000, 20000, 50000, 100000)


def cases(rng, tier):
  n = 40 if tier == 'quick' else 600
  for i in range(n):
    for e in ENTRIES:
      yield {'entry': e, 'salt': rng.randrange(1 << 30), 'n': 120 if 'rsa' not in e else 70, 'large': i % 3 == 0,
             'lib': LIBS[i % 2]}


# ---------------------------------------------------------------- inputs

JUNK = ''.join(map(chr, range(256)))
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def texts(rng, genuine):
  """Hostile Base64 texts."""
  k = rng.randrange(12)
  n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 33, 60, 61, 200))
  if k == 0:
    return 'b64', ''.join(rng.choice(B64) for _ in range(n))
  if k == 1:
    return 'any', ''.join(rng.choice(JUNK) for _ in range(n))
  if k == 2:
    return 'padding', ''.join(rng.choice(B64[:4] + '==') for _ in range(n))
  if k == 3:
    return 'space', ''.join(rng.choice('AB \n\r\t\x0b\x0c\x1c\x1d\x1e\x85\xa0') for _ in range(n))
  if k == 4:
    return 'std-alphabet', ''.join(rng.choice(B64[:-2] + '+/') for _ in range(n))
  if k == 5:
    return 'nul', '\0' * n
  if k == 6:
    return 'prefix', genuine[:rng.randrange(len(genuine) + 1)]
  if k == 7:
    i = rng.randrange(len(genuine) + 1)
    return 'inserted', genuine[:i] + rng.choice(JUNK) * rng.choice((1, 2, 3, 4)) + genuine[i:]
  if k == 8:
    i = rng.randrange(len(genuine) or 1)
    return 'replaced', genuine[:i] + rng.choice(JUNK) + genuine[i + 1:]
  if k == 9:
    return 'padded', genuine + '=' * rng.choice((1, 2, 3, 4, 5))
  if k == 10:
    return 'doubled', genuine + genuine
  return 'reversed', genuine[::-1]


def raws(rng, genuine, header):
  k = rng.randrange(10)
  n = rng.choice((0, 1, 2, 3, 4, 5, 6, 15, 16, 19, 20, 21, 32, 36, 40, 41, 42, 56, 57, 60, 64, 100, 128, 129, 256))
  if k == 0:
    return 'random', rng.randbytes(n)
  if k == 1:
    return 'header+random', header + rng.randbytes(n)
  if k == 2:
    return 'header+constant', header + bytes([rng.choice((0, 1, 0x7f, 0x80, 0xff, 0x30))]) * n
  if k == 3:
    return 'cut', genuine[:rng.randrange(len(genuine) + 1)]
  if k == 4:
    return 'cut-front', genuine[rng.randrange(len(genuine) + 1):]
  if k == 5:
    return 'version', bytes([rng.randrange(1, 256)]) + genuine[1:]
  if k == 6:
    return 'unknown-key', b'\0' + rng.randbytes(4) + genuine[5:]
  return 'mutant', kit.mutants(rng, genuine, 1)[0]


def der_junk(rng, depth=0):
  """ASN.1 of all sorts, mostly near a DSA signature."""
  k = rng.randrange(16)
  q = rng.getrandbits(160)
  i1, i2 = ref.der_int(q), ref.der_int(rng.getrandbits(160))
  if k == 0:
    return ref.der_seq(i1)
  if k == 1:
    return ref.der_seq(i1, i2, i1)
  if k == 2:
    return ref.der_seq(ref.der_octets(rng.randbytes(20)), i2)
  if k == 3:
    return ref.der_seq(i1, i2)[:rng.randrange(40)]
  if k == 4:
    return b'\x30\x80' + i1 + i2 + b'\0\0'
  if k == 5:
    return b'\x30' + bytes([0x80 | rng.randrange(128)]) + rng.randbytes(rng.randrange(40))
  if k == 6:
    return ref.der_seq(b'\x02\x00', b'\x02\x00')
  if k == 7:
    return ref.der_seq(ref.der_int(rng.choice((0, 1, 2 ** 160, 2 ** 1024, 2 ** 9000))), i2)
  if k == 8:
    return ref.der_seq(b'\x02\x01\xff', b'\x02\x14' + b'\xff' * 20)
  if k == 9 and depth < 6:
    return ref.der_seq(der_junk(rng, depth + 1), i2)
  if k == 10:
    return b'\x30\x80' * rng.choice((1, 5, 60, 400))
  if k == 11:
    return bytes([rng.randrange(256)]) + ref.der_seq(i1, i2)[1:]
  if k == 12:
    return ref.der_seq(b'\x05\x00', b'\x01\x01\xff')
  if k == 13:
    return ref.der_seq(b'\x02\x81\x14' + b'\x11' * 20, b'\x02\x84\xff\xff\xff\xff')
  if k == 14:
    return ref.der_seq(b'\x09\x03\x80\x00\x01', b'\x06\x03\x2a\x86\x48')
  return b'\x1f' + b'\xff' * rng.randrange(1, 30)


LENGTHS = (0, 1, 4, 5, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffb, 0xfffffff7, 0x00ffffff, 0x01000000)


def crafted(rng, kind, key, entry, genuine):
  """Inputs aimed at the parser behind the header."""
  h = b'\0' + key.id
  if kind == 'aes':
    # shapes without a valid tag; with one, only a holder of the key could make them
    n = rng.choice((0, 1, 15, 16, 17, 31, 32, 48))
    body = rng.randbytes(n)
    if rng.random() < .5 and n % 16 == 0 and n:
      pad = rng.choice((0, 1, 2, 15, 16, 17, 20, 128, 255))
      m = rng.randbytes(n - 1) + bytes([pad])
      iv = rng.randbytes(16)
      msg = h + iv + ref.cbc_enc(key.key, iv, m)
    else:
      msg = h + rng.randbytes(rng.choice((0, 5, 15, 16, 16))) + body
    return msg + kit.flip(ref.hmac_sha1(key.hmac, msg), rng.randrange(20), 1 << rng.randrange(8))
  if kind == 'rsa' and entry.startswith('Decrypt'):
    k = (key.n.bit_length() + 7) // 8
    x = rng.choice((0, 1, 2, key.n - 1, key.n, key.n + 1, 2 * key.n, 256 ** k - 1, 256 ** (k + 1), key.n // 2))
    if rng.random() < .5:
      em = rng.choice((b'\0' * k, b'\0' + rng.randbytes(k - 1), b'\1' + rng.randbytes(k - 1), rng.randbytes(3),
                       b'\0' * 21 + rng.randbytes(5), ref.oaep_encode(b'', k, b's' * 20)[:-1] + b'x') + tuple(
                           # masked correctly by somebody who just has the public key
                           ref.oaep_mask(rng.choice((ref.sha1(b''), b'\0' * 20, rng.randbytes(20))) + body, rng.randbytes(20), first)
                           for first in (0, 1) for body in (b'\0' * (k - 41), b'\xff' * (k - 41), b'\0' * (k - 42) + b'\2', b'\0' * (k - 42) + b'\1',
                                                            rng.randbytes(k - 41))))
      x = pow(ref.b2i(em) % key.n, key.e, key.n)
    b = ref.i2b(x)
    return h + (b.rjust(k, b'\0') if rng.random() < .5 else b)
  if kind == 'rsa':
    k = (key.n.bit_length() + 7) // 8
    x = rng.choice((0, 1, key.n - 1, key.n, key.n + 1, 256 ** k - 1, key.n ** 2))
    sig = ref.i2b(x)
  elif kind == 'dsa':
    sig = der_junk(rng)
  else:
    sig = rng.randbytes(rng.choice((0, 1, 19, 20, 21, 40)))
  if entry.startswith('Attached'):
    n = rng.choice(LENGTHS + (len(sig), len(sig) + 1))
    return h + ref.u32(n & 0xffffffff) + rng.randbytes(rng.choice((0, 3, 10))) + sig
  if entry.startswith('Unversioned'):
    return sig
  return h + sig


def streams(rng, kind, key, genuine):
  x = rng.random()
  if x < .3 and kind:
    return 'crafted', crafted(rng, kind, key, 'Decrypt', genuine)
  return raws(rng, genuine, b'\0' + key.id)


# ---------------------------------------------------------------- judging

class Judge(object):

  def __init__(self, mon, case):
    self.mon, self.entry = mon, case['entry']

  def __call__(self, label, n, fn, returns, *args):
    mon = self.mon
    t = time.process_time()
    o = mon.call(fn, *args)
    t = time.process_time() - t
    if o.ok:
      good = any(o.value is r if not isinstance(r, type) else isinstance(o.value, r) for r in returns)
      mon.event('outcome:returned')
    else:
      good = isinstance(o.exc, errors.KeyczarError)
      mon.event('outcome:KeyczarError' if good else 'outcome:other')
    mon.check(good, lambda: '%s, given hostile input (%s, %d bytes): %r' % (self.entry, label, n, o),
              input=args, traceback=o.tb)
    mon.check(t < LIMIT, lambda: '%s, given hostile input (%s, %d bytes), takes %.1f s' % (self.entry, label, n, t))
    mon.event(self.entry)
    mon.distinct(self.entry, label, n, o.kind)
    return o


class Bad(object):
  """The hostile inputs for one entry point."""

  def __init__(self, rng, case, kind, key, genuine, entry):
    self.rng, self.case, self.kind, self.key, self.genuine, self.entry = rng, case, kind, key, genuine, entry

  def items(self, mon, n):
    rng = self.rng
    hdr = b'\0' + self.key.id
    for _ in range(n):
      x = rng.random()
      if x < .3:
        label, t = texts(rng, ref.b64(self.genuine))
        mon.event('text')
        yield label, t, True
        continue
      if x < .6:
        label, b = 'crafted', crafted(rng, self.kind, self.key, self.entry, self.genuine)
        mon.event('crafted')
      else:
        label, b = raws(rng, self.genuine, hdr)
        mon.event('constructed')
      if rng.random() < .5:
        mon.event('raw')
        yield label, S(b), False
      else:
        yield label, ref.b64(b), True
    if self.case['large']:
      for size in SIZES:
        b = rng.choice((hdr, b'', self.genuine)) + rng.choice((rng.randbytes(size), b'\xff' * size, b'\0' * size, b'\x30\x80' * (size // 2)))
        mon.event('large')
        yield 'large', S(b), False
        yield 'large', ref.b64(b), True


def _keyset(rng, kind, purpose):
  n = rng.choice((1, 2, 3))
  if kind == 'aes':
    keys = gen.aes_keys(rng, n)
  elif kind == 'rsa':
    size = rng.choice(('rsa1024', 'rsa1024', 'rsa768', 'rsa2048', 'rsa512'))
    if purpose == 'sign' and size == 'rsa512':
      size = 'rsa1024'
    keys = gen.sign_keys(rng, size, n)
  else:
    keys = gen.sign_keys(rng, kind, n)
  return gen.keyset({'keys': keys, 'status': gen.statuses(rng, len(keys)), 'purpose': purpose})


def _decrypt(mon, rng, case, j, kind):
  ks = _keyset(rng, kind, 'crypt')
  c = kit.opened(mon, kz.Crypter, ks)
  key = rng.choice(ks.versions).key
  data = gen.message(gen.msg(rng, maxlen=20))
  g = key.encrypt(data, rng.randbytes(16 if kind == 'aes' else 20))
  for label, t, text in Bad(rng, case, kind, key, g, case['entry']).items(mon, case['n']):
    j(label, len(t), c.Decrypt, (str,), *([t] if text else [t, None]))
  o = mon.call(c.Decrypt, S(g), None)
  mon.check(o.ok and B(o.value) == data, lambda: 'after hostile input a genuine ciphertext: %r' % o)
  _state(mon, c, ks)


def _state(mon, obj, ks):
  got = json.loads(str(obj))
  want = ks.meta()
  order = lambda m: dict(m, versions=sorted(m['versions'], key=lambda v: v['versionNumber']))
  mon.check(order(got) == order(want),
            lambda: 'hostile input changed the object: %s' % got)
  mon.event('probe')


def _sig(key, kind, msg, rng):
  return key.sign(msg, rng.randrange(1, key.q)) if kind == 'dsa' else key.sign(msg)


def _verify(mon, rng, case, j, kind):
  ks = _keyset(rng, kind, 'sign')
  cls = rng.choice((kz.Verifier, kz.Signer))
  src = ks
  if kind != 'hmac' and cls is kz.Verifier and rng.random() < .6:
    src = ks.public()
    mon.event('public-set')
  v = kit.opened(mon, cls, src)
  key = rng.choice(ks.versions).key
  data = gen.message(gen.msg(rng, maxlen=40))
  g = b'\0' + key.id + _sig(key, kind, data + b'\0', rng)
  for label, t, text in Bad(rng, case, kind, key, g, case['entry']).items(mon, case['n']):
    j(label, len(t), v.Verify, (bool, int), S(data), *([t] if text else [t, None]))
  o = mon.call(v.Verify, S(data), S(g), None)
  mon.check(o.ok and o.value, lambda: 'after hostile input a genuine signature: %r' % o)
  _state(mon, v, src)


def _attached(mon, rng, case, j, kind):
  ks = _keyset(rng, kind, 'sign')
  v = kit.opened(mon, kz.Verifier, ks)
  key = rng.choice(ks.versions).key
  data = gen.message(gen.msg(rng, maxlen=40))
  nonce = rng.randbytes(rng.choice((0, 1, 16)))
  g = b'\0' + key.id + ref.u32(len(data)) + data + _sig(key, kind, ref.attached_message(data, nonce), rng)
  for label, t, text in Bad(rng, case, kind, key, g, case['entry']).items(mon, case['n']):
    j(label, len(t), v.AttachedVerify, (str, None), t, S(nonce), *([] if text else [None]))
  o = mon.call(v.AttachedVerify, S(g), S(nonce), None)
  mon.check(o.ok and o.value == S(data), lambda: 'after hostile input a genuine attached signature: %r' % o)
  _state(mon, v, ks)


def _unversioned(mon, rng, case, j, kind):
  ks = _keyset(rng, kind, 'sign')
  v = kit.opened(mon, kz.UnversionedVerifier, ks)
  key = rng.choice(ks.versions).key
  data = gen.message(gen.msg(rng, maxlen=40))
  g = _sig(key, kind, data, rng)
  for label, t, text in Bad(rng, case, kind, key, g, case['entry']).items(mon, case['n']):
    j(label, len(t), v.Verify, (bool, int), S(data), *([t] if text else [t, None]))
  o = mon.call(v.Verify, S(data), S(g), None)
  mon.check(o.ok and o.value, lambda: 'after hostile input a genuine unversioned signature: %r' % o)
  _state(mon, v, ks)


def _session(mon, rng, case, j):
  entry = case['entry']
  ekind = rng.choice(('aes', 'rsa')) if 'Signed' not in entry else 'aes'
  eks = _keyset(rng, ekind, 'crypt') if ekind == 'aes' else gen.keyset({'keys': ['rsa2048:0'], 'purpose': 'crypt'})
  c = kit.opened(mon, kz.Crypter, eks)
  sk = _keyset(rng, rng.choice(('hmac', 'dsa')), 'sign')
  s = kit.opened(mon, kz.Signer, sk)
  ekey = eks.primary.key
  msg = gen.message(gen.msg(rng, maxlen=60))
  if 'Signed' in entry:
    e = mon.must('SignedSessionEncrypter', kz.SignedSessionEncrypter, c, s)
  else:
    e = mon.must('SessionEncrypter', kz.SessionEncrypter, c)

  def opened(m):
    return kz.SignedSessionDecrypter(c, s, m) if 'Signed' in entry else kz.SessionDecrypter(c, m)
  ct = mon.must('Encrypt', e.Encrypt, S(msg))
  d = mon.must('session decrypter', opened, e.session_material)
  n = min(case['n'], 50)
  if 'Material' in entry:
    g = ref.unb64(e.session_material)
    hdr = b'\0' + ekey.id
    for _ in range(n):
      label, t = texts(rng, e.session_material) if rng.random() < .5 else raws(rng, g, hdr)
      if isinstance(t, bytes):
        t = ref.b64(t)
      j(label, len(t), opened, (object,), t)
  else:
    g = ref.unb64(ct)
    for _ in range(2 * n):
      label, t = texts(rng, ct) if rng.random() < .5 else raws(rng, g, g[:5])
      if isinstance(t, bytes):
        t = ref.b64(t)
      j(label, len(t), d.Decrypt, (str, None), t)
    if case['large']:
      for size in SIZES:
        mon.event('large')
        j('large', size, d.Decrypt, (str, None), ref.b64(g[:5] + rng.randbytes(size)))
  o = mon.call(d.Decrypt, ct)
  mon.check(o.ok and o.value == S(msg), lambda: 'after hostile input a genuine session message: %r' % o)
  o = mon.call(lambda: opened(e.session_material).Decrypt(ct))
  mon.check(o.ok and o.value == S(msg), lambda: 'after hostile input a genuine session: %r' % o)
  mon.event('probe')


def _base64(mon, rng, case, j):
  g = ref.b64(rng.randbytes(rng.randrange(60)))
  for _ in range(case['n'] * 4):
    label, t = texts(rng, g)
    j(label, len(t), util.Base64WSDecode, (str,), t)
  for n in range(0, 3):
    for _ in range(100):
      t = ''.join(rng.choice(JUNK) for _ in range(n))
      j('short', n, util.Base64WSDecode, (str,), t)
  if case['large']:
    for size in SIZES:
      mon.event('large')
      for t in (rng.choice(B64) * size, rng.choice(JUNK) * size, '\n' * size, '=' * size):
        j('large', size, util.Base64WSDecode, (str,), t)
  mon.check(util.Base64WSDecode(g) == S(ref.unb64(g)), 'after hostile input, Base64 decoding is wrong')
  mon.event('probe')


def _unpack(mon, rng, case, j):
  for _ in range(case['n'] * 4):
    n = rng.choice((0, 1, 3, 4, 5, 8, 12, 30))
    b = rng.randbytes(n)
    if rng.random() < .7:
      b = ref.u32(rng.choice(LENGTHS + (n, n - 4 if n >= 4 else 0, n + 1)) & 0xffffffff) + b
    off = rng.choice((0, 0, 0, 1, 4, 5, len(b), len(b) + 1, len(b) + 100))
    o = j('unpack', len(b), util.UnpackByteArray, (tuple,), S(b), off)
    if o.ok:
      data, end = o.value
      m = ref.b2i(b[off:off + 4])
      mon.check(len(data) == m and end == off + 4 + m <= len(b) and B(data) == b[off + 4:end],
                lambda: 'UnpackByteArray(%r, %d) gives %r' % (b, off, o.value))
  mon.event('probe')


def _stream(mon, rng, case, j):
  ks = _keyset(rng, 'aes', 'crypt')
  c = kit.opened(mon, kz.Crypter, ks)
  key = rng.choice(ks.versions).key
  data = gen.message(gen.msg(rng, maxlen=200))
  g = key.encrypt(data, rng.randbytes(16))

  def read_all(t, raw, size, buf):
    kw = {'decoder': None} if raw else {}
    if buf is not None:
      kw['buffer_size'] = buf
    r = c.CreateDecryptingStreamReader(io.StringIO(t, newline=''), **kw)
    out = []
    for _ in range(len(t) + 50):
      x = r.read(size) if size else r.read()
      if x is not None and not isinstance(x, str):
        raise TypeError('read() returned %s' % type(x).__name__)
      if x == '':
        return ''.join(out)
      out.append(x or '')
    raise RuntimeError('reading does not come to an end')
  items = list(Bad(rng, case, 'aes', key, g, 'Decrypt').items(mon, case['n']))
  for label, t, text in items:
    size = rng.choice((None, None, 1, 16, 17, 4096))
    if len(t) > 3000 and size and size < 4096:
      size = 4096
    j(label + '/%s' % size, len(t), read_all, (str,), t, not text, size, rng.choice((None, 1, 16, 100, 65536)))
  o = mon.call(read_all, ref.b64(g), False, None, None)
  mon.check(o.ok and B(o.value) == data, lambda: 'after hostile input a genuine stream: %r' % o)
  _state(mon, c, ks)


def run(mon, case):
  rng = random.Random(case['salt'])
  j = Judge(mon, case)
  e = case['entry']
  with CryptLib(case['lib']):
    if ':' in e:
      name, kind = e.split(':')
      {'Decrypt': _decrypt, 'Verify': _verify, 'Attached': _attached, 'Unversioned': _unversioned}[name](
          mon, rng, case, j, kind)
    else:
      {'Material': _session, 'SignedMaterial': _session, 'Session': _session, 'SignedSession': _session,
       'Base64': _base64, 'Unpack': _unpack, 'Stream': _stream}[e](mon, rng, case, j)
