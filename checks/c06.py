"""C06: only genuine signatures verify."""
import hashlib
import random

from kzmon import gen, kit, ref
from kzmon.env import B, S, errors, kz

ID = 'C06'
LEVEL = 'exploration'
RULE = ('one evaluation = one (message, candidate signature) pair submitted to a verify operation; non-trivial: the '
        'reference says the candidate is not valid, or keyczar accepted it and the reference had to confirm; distinct '
        'by (key kind, mode, kind of forgery, position, lengths)')
REQUIRED = ('forged:message', 'forged:signature', 'forged:header', 'forged:othersigner', 'forged:rsa-crafted', 'forged:dsa-crafted',
            'forged:tag', 'forged:length', 'forged:random', 'forged:confusion', 'genuine')
ASSUMPTIONS = ['other encodings of the same valid RSA or DSA integers are not forgeries']


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 10
  for i in range(10 * mult):
    for kind in ('hmac', 'dsa', 'rsa1024', 'rsa512'):
      yield {'k': 'msg', 'key': '%s:%d' % (kind, i), 'msg': [gen.PATTERNS[i % len(gen.PATTERNS)], (0, 1, 5, 20, 63, 64, 65)[i % 7], i]}
      yield {'k': 'sig', 'key': '%s:%d' % (kind, i), 'msg': ['rand', i * 3, i]}
      yield {'k': 'random', 'key': '%s:%d' % (kind, i), 'msg': gen.msg(rng, maxlen=200), 'salt': rng.randrange(1 << 30)}
  for i in range(10 * mult):
    for kind in ('hmac', 'dsa', 'rsa1024'):
      keys = gen.sign_keys(rng, kind, 4)
      yield {'k': 'keys', 'keys': keys, 'msg': gen.msg(rng, maxlen=100), 'salt': i}
  for i, n in enumerate([100, 1000, 5000, 65536, 65537, 100003] + gen.HUGE):
    for kind in ('hmac', 'dsa', 'rsa1024'):
      yield {'k': 'long', 'key': '%s:%d' % (kind, i), 'msg': ['rand', n, i], 'salt': i}
  for i in range(12 * mult):
    yield {'k': 'rsacraft', 'key': 'rsa%d:%d' % ((1024, 768, 2048)[i % 3], i), 'msg': gen.msg(rng, maxlen=80), 'salt': i}
    yield {'k': 'dsacraft', 'key': 'dsa:%d' % i, 'msg': gen.msg(rng, maxlen=80), 'salt': i}
    yield {'k': 'tag', 'key': 'hmac:%d' % i, 'msg': gen.msg(rng, maxlen=80), 'salt': i}


def dsa_lenient(sig):
  """r, s of anything that could pass for a DSA signature, or None."""
  from pyasn1.codec.der import decoder
  try:
    seq = decoder.decode(sig)[0]
    return int(seq[0]), int(seq[1])
  except Exception:
    return None


def valid(key, msg, sig):
  """The mathematical truth, however sig was encoded."""
  if key.kind == 'dsa':
    rs = dsa_lenient(sig)
    return rs is not None and key.verify_rs(msg, *rs)
  return key.verify(msg, sig)


class T(object):

  def __init__(self, mon, ks, label):
    self.mon, self.ks, self.label = mon, ks, label
    self.keys = dict((v.key.id, v.key) for v in ks.versions)
    self.signer = kit.opened(mon, kz.Signer, ks)
    self.un = kit.opened(mon, kz.UnversionedSigner, ks)
    src = ks if ks.versions[0].key.kind == 'hmac' else ks.public()
    self.verifiers = [self.signer, kit.opened(mon, kz.Verifier, src)]
    self.unverifiers = [self.un, kit.opened(mon, kz.UnversionedVerifier, src)]
    self.n = 0

  def plain(self, what, data, blob, cls=None):
    """A versioned candidate: header | signature."""
    truth = blob[:1] == b'\0' and blob[1:5] in self.keys and valid(self.keys[blob[1:5]], data + b'\0', blob[5:])
    self.n += 1
    v = self.verifiers[self.n % 2]
    if self.n % 3:
      o = self.mon.call(v.Verify, S(data), S(blob), None)
    else:
      o = self.mon.call(v.Verify, S(data), ref.b64(blob))
    self._Judge('Verify', what, o, truth, data, blob, cls)

  def unversioned(self, what, data, sig, cls=None):
    truth = any(valid(k, data, sig) for k in self.keys.values())
    self.n += 1
    v = self.unverifiers[self.n % 2]
    if self.n % 3:
      o = self.mon.call(v.Verify, S(data), S(sig), None)
    else:
      o = self.mon.call(v.Verify, S(data), ref.b64(sig))
    self._Judge('unversioned Verify', what, o, truth, data, sig, cls)

  def both(self, what, data, key, sig, cls=None, undata=None):
    self.plain(what, data, b'\0' + key.id + sig, cls)

  def _Judge(self, op, what, o, truth, data, sig, cls):
    mon = self.mon
    mon.check(o.ok or isinstance(o.exc, errors.KeyczarError),
              lambda: '%s raises something undocumented (%s, %s): %r' % (op, self.label, what, o),
              message=data, signature=sig, traceback=o.tb)
    acc = o.ok and bool(o.value)
    mon.check(truth or not acc, lambda: '%s accepts a signature that is not valid for the message (%s, %s %s)'
              % (op, self.label, what, cls), message=data, signature=sig)
    mon.event('forged:' + what if not truth else 'valid')
    if not truth or acc:
      mon.distinct(self.label, op, what, cls, len(data), len(sig))

  def genuine(self, data, blob, un):
    o = self.mon.call(self.verifiers[1].Verify, S(data), S(blob), None)
    self.mon.check(o.ok and bool(o.value), lambda: 'a genuine signature is rejected: %r' % o)
    o = self.mon.call(self.unverifiers[1].Verify, S(data), S(un), None)
    self.mon.check(o.ok and bool(o.value), lambda: 'a genuine unversioned signature is rejected: %r' % o)
    self.mon.event('genuine')


def run(mon, case):
  data = gen.message(case['msg'])
  if case['k'] == 'keys':
    return _Keys(mon, case, data)
  key = gen.key(case['key'])
  ks = gen.keyset({'keys': [case['key']], 'purpose': 'sign'})
  t = T(mon, ks, case['key'].split(':')[0])
  blob = B(mon.must('Sign', t.signer.Sign, S(data), None))
  un = B(mon.must('Sign', t.un.Sign, S(data), None))
  t.genuine(data, blob, un)
  _RUN[case['k']](mon, case, t, key, data, blob, un)
  t.genuine(data, blob, un)


def _Msg(mon, case, t, key, data, blob, un):
  others = []
  step = 1 if len(data) <= 20 or key.kind == 'hmac' else 7
  for i in range(0, len(data), step):
    others += [(('bit', i), kit.flip(data, i, 1 << b)) for b in (range(8) if key.kind == 'hmac' else (0, 7))]
    others += [(('del', i), data[:i] + data[i + 1:]), (('cut', i), data[:i])]
  others += [(('app', n), data + b'\0' * n) for n in range(1, 6)]
  others += [(('pre', n), b'\0' * n + data) for n in range(1, 4)]
  others += [('rev', data[::-1]), ('twice', data + data), ('empty', b''), ('hash', ref.sha1(data)),
             ('space', data + b' '), ('upper', data.upper()), ('strip', data.strip()), ('long', data + b'x' * 5000),
             ('x', b'x'), ('latin', S(data).encode('utf-8'))]
  for cls, m in others:
    if m != data:
      t.plain('message', m, blob, cls)
      t.unversioned('message', m, un, cls)
  # a versioned signature is not an unversioned one of the same message, and the other way round
  t.unversioned('confusion', data, blob[5:], 'v>u')
  t.unversioned('confusion', data, blob, 'v>u header')
  t.plain('confusion', data, blob[:5] + un, 'u>v')
  t.plain('confusion', data, un, 'u>v bare')
  att = B(mon.must('AttachedSign', t.signer.AttachedSign, S(data), 'nonce', None))
  head, d, s = ref.attached_parts(att)
  t.plain('confusion', data, head + s, 'a>v')
  t.plain('confusion', data, att, 'a>v whole')
  t.unversioned('confusion', data, s, 'a>u')


def _Long(mon, case, t, key, data, blob, un):
  """A change anywhere in a long message counts, at the very end too."""
  rng = random.Random(case['salt'])
  n = len(data)
  pos = set([0, 1, n // 2, n - 1, n - 2, n - 20, n - 64]) | set(rng.randrange(n) for _ in range(4))
  for b in (64, 255, 256, 1023, 1024, 4096, 8192, 65535, 65536, 1 << 17, 1 << 18, 1 << 19, 1 << 20):
    pos |= set(x for x in (b, b - 1, b + 1) if x < n)
  for i in sorted(p for p in pos if p >= 0):
    m = kit.flip(data, i, 1 << rng.randrange(8))
    t.plain('message', m, blob, ('long', i))
    t.unversioned('message', m, un, ('long', i))
  for m in (data[:-1], data[1:], data + b'\0', data + b'x', data[:n // 2], data + data[-64:], data[:-64]):
    t.plain('message', m, blob, ('long', len(m)))
    t.unversioned('message', m, un, ('long', len(m)))


def _Sig(mon, case, t, key, data, blob, un):
  for i in range(len(blob)):
    for b in (range(8) if key.kind == 'hmac' or i < 5 else (0, 7)):
      t.plain('signature' if i >= 5 else 'header', data, kit.flip(blob, i, 1 << b), (i, b))
  for i in range(len(un)):
    t.unversioned('signature', data, kit.flip(un, i, 1 << (i % 8)), i)
  for i in range(len(blob)):
    t.plain('length', data, blob[:i], ('cut', i))
    t.plain('length', data, blob[:5] + blob[5 + i:], ('front', i))
    if key.kind == 'hmac' or i % 4 == 0:
      t.plain('length', data, blob[:i] + blob[i + 1:], ('del', i))
      t.plain('length', data, blob[:i] + b'\0' + blob[i:], ('ins', i))
  for i in range(len(un)):
    t.unversioned('length', data, un[:i], ('cut', i))
    t.unversioned('length', data, un[i + 1:], ('front', i))
  for i in range(1, 24):
    t.plain('length', data, blob + b'\0' * i, ('app', i))
    t.unversioned('length', data, un + b'\0' * i, ('app', i))
    t.plain('length', data, blob + blob[-i:], ('appself', i))
  t.plain('length', data, blob + blob[5:], 'twice')
  for i in range(256):
    t.plain('header', data, bytes([i]) + blob[1:], ('version', i))
  t.plain('header', data, b'\0' * 5 + blob[5:], 'zeros')
  for n in (0, 1, 20, 40, 64, 128):
    t.plain('signature', data, blob[:5] + b'\0' * n, ('zeros', n))
    t.plain('signature', data, blob[:5] + b'\xff' * n, ('ones', n))
    t.unversioned('signature', data, b'\0' * n, ('zeros', n))
    t.unversioned('signature', data, b'\xff' * n, ('ones', n))


def _Random(mon, case, t, key, data, blob, un):
  rng = random.Random(case['salt'])
  for m in kit.mutants(rng, blob, 60):
    t.plain('random', data, m)
  for m in kit.mutants(rng, un, 60):
    t.unversioned('random', data, m)


def _Keys(mon, case, data):
  ks = gen.keyset({'keys': case['keys'], 'purpose': 'sign'})
  t = T(mon, ks, case['keys'][0].split(':')[0] + ' x%d' % len(case['keys']))
  sigs = []
  for i, v in enumerate(ks.versions):
    one = gen.keyset({'keys': case['keys'], 'status': ''.join('P' if j == i else 'A' for j in range(len(ks.versions))),
                      'purpose': 'sign'})
    blob = B(mon.must('Sign', kit.opened(mon, kz.Signer, one).Sign, S(data), None))
    un = B(mon.must('Sign', kit.opened(mon, kz.UnversionedSigner, one).Sign, S(data), None))
    t.genuine(data, blob, un)
    sigs.append((blob, un))
  for i, v in enumerate(ks.versions):
    blob, un = sigs[i]
    for j, w in enumerate(ks.versions):
      if i != j:
        t.plain('othersigner', data, b'\0' + w.key.id + blob[5:], (i, j))
        t.plain('header', data, b'\0' + w.key.id + un, (i, j))
        t.plain('header', data, b'\1' + w.key.id + blob[5:], (i, j))
    # a set without the signing key knows nothing of it
    rest = gen.keyset({'keys': [k for x, k in enumerate(case['keys']) if x != i], 'purpose': 'sign'})
    if rest.versions:
      t2 = T(mon, rest, t.label + ' without signer')
      t2.plain('othersigner', data, blob, i)
      t2.unversioned('othersigner', data, un, i)
      for w in rest.versions:
        t2.plain('othersigner', data, b'\0' + w.key.id + blob[5:], i)


def _RsaCraft(mon, case, t, key, data, blob, un):
  k = key.k
  h = ref.sha1(data + b'\0')
  di = bytes.fromhex('3021300906052b0e03021a05000414')
  good = ref.emsa(data + b'\0', k)
  rng = random.Random(case['salt'])

  def em(name, e):
    e = e.rjust(k, b'\0')[-k:]
    v = ref.b2i(e)
    if v >= key.n or e == good:
      return
    s = key.raw_private(v).to_bytes(k, 'big')
    t.plain('rsa-crafted', data, b'\0' + key.id + s, name)
    t.plain('rsa-crafted', data, b'\0' + key.id + s.lstrip(b'\0'), name + ' stripped')

  def pad(body, first=b'\0\1', fill=b'\xff'):
    return first + fill * (k - 3 - len(body)) + b'\0' + body

  for bt in range(256):
    if bt != 1:
      em('block type %d' % bt, good[:1] + bytes([bt]) + good[2:])
  em('leading byte', b'\1' + good[1:])
  em('fill zero', pad(di + h, fill=b'\0'))
  em('fill random', b'\0\1' + bytes(1 + rng.randrange(255) for _ in range(k - 3 - 35)) + b'\0' + di + h)
  for i in range(2, k - 36):
    em('fill byte %d' % i, kit.flip(good, i, 1 << rng.randrange(8)))
  em('no separator', good[:k - 36] + b'\xff' + good[k - 35:])
  for n in (1, 8, 20, k - 3 - 35 - 8):
    em('garbage after %d' % n, (b'\0\1' + b'\xff' * (k - 3 - 35 - n) + b'\0' + di + h + gen.stream('g', n)))
    em('garbage zero after %d' % n, (b'\0\1' + b'\xff' * (k - 3 - 35 - n) + b'\0' + di + h + b'\0' * n))
    em('garbage before %d' % n, (b'\0\1' + b'\xff' * (k - 3 - 35 - n) + b'\0' + gen.stream('g', n) + di + h))
  em('no digest info', pad(h))
  em('no NULL', pad(bytes.fromhex('301f300706052b0e03021a0414') + h))
  for i in range(15):
    em('digest info byte %d' % i, kit.flip(good, k - 35 + i, 1 << rng.randrange(8)))
  for i in range(20):
    em('hash byte %d' % i, kit.flip(good, k - 20 + i, 1 << rng.randrange(8)))
  for i in range(0, 20):
    em('hash cut %d' % i, good[:k - 20] + h[:i] + b'\0' * (20 - i))
  em('md5', pad(bytes.fromhex('3020300c06082a864886f70d020505000410') + hashlib.md5(data + b'\0').digest()))
  if k >= 64:
    em('sha256', pad(bytes.fromhex('3031300d060960864801650304020105000420') + hashlib.sha256(data + b'\0').digest()))
  em('unversioned hash', ref.emsa(data, k))
  em('empty hash', ref.emsa(b'', k))
  em('hash of other', ref.emsa(data + b'\1', k))
  em('short padding', b'\0\1' + b'\xff' * 8 + b'\0' + di + h)
  em('hash only', h)
  em('digest info only', di + h)
  em('zero', b'')
  for v in (0, 1, 2, key.n - 1, key.n, key.n + 1, ref.b2i(good), key.n - ref.b2i(blob[5:]), ref.b2i(blob[5:]) + 1,
            ref.b2i(blob[5:]) * 2 % key.n, ref.b2i(blob[5:]) ^ 1, 1 << (8 * k - 1), ref.b2i(h),
            ref.b2i(blob[5:]) + key.n, ref.b2i(blob[5:]) + 2 * key.n, ref.b2i(blob[5:]) + 300 * key.n):
    t.plain('rsa-crafted', data, b'\0' + key.id + v.to_bytes(k + 2, 'big').lstrip(b'\0'), v.bit_length())
    t.unversioned('rsa-crafted', data, v.to_bytes(k + 2, 'big').lstrip(b'\0'), v.bit_length())


def _DsaCraft(mon, case, t, key, data, blob, un):
  q = key.q
  r, s = ref.parse_dsa_sig(blob[5:])

  def rs(name, a, b):
    sig = ref.der_seq(_der(a), _der(b))
    t.plain('dsa-crafted', data, b'\0' + key.id + sig, name)
    t.unversioned('dsa-crafted', data, sig, name)

  def _der(v):
    if v >= 0:
      return ref.der_int(v)
    n = (v.bit_length() + 8) // 8
    b = v.to_bytes(n, 'big', signed=True)
    return b'\2' + ref.der_len(len(b)) + b

  vals = [0, 1, 2, -1, q, q - 1, q + 1, -q, 2 * q, r, s, r + q, s + q, q - r, q - s, r - q, s - q, r + 1, s + 1, key.p,
          key.g % q, key.y % q, 1 << 160, 1 << 2000, r ^ 1, s ^ 1, pow(s, -1, q)]
  for a in vals:
    for b in vals:
      rs('%d,%d' % (vals.index(a), vals.index(b)), a, b)
  di, ds = ref.der_int(r), ref.der_int(s)
  odd = [('only r', ref.der_seq(di)), ('three', ref.der_seq(di, ds, ds)), ('swapped', ref.der_seq(ds, di)),
         ('empty seq', b'\x30\0'), ('empty', b''), ('octets', ref.der_seq(ref.der_octets(ref.i2b(r)), ds)),
         ('nested', ref.der_seq(ref.der_seq(di, ds))), ('raw', r.to_bytes(20, 'big') + s.to_bytes(20, 'big')),
         ('null', b'\5\0'), ('bool', b'\1\1\xff'), ('set', b'\x31' + blob[6:]), ('indefinite', b'\x30\x80' + di + ds + b'\0\0'),
         ('zero ints', ref.der_seq(b'\2\0', b'\2\0')), ('null ints', ref.der_seq(b'\5\0', b'\5\0')),
         ('bools', ref.der_seq(b'\1\1\xff', b'\1\1\xff'))]
  for name, sig in odd:
    t.plain('dsa-crafted', data, b'\0' + key.id + sig, name)
    t.unversioned('dsa-crafted', data, sig, name)
  # genuine signatures of other messages with the same nonce
  for m in (b'', data, data + b'\1', b'\0' + data, data + b'\0\0'):
    a, b = key.sign_rs(m, 12345)
    rs('other message', a, b)


def _Tag(mon, case, t, key, data, blob, un):
  for head, tag, sub in ((blob[:5], blob[5:], lambda m, c: t.plain('tag', data, blob[:5] + m, c)),
                         (b'', un, lambda m, c: t.unversioned('tag', data, m, c))):
    for i in range(20):
      for j in range(i + 1, 20):
        sub(kit.flip(kit.flip(tag, i, 0x55), j, 0x55), ('xor', i, j))
        sub(kit.set_byte(kit.set_byte(tag, i, (tag[i] + 1) % 256), j, (tag[j] - 1) % 256), ('sum', i, j))
        p = list(tag)
        p[i], p[j] = p[j], p[i]
        sub(bytes(p), ('swap', i, j))
      sub(tag[i:] + tag[:i], ('rot', i))
      sub(tag[:i], ('cut', i))
      sub(tag[:i] + b'\0' * (20 - i), ('zero', i))
      for v in range(0, 256, 5):
        sub(kit.set_byte(tag, i, v), ('byte', i, v))
    sub(tag[::-1], 'rev')
    for k in (b'', b'\0' * 32, ref.b64(key.key).encode(), key.key[:31], key.key[::-1], key.id):
      sub(ref.hmac_sha1(k, data + (b'\0' if head else b'')), 'other key')
    sub(ref.sha1(data), 'sha1')
    sub(ref.sha1(key.key + data + b'\0'), 'sha1 prefix')
    import hmac as h
    sub(h.new(key.key, data + b'\0', 'sha256').digest()[:20], 'sha256')
    sub(h.new(key.key, data + b'\0', 'md5').digest(), 'md5')


_RUN = {'msg': _Msg, 'long': _Long, 'sig': _Sig, 'random': _Random, 'rsacraft': _RsaCraft, 'dsacraft': _DsaCraft, 'tag': _Tag}
