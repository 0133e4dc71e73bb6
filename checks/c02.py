"""C02: an altered ciphertext never decrypts."""
import random

from kzmon import gen, kit, ref
from kzmon.env import B, LIBS, S, CryptLib, errors, kz, util

ID = 'C02'
LEVEL = 'exploration'
RULE = ('one evaluation = one modified ciphertext submitted to Decrypt; non-trivial: it differs from the genuine '
        'ciphertext after decoding; distinct by (kind of change, position class, ciphertext length, key size, library)')
REQUIRED = ('mutant:bit', 'mutant:byte', 'mutant:truncated', 'mutant:extended', 'mutant:block', 'mutant:splice',
            'mutant:relabel', 'mutant:tag', 'mutant:random', 'mutant:text', 'genuine:ok', 'rsa:bit', 'rsa:edit', 'rsa:relabel', 'rsa:malformed', 'rsa:wellformed')
ASSUMPTIONS = ['HMAC-SHA1 is unforgeable: a random modification is never valid by chance']


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 10
  i = 0
  for n in (0, 1, 7, 15, 16, 17, 31, 32, 33, 48, 80):
    for bits in (128, 192, 256):
      for lib in LIBS:
        i += 1
        yield {'k': 'flip', 'key': 'aes%d:%d' % (bits, i), 'msg': [gen.PATTERNS[i % len(gen.PATTERNS)], n, i], 'lib': lib,
               'text': i % 2}
        yield {'k': 'shape', 'key': 'aes%d:%d' % (bits, i), 'msg': [gen.PATTERNS[i % len(gen.PATTERNS)], n, i], 'lib': lib,
               'text': i % 2}
  for i in range(8 * mult):
    yield {'k': 'tagbytes', 'key': 'aes%d:%d' % ((128, 192, 256)[i % 3], 1000 + i), 'msg': ['rand', i * 3, i],
           'lib': LIBS[i % 2], 'text': 0}
  for i in range(24 * mult):
    yield {'k': 'tag', 'key': 'aes%d:%d' % ((128, 192, 256)[i % 3], 2000 + i),
           'msg': ['rand', (0, 5, 16, 100, 4096, 65536)[i % 6], i], 'lib': LIBS[i % 2], 'text': 0, 'salt': i}
  for i in range(30 * mult):
    yield {'k': 'block', 'key': 'aes%d:%d' % ((128, 192, 256)[i % 3], 3000 + i),
           'msg': [('rand', 'zero', 'text')[i % 3], (33, 64, 100, 160, 33, 48)[i % 6] + i % 7, i],
           'lib': LIBS[i % 2], 'text': 0}
  for i in range(12 * mult):
    n = rng.choice((2, 3, 6))
    keys = gen.aes_keys(rng, n)
    if i % 3 == 0:
      keys = keys + ['sharedhmac', 'sharedaes']
    yield {'k': 'relabel', 'keys': keys, 'msg': ['rand', rng.choice((0, 3, 16, 40)), i], 'lib': LIBS[i % 2]}
  for i in range(60 * mult):
    big = i % 10 == 0
    yield {'k': 'random', 'key': 'aes%d:%d' % (rng.choice((128, 192, 256)), i), 'msg': gen.msg(rng, big=big),
           'lib': rng.choice(LIBS), 'text': i % 2, 'salt': rng.randrange(1 << 30),
           'n': 60}
  for i in range(10 * mult):
    yield {'k': 'large', 'key': 'aes128:%d' % i, 'msg': ['rand', (4096, 8192 - 21, 65536, 65535, 100000)[i % 5], i],
           'lib': LIBS[i % 2], 'text': 0, 'salt': i}
  for i, n in enumerate(gen.HUGE + gen.ENORMOUS[1:2]):
    yield {'k': 'large', 'key': 'aes128:%d' % i, 'msg': ['rand', n, i], 'lib': LIBS[i % 2], 'text': 0, 'salt': i}
  pools = ('rsa512:0', 'rsa512:1', 'rsa768:0', 'rsa1024:0', 'rsa1024:1', 'rsaedge:0', 'rsaedge:1', 'rsaedge:2', 'rsaedge:3', 'rsa2048:0')
  for i, spec in enumerate(pools * mult):
    for part in range(4):
      yield {'k': 'rsa', 'key': spec, 'salt': i, 'part': part, 'lib': LIBS[0], 'text': i % 2}
  for i in range(20 * mult):
    yield {'k': 'chars', 'key': 'aes128:%d' % i, 'msg': ['rand', i % 20, i], 'lib': LIBS[i % 2], 'salt': i}


class _Target(object):

  def __init__(self, mon, case, ks):
    self.mon, self.case = mon, case
    self.c = kit.opened(mon, kz.Crypter, ks)
    self.kind = case.get('key', case.get('keys', ['?'])[0]).split(':')[0]

  def genuine(self, data, enc=None):
    """A fresh genuine ciphertext."""
    ct = B(self.mon.must('Encrypt', (enc or self.c).Encrypt, S(data), None))
    self.ok(ct, data)
    return ct

  def ok(self, ct, data):
    o = self.mon.call(self.c.Decrypt, S(ct), None)
    self.mon.check(o.ok and B(o.value) == data, 'a genuine ciphertext of %d bytes does not decrypt: %r'
                   % (len(ct), o))
    self.mon.event('genuine:ok')

  def bad(self, what, m, ct, cls=None):
    if m == ct:
      return
    mon = self.mon
    text = self.case.get('text') and len(m) < 4000
    if text:
      o = mon.call(self.c.Decrypt, ref.b64(m))
    else:
      o = mon.call(self.c.Decrypt, S(m), None)
    mon.event('mutant:' + what)
    if o.ok or not isinstance(o.exc, errors.KeyczarError):
      mon.judged += 1
      where = [i for i in range(min(len(m), len(ct))) if m[i] != ct[i]]
      mon.violate('an altered AES ciphertext (%s; %d bytes, genuine %d bytes; %d bytes differ, first at %s; '
                  'IV at 5, cipher at 21, tag in the last 20) is not refused with a KeyczarError: %r'
                  % (what, len(m), len(ct), len(where), where[:1], o), altered=m[:3000], genuine=ct[:3000],
                  traceback=o.tb)
    mon.judged += 1
    mon.distinct(what, cls, len(ct), self.kind, self.case['lib'])


def pos_class(i, n):
  if i < 1:
    return 'version'
  if i < 5:
    return 'id%d' % i
  if i < 21:
    return 'iv%d' % (i - 5)
  if i >= n - 20:
    return 'tag%d' % (i - (n - 20))
  return 'c%d' % (i - 21)


def run(mon, case):
  with CryptLib(case['lib']):
    if case['k'] == 'relabel':
      return _Relabel(mon, case)
    if case['k'] == 'rsa':
      return _Rsa(mon, case)
    key = gen.key(case['key'])
    t = _Target(mon, case, gen.keyset({'keys': [case['key']]}))
    data = gen.message(case['msg'])
    ct = t.genuine(data)
    _RUN[case['k']](mon, case, t, key, data, ct)
    t.ok(ct, data)


def _Flip(mon, case, t, key, data, ct):
  for i in range(len(ct)):
    for b in range(8):
      t.bad('bit', kit.flip(ct, i, 1 << b), ct, (pos_class(i, len(ct)), b))
    for v in (0, 255, ct[i] ^ 255, (ct[i] + 1) % 256, (ct[i] - 1) % 256):
      t.bad('byte', kit.set_byte(ct, i, v), ct, (pos_class(i, len(ct)), 'v'))


def _Shape(mon, case, t, key, data, ct):
  n = len(ct)
  for i in range(n):
    t.bad('truncated', ct[:i], ct, ('pre', i))
    t.bad('truncated', ct[i + 1:], ct, ('suf', i))
    t.bad('truncated', ct[:i] + ct[i + 1:], ct, ('del', i))
    if i + 16 <= n:
      t.bad('truncated', ct[:i] + ct[i + 16:], ct, ('del16', i))
    t.bad('extended', ct[:i] + b'\0' + ct[i:], ct, ('ins0', i))
    t.bad('extended', ct[:i] + ct[i:i + 1] + ct[i:], ct, ('dup', i))
    t.bad('extended', ct[:i] + ct[i:i + 16] + ct[i:], ct, ('dup16', i))
  for i in range(1, 50):
    t.bad('extended', ct + b'\0' * i, ct, ('app0', i))
    t.bad('extended', b'\0' * i + ct, ct, ('pre0', i))
    t.bad('extended', ct + gen.stream('x', i), ct, ('app', i))
  t.bad('extended', ct + ct, ct, 'twice')
  t.bad('extended', ct + ct[5:], ct, 'twice-body')
  t.bad('extended', ct + ct[-20:], ct, 'tag-twice')
  t.bad('extended', ct[:-20] + b'\0' * 16 + ct[-20:], ct, 'zero-block')


def _TagBytes(mon, case, t, key, data, ct):
  n = len(ct)
  for i in list(range(n - 20, n)) + [0, 1, 4, 5, 20, 21, n - 21]:
    for v in range(256):
      t.bad('byte', kit.set_byte(ct, i, v), ct, (pos_class(i, n), v))


def _Tag(mon, case, t, key, data, ct):
  body, tag = ct[:-20], ct[-20:]
  n = len(ct)
  for i in range(20):
    for j in range(i + 1, 20):
      for mask in (1, 0x80, 0xff):
        t.bad('tag', kit.flip(kit.flip(ct, n - 20 + i, mask), n - 20 + j, mask), ct, ('xor', i, j, mask))
      m = kit.set_byte(ct, n - 20 + i, (tag[i] + 1) % 256)
      t.bad('tag', kit.set_byte(m, n - 20 + j, (tag[j] - 1) % 256), ct, ('sum', i, j))
      p = list(tag)
      p[i], p[j] = p[j], p[i]
      t.bad('tag', body + bytes(p), ct, ('swap', i, j))
  for r in range(1, 20):
    t.bad('tag', body + tag[r:] + tag[:r], ct, ('rot', r))
    t.bad('tag', body + tag[:r] + b'\0' * (20 - r), ct, ('keep', r))
    t.bad('tag', body + b'\0' * (20 - r) + tag[-r:], ct, ('keepend', r))
    t.bad('tag', body + tag[:r], ct, ('cut', r))
    t.bad('tag', body + tag[-r:], ct, ('cutfront', r))
  for v in range(256):
    t.bad('tag', body + bytes([v]) * 20, ct, ('const', v))
  t.bad('tag', body + tag[::-1], ct, 'reversed')
  t.bad('tag', body + bytes(x ^ 255 for x in tag), ct, 'inverted')
  t.bad('tag', body, ct, 'removed')
  # tags over other things, as if a part were not authenticated, and tags that need no key
  for name, m in (('no-header', body[5:]), ('no-version', body[1:]), ('no-iv', body[:5] + body[21:]),
                  ('header-only', body[:5]), ('iv-only', body[5:21]), ('empty', b''), ('cipher-only', body[21:]),
                  ('plain', data)):
    t.bad('tag', body + ref.hmac_sha1(key.hmac, m), ct, name)
  for name, k in (('aes-key', key.key), ('empty-key', b''), ('zero-key', b'\0' * 32), ('text-key', ref.b64(key.hmac).encode())):
    t.bad('tag', body + ref.hmac_sha1(k, body), ct, name)
  t.bad('tag', body + ref.sha1(body), ct, 'sha1')
  t.bad('tag', body + ref.sha1(key.hmac + body), ct, 'sha1-prefix')


def _Block(mon, case, t, key, data, ct):
  head, body, tag = ct[:5], ct[5:-20], ct[-20:]
  blocks = [body[i:i + 16] for i in range(0, len(body), 16)]
  for i in range(len(blocks)):
    t.bad('block', head + b''.join(blocks[:i] + blocks[i + 1:]) + tag, ct, ('rm', i))
    t.bad('block', head + b''.join(blocks[:i + 1] + blocks[i:]) + tag, ct, ('dup', i))
    t.bad('block', head + b''.join(blocks[:i] + [b'\0' * 16] + blocks[i + 1:]) + tag, ct, ('zero', i))
    for j in range(i + 1, len(blocks)):
      l = list(blocks)
      l[i], l[j] = l[j], l[i]
      t.bad('block', head + b''.join(l) + tag, ct, ('swap', i, j))
  # padding oracle style change of the last-but-one block
  for v in range(1, 256):
    t.bad('block', kit.flip(ct, len(ct) - 37, v), ct, ('cbc', v))
  # spliced with another ciphertext of the same key
  other = t.genuine(gen.message(['rand', len(data), 99]))
  for name, m in (('tag', ct[:-20] + other[-20:]), ('iv', ct[:5] + other[5:21] + ct[21:]),
                  ('body', ct[:21] + other[21:-20] + ct[-20:]), ('ivbody', ct[:5] + other[5:-20] + ct[-20:]),
                  ('lastblock', ct[:-36] + other[-36:-20] + ct[-20:]), ('half', ct[:len(ct) // 2] + other[len(ct) // 2:])):
    t.bad('splice', m, ct, name)
  shorter = t.genuine(data[:-17])
  t.bad('splice', ct[:-20] + shorter[-20:], ct, 'tag-of-shorter')
  t.bad('splice', shorter[:-20] + ct[-20:], ct, 'shorter-with-tag')


def _Random(mon, case, t, key, data, ct):
  rng = random.Random(case['salt'])
  for m in kit.mutants(rng, ct, case['n']):
    t.bad('random', m, ct, len(m) - len(ct))


def _Large(mon, case, t, key, data, ct):
  rng = random.Random(case['salt'])
  n = len(ct)
  pos = set([0, 1, 4, 5, 20, 21, 36, 37, n - 1, n - 20, n - 21, n - 36, n - 37, n // 2])
  for b in (4096, 8192, 16384, 32768, 65536):
    pos |= set(x for x in (b - 1, b, b + 1, b + 21, b + 5) if x < n)
  for b in (1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21):
    pos |= set(x for x in (b + 20, b + 21, b + 30) if x < n)
  while len(pos) < (80 if n < 200000 else 40):
    pos.add(rng.randrange(n))
  for i in sorted(pos):
    t.bad('bit', kit.flip(ct, i, 1 << rng.randrange(8)), ct, ('large', pos_class(i, n)))
  for i in sorted(pos)[::6 if n < 200000 else 12]:
    t.bad('truncated', ct[:i], ct, ('large', i))
    t.bad('truncated', ct[:i] + ct[i + 16:], ct, ('large16', i))


def _Chars(mon, case, t, key, data, ct):
  """Changes made to the Base64 text."""
  rng = random.Random(case['salt'])
  text = mon.must('Encrypt', t.c.Encrypt, S(data))
  raw = ref.unb64(text)
  o = mon.call(t.c.Decrypt, text)
  mon.check(o.ok and B(o.value) == data, 'a genuine ciphertext does not decrypt: %r' % o)
  alphabet = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
  todo = []
  for i in range(len(text)):
    for c in rng.sample(alphabet, 6):
      todo.append((i, text[:i] + c + text[i + 1:]))
    todo.append((i, text[:i] + text[i + 1:]))
    todo.append((i, text[:i] + rng.choice(alphabet) + text[i:]))
  for i, m in todo:
    try:
      same = ref.unb64(m) == raw
    except Exception:
      same = False
    # unused bits of the last character do not count
    if same or m == text or (len(m) == len(text) and m[:-1] == text[:-1] and _SameBytes(m, raw)):
      continue
    o = mon.call(t.c.Decrypt, m)
    mon.event('mutant:text')
    mon.check(kit.refused(o), lambda: 'an altered Base64 ciphertext (character %d of %d) is not refused: %r'
              % (i, len(text), o), altered=m, genuine=text)
    mon.distinct('text', i, len(text))


def _SameBytes(m, raw):
  import base64
  return base64.urlsafe_b64decode(m + '=' * (-len(m) % 4)) == raw


def _Relabel(mon, case):
  keys = []
  for spec in case['keys']:
    if spec == 'sharedhmac':
      keys.append(ref.AesK(gen.stream('other', 16), keys[0].hmac))
    elif spec == 'sharedaes':
      keys.append(ref.AesK(keys[0].key, gen.stream('otherhmac', 32)))
    else:
      keys.append(gen.key(spec))
  data = gen.message(case['msg'])
  cts = []
  for i in range(len(keys)):
    ks = ref.KeySet('DECRYPT_AND_ENCRYPT', 'AES', [
        ref.Version(j + 1, 'PRIMARY' if j == i else 'ACTIVE', k) for j, k in enumerate(keys)])
    t = _Target(mon, case, ks)
    cts.append(t.genuine(data))
  for i, ct in enumerate(cts):
    t.ok(ct, data)
    for j, k in enumerate(keys):
      if i != j:
        t.bad('relabel', ct[:1] + k.id + ct[5:], ct, (i, j, case['keys'][j]))
        t.bad('relabel', ct[:-20] + cts[j][-20:], ct, ('tag', i, j))
        t.bad('relabel', cts[j][:21] + ct[21:], ct, ('iv', i, j))
    for v in range(1, 256):
      t.bad('relabel', bytes([v]) + ct[1:], ct, ('version', v))
    for k in ('aes128:77777', 'aes256:77778'):
      t.bad('relabel', ct[:1] + gen.key(k).id + ct[5:], ct, ('unknown', k))
    t.bad('relabel', b'\0' * 5 + ct[5:], ct, 'zeroid')


def _Rsa(mon, case):
  rng = random.Random('%s' % case)
  spec = case['key']
  key = gen.key(spec)
  others = [gen.key(s) for s in ('rsa1024:5', 'rsa512:1', 'rsa1024:6') if s != spec]
  t = _Target(mon, case, ref.KeySet('DECRYPT_AND_ENCRYPT', 'RSA_PRIV', [ref.Version(1, 'PRIMARY', key)] + [
      ref.Version(j + 2, 'ACTIVE', k) for j, k in enumerate(others)]))
  data = gen.stream('rsa%s' % case['salt'], rng.choice((0, 1, 5, key.k - 42)))
  seed = rng.randbytes(20)

  def bad(what, m):
    if m[:5] == ct[:5] and ref.b2i(m[5:]) == ref.b2i(ct[5:]):
      return    # the same number
    o = mon.call(t.c.Decrypt, ref.b64(m)) if case['text'] else mon.call(t.c.Decrypt, S(m), None)
    mon.check(kit.refused(o), lambda: 'an altered RSA ciphertext (%s; %s) is not refused with a KeyczarError: %r' % (what, spec, o),
              altered=m, genuine=ct, traceback=o.tb)
    mon.event('rsa:' + what.split(' ')[0])
    mon.distinct('rsa', what, spec, len(m))

  ct = t.genuine(data) if rng.random() < .5 else key.encrypt(data, seed)
  t.ok(ct, data)
  n, part = len(ct), case['part']
  if part == 0:
    bits = list(range(8 * n))
    for i in bits if key.k <= 64 else rng.sample(bits, 40 if key.k > 128 else 120):
      bad('bit', kit.flip(ct, i // 8, 1 << i % 8))
  elif part == 1:
    for m in kit.mutants(rng, ct, 40 if key.k <= 128 else 12):
      bad('edit', m)
    for i in (1, 4, 5, 6, 20, n // 2, n - 1):
      bad('edit', ct[:i])
      bad('edit', ct[:i] + ct[i + 1:])
      bad('edit', ct[:i] + b'\0' + ct[i:])
    bad('edit', ct + b'\0')
    bad('edit', ct + ct[5:])
    c = ref.b2i(ct[5:])
    for x in (c + key.n, key.n - c, c * 2 % key.n, c * pow(2, key.e, key.n) % key.n, pow(c, key.e, key.n), c + 1, c - 1):
      bad('edit', ct[:5] + x.to_bytes(max(key.k, (x.bit_length() + 7) // 8), 'big'))
  elif part == 2:
    for k in others + [gen.key('rsa1024:7'), gen.key('aes128:1')]:
      bad('relabel', ct[:1] + k.id + ct[5:])
    for v in (1, 2, 128, 255):
      bad('relabel', bytes([v]) + ct[1:])
  else:
    lhash, room = ref.sha1(b''), key.k - 41      # what follows the label hash has k - 41 bytes
    for i in range(30):
      seed = rng.randbytes(20) if i % 4 else b'\0' * 20
      body = rng.choice((
          b'\0' * room,                                            # no delimiter
          b'\0' * (room - 1) + bytes([rng.randrange(2, 256)]),     # something else as delimiter
          bytes([rng.randrange(2, 256)]) + b'\1' + b'x' * (room - 2),
          b'\0' * (room // 2) + bytes([rng.randrange(2, 256)]) + b'\1' + b'x' * (room - room // 2 - 2),
          b'\xff' * room,
          None, None, None))
      first = 0
      if body is None:
        body = b'\0' * (room - 4) + b'\1abc'
        kind = rng.randrange(3)
        if kind == 0:
          lh = kit.flip(lhash, rng.randrange(20), 1 << rng.randrange(8))
        elif kind == 1:
          lh = rng.choice((b'\0' * 20, ref.sha1(b'label'), ref.sha1(b'\0'), lhash[1:] + b'\0'))
        else:
          lh, first = lhash, 1
      else:
        lh = lhash
      em = ref.oaep_mask(lh + body, seed, first)
      if ref.b2i(em) >= key.n:
        continue
      x = pow(ref.b2i(em), key.e, key.n)
      bad('malformed %s' % ('first' if first else 'hash' if lh != lhash else 'body'), ct[:5] + x.to_bytes(key.k, 'big'))
    # and what is well-formed is accepted
    for body in (b'\1' + b'\0' * (room - 1), b'\0' * (room - 1) + b'\1', b'\0' + b'\1' * (room - 1), b'\1' * room):
      em = ref.oaep_mask(lhash + body, rng.randbytes(20))
      t.ok(ct[:5] + pow(ref.b2i(em), key.e, key.n).to_bytes(key.k, 'big'), body.lstrip(b'\0')[1:])
      mon.event('rsa:wellformed')
  t.ok(ct, data)


_RUN = {'flip': _Flip, 'shape': _Shape, 'tagbytes': _TagBytes, 'tag': _Tag, 'block': _Block, 'random': _Random,
        'large': _Large, 'chars': _Chars}
