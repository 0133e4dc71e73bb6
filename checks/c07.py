"""C07: attached signatures bind the exact data and nonce."""
import random

from kzmon import gen, kit, ref
from kzmon.env import B, S, errors, kz

ID = 'C07'
LEVEL = 'exploration'
RULE = ('one evaluation = one (blob, nonce) pair given to AttachedVerify; non-trivial: blob or nonce differ from what '
        'was signed, or a genuine pair was accepted with its exact data; distinct by (key kind, kind of change, data '
        'length, nonce lengths)')
REQUIRED = ('genuine', 'nonce', 'boundary', 'length-field', 'trailing', 'detached', 'blob-edit', 'pair', 'empty-data',
            'empty-nonce', 'no-nonce', 'long-nonce', 'long-data')


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 8
  kinds = ('hmac', 'rsa1024', 'dsa')
  for kind in kinds:
    yield {'k': 'ambiguous', 'key': '%s:1' % kind, 'salt': 0}
  for i in range(8 * mult):
    for kind in kinds:
      yield {'k': 'family', 'key': '%s:%d' % (kind, i), 'salt': i}
  for i in range(30 * mult):
    for kind in kinds:
      yield {'k': 'one', 'key': '%s:%d' % (kind, i),
             'msg': gen.msg(rng, maxlen=60) if i % 6 else gen.msg(rng), 'nonce': gen.msg(rng, maxlen=30), 'salt': i}

  lens = (31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 5000, 65535, 65536,
          65537, 65541, 100003, 1 << 17, (1 << 20) + 1)
  for i, n in enumerate(lens if mult == 1 else lens * 3):
    for kind in kinds:
      yield {'k': 'long', 'key': '%s:%d' % (kind, i), 'msg': ['rand', (7, 0, 100, 65536)[i % 4], i], 'nonce': n, 'salt': i}
      yield {'k': 'long', 'key': '%s:%d' % (kind, i), 'msg': ['rand', n, i], 'nonce': (7, 1, 100)[i % 3], 'salt': i}


class T(object):

  def __init__(self, mon, spec):
    self.mon, self.kind = mon, spec.split(':')[0]
    self.key = gen.key(spec)
    ks = gen.keyset({'keys': [spec], 'purpose': 'sign'})
    self.signer = kit.opened(mon, kz.Signer, ks)
    self.verifiers = [self.signer, kit.opened(mon, kz.Verifier, ks if self.kind == 'hmac' else ks.public())]
    self.n = 0

  def _Call(self, blob, nonce):
    self.n += 1
    v = self.verifiers[self.n % 2]
    n = None if nonce is None else S(nonce)
    if self.n % 3:
      return self.mon.call(v.AttachedVerify, S(blob), n, None)
    return self.mon.call(v.AttachedVerify, ref.b64(blob), n)

  def ok(self, data, nonce, blob):
    o = self._Call(blob, nonce)
    self.mon.check(o.ok and o.value is not None and B(o.value) == data,
                   lambda: 'AttachedVerify of a genuine blob (%s, data %d, nonce %d bytes): %r'
                   % (self.kind, len(data), len(nonce), o), blob=blob, traceback=o.tb)
    self.mon.event('genuine')
    if not data:
      self.mon.event('empty-data')
    if not nonce:
      self.mon.event('empty-nonce')

  def sign(self, data, nonce):
    blob = B(self.mon.must('AttachedSign', self.signer.AttachedSign, S(data), S(nonce), None))
    self.ok(data, nonce, blob)
    return blob

  def bad(self, what, blob, nonce, genuine, cls=None):
    """genuine: (data, nonce, blob) that was signed."""
    mon = self.mon
    if blob == genuine[2] and nonce == genuine[1]:
      return
    if _Ambiguous(blob, nonce, genuine):
      # the format signs the same text for both: see case 'ambiguous' and known_findings.txt
      mon.event('skipped:ambiguous-by-format')
      return
    o = self._Call(blob, nonce)
    mon.event(what)
    if o.ok and o.value is not None:
      # may be right after all: other encodings of the same signature of the same data
      try:
        head, d, s = ref.attached_parts(blob)
        right = (nonce == genuine[1] and d == genuine[0] and B(o.value) == d and head == genuine[2][:5] and
                 self._SameSig(s, genuine[2][9 + len(d):]))
      except Exception:
        right = False
      mon.check(right, lambda: 'AttachedVerify returns data that was not signed like this (%s, %s %s): signed data '
                'of %d bytes with a nonce of %d bytes, given nonce: %s, returned %r'
                % (self.kind, what, cls, len(genuine[0]), len(genuine[1]),
                   'None' if nonce is None else len(nonce), o), blob=blob, nonce=nonce, signed_data=genuine[0],
                signed_nonce=genuine[1])
    else:
      mon.check(kit.rejected(o), lambda: 'AttachedVerify fails in an undocumented way (%s, %s): %r'
                % (self.kind, what, o), blob=blob, nonce=nonce, traceback=o.tb)
    mon.distinct(self.kind, what, cls, len(genuine[0]), len(genuine[1]))

  def _SameSig(self, a, b):
    if self.kind == 'hmac':
      return a == b
    if self.kind == 'dsa':
      from checks import c06
      return c06.dsa_lenient(a) == c06.dsa_lenient(b)
    return ref.b2i(a) % self.key.n == ref.b2i(b) % self.key.n


def _Text(data, nonce):
  return data + b'\0' if nonce is None else ref.attached_message(data, nonce)


def _Ambiguous(blob, nonce, genuine):
  try:
    head, d, s = ref.attached_parts(blob)
  except Exception:
    return False
  return (d, nonce) != genuine[:2] and _Text(d, nonce) == _Text(*genuine[:2])


def family():
  """(data, nonce) pairs whose concatenations coincide in many ways."""
  base = b'ab' + ref.u32(2) + b'cd'
  out = []
  for i in range(len(base) + 1):
    out.append((base[:i], base[i:]))
  for d, n in ((b'', b''), (b'', b'\0'), (b'\0', b''), (b'a', b''), (b'', b'a'), (b'a', b'a'), (b'aa', b''), (b'', b'aa'),
               (ref.u32(0), b''), (b'', ref.u32(0)), (b'\0' * 4, b'\0' * 4), (b'\0' * 8, b''), (b'', b'\0' * 8),
               (b'a' + ref.u32(1), b''), (b'a', ref.u32(0)), (b'a' + ref.u32(4), b'\0' * 4)):
    out.append((d, n))
  return out



def _Long(mon, case, t, rng):
  """Long data or a long nonce: every byte of both is bound, and so are their lengths."""
  data = gen.message(case['msg'])
  n = case['nonce']
  inner = gen.stream('y%s' % case['salt'], min(5, n))
  # the nonce itself ends like the signed text of a shorter nonce
  rest = max(0, n - len(inner) - 4)
  nonce = (gen.stream('x%s' % case['salt'], rest) + ref.u32(len(inner)) + inner)[-n:]
  blob = t.sign(data, nonce)
  g = (data, nonce, blob)
  sig = blob[9 + len(data):]
  for what, text, make in (('long-nonce', nonce, lambda m: (blob, m)),
                           ('long-data', data, lambda m: (blob[:5] + ref.u32(len(m)) + m + sig, nonce))):
    k = len(text)
    pos = set([0, 1, k // 2, k - 1, k - 2, k - 16, k - 20]) | set(rng.randrange(k) for _ in range(6) if k)
    for b in (16, 20, 32, 64, 128, 255, 256, 512, 1024, 4096, 65535, 65536, 1 << 17, 1 << 20):
      pos |= set((b, b - 1, b + 1))
    for i in sorted(p for p in pos if 0 <= p < k):
      t.bad(what, *make(kit.flip(text, i, 1 << rng.randrange(8))), genuine=g, cls=('flip', i))
    for i in sorted(p for p in pos if 0 <= p < k)[-12:]:
      t.bad(what, *make(text[:i]), genuine=g, cls=('cut', i))
      t.bad(what, *make(text[:i] + text[i + 1:]), genuine=g, cls=('del', i))
    for m in (text + b'\0', text + b'x', b'\0' + text, text + text, b''):
      t.bad(what, *make(m), genuine=g, cls=('len', len(m)))
  if rest:
    # moved boundaries that work if a length is shortened, or written in another way
    for pre in (b'', ref.u32(n & 0xff), ref.u32(n & 0xffff), ref.u32(n & 0xfff), ref.u32(n & 0x7f), bytes([n & 255]),
                (n & 0xffff).to_bytes(2, 'big'), n.to_bytes(4, 'little'), ref.u32(0), ref.u32(rest), str(n).encode()):
      for cut in (rest, rest + 4):
        d = data + pre + nonce[:cut]
        for nn in (inner, nonce[cut:], b''):
          t.bad('boundary', blob[:5] + ref.u32(len(d)) + d + sig, nn, g, ('long', pre, cut - rest))
  t.ok(data, nonce, blob)


def run(mon, case):
  t = T(mon, case['key'])
  rng = random.Random('%s' % case)
  if case['k'] == 'ambiguous':
    # signed text: data | len(nonce) | nonce | 0, the data's own length is not in it
    data, nonce = b'pay 10', b'session' + ref.u32(0)
    blob = t.sign(data, nonce)
    moved = data + ref.u32(len(nonce)) + b'session'
    o = t._Call(blob[:5] + ref.u32(len(moved)) + moved + blob[9 + len(data):], b'')
    mon.event('ambiguous')
    mon.check(kit.rejected(o), 'AttachedVerify accepts a moved boundary: the signed nonce ends in four zero bytes, the '
              'verifier uses the empty nonce', data=data, nonce=nonce)
    return
  if case['k'] == 'family':
    pairs = family()
    signed = [(d, n, t.sign(d, n)) for d, n in pairs]
    for g in signed:
      sig = g[2][9 + len(g[0]):]
      for d, n in pairs:
        if n != g[1]:
          t.bad('pair', g[2], n, g, (g[0], n))
        if d != g[0]:
          t.bad('boundary', g[2][:5] + ref.u32(len(d)) + d + sig, n, g, (d, n))
          t.bad('boundary', g[2][:5] + ref.u32(len(d)) + d + sig, g[1], g, (d, 'same'))
    return
  if case['k'] == 'long':
    return _Long(mon, case, t, rng)
  data, nonce = gen.message(case['msg']), gen.message(case['nonce'])
  blob = t.sign(data, nonce)
  g = (data, nonce, blob)
  sig = blob[9 + len(data):]
  for i in range(len(nonce)):
    t.bad('nonce', blob, kit.flip(nonce, i, 1 << rng.randrange(8)), g, ('flip', i))
    t.bad('nonce', blob, nonce[:i], g, ('cut', i))
    t.bad('nonce', blob, nonce[i + 1:], g, ('front', i))
  for n in (b'\0', b'\0\0', b'x', nonce, b' '):
    t.bad('nonce', blob, nonce + n, g, ('app', n))
    t.bad('nonce', blob, n + nonce, g, ('pre', n))
  t.bad('nonce', blob, b'', g, 'empty')
  t.bad('no-nonce', blob, None, g)
  t.bad('nonce', blob, ref.u32(len(nonce)) + nonce, g, 'packed')
  # boundaries: move bytes between data and nonce or data and signature
  whole = data + ref.u32(len(nonce)) + nonce
  for i in sorted(set([0, 1, len(data) // 2, max(0, len(data) - 1), len(data) + 1, len(data) + 4, len(whole)] +
                      [rng.randrange(len(whole) + 1) for _ in range(6)])):
    if i <= len(whole) and i != len(data):
      d = whole[:i]
      t.bad('boundary', blob[:5] + ref.u32(len(d)) + d + sig, whole[i:], g, i - len(data))
      t.bad('boundary', blob[:5] + ref.u32(len(d)) + d + sig, nonce, g, ('n', i - len(data)))
      t.bad('boundary', blob[:5] + ref.u32(len(d)) + d + sig, None, g, ('None', i - len(data)))
      if i > len(data) + 4:
        t.bad('boundary', blob[:5] + ref.u32(len(d)) + d + sig, whole[i + 4:], g, ('skip', i - len(data)))
  for v in set([0, 1, len(data) + 1, max(0, len(data) - 1), len(data) + 4, len(data) + len(sig), len(data) + len(sig) + 1,
                0x7fffffff, 0x80000000, 0xffffffff, 0xffffffff - len(data), (1 << 32) - len(data) & 0xffffffff,
                256 * len(data) & 0xffffffff]):
    if v != len(data):
      t.bad('length-field', blob[:5] + ref.u32(v) + blob[9:], nonce, g, v)
      t.bad('length-field', blob[:5] + ref.u32(v) + blob[9:], None, g, v)
  for i in range(5, 9):
    for b in range(8):
      t.bad('length-field', kit.flip(blob, i, 1 << b), nonce, g, (i, b))
  for n in (1, 2, 4, 5, 20, 50):
    t.bad('trailing', blob + b'\0' * n, nonce, g, n)
    t.bad('trailing', blob + gen.stream('t', n), nonce, g, ('r', n))
    t.bad('trailing', blob[:-n], nonce, g, ('cut', n))
  t.bad('trailing', blob + blob[5:], nonce, g, 'twice')
  t.bad('trailing', blob + sig, nonce, g, 'sig twice')
  for n in range(0, min(len(blob), 40)):
    t.bad('trailing', blob[:n], nonce, g, ('short', n))
  # detached signatures
  det = B(mon.must('Sign', t.signer.Sign, S(data), None))
  for n in (nonce, b'', None):
    t.bad('detached', det, n, g, 'plain')
    if n is not None:   # without a nonce the signed text is the detached one
      t.bad('detached', det[:5] + ref.u32(len(data)) + data + det[5:], n, g, 'packed')
  un = B(mon.must('Sign', kit.opened(mon, kz.UnversionedSigner, gen.keyset({'keys': [case['key']], 'purpose': 'sign'})).Sign,
                  S(data), None))
  t.bad('detached', det[:5] + ref.u32(len(data)) + data + un, nonce, g, 'unversioned')
  for i in list(range(5)) + [rng.randrange(len(blob)) for _ in range(30)] + list(range(len(blob) - 20, len(blob))):
    t.bad('blob-edit', kit.flip(blob, i, 1 << rng.randrange(8)), nonce, g, i)
  for m in kit.mutants(rng, blob, 30):
    t.bad('blob-edit', m, nonce, g, 'random')
  t.ok(data, nonce, blob)
