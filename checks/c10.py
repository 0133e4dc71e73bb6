"""C10: tag comparison does not reveal where a forged tag differs."""
import sys

from kzmon import gen, kit, ref, shim
from kzmon.env import B, S, kz, keys

ID = 'C10'
LEVEL = 'exploration'
RULE = ('an execution of a verifying operation on one forged tag of the right length, distinct by entry point, key, '
        'message and tag, whose bytecode instruction count, C-call sequence and comparison operands were recorded')
REQUIRED = ('entry:verify', 'entry:attached', 'entry:unversioned', 'entry:decrypt', 'entry:stream',
            'entry:session', 'entry:signed-session', 'entry:key-verify',
            'instructions-counted')
ASSUMPTIONS = ('work is measured in executed bytecode instructions, calls of C functions and native comparisons of '
               'the secret tag; timing inside C code that does not compare strings is not measured',)

ENTRIES = ('verify', 'attached', 'unversioned', 'decrypt', 'stream', 'session', 'signed-session', 'key-verify')


def setup():
  try:
    shim.Preload()
  except Exception:
    pass   # no compiler: the tagged strings still see most native comparisons


def cases(rng, tier):
  n = 3 if tier == 'quick' else 40
  for r in range(n):
    for e in ENTRIES:
      yield {'entry': e, 'msg': gen.msg(rng, maxlen=60 if e == 'stream' else 200), 'salt': rng.randrange(1 << 30),
             'masks': [rng.choice((1, 0x80, 0xff)), rng.randrange(1, 256)]}


class Watch(object):
  """What tagged values were compared with."""
  secret = ''
  on = False
  wide = []      # native comparisons with (part of) the secret
  narrow = 0     # comparisons of single characters


def _text(o):
  if isinstance(o, str):
    return str.__str__(o)
  if isinstance(o, (bytes, bytearray, memoryview)):
    return bytes(o).decode('latin-1')
  return None


def _seen(op, a, b):
  if not Watch.on:
    return
  t = _text(b)
  if t is None:
    return
  if len(a) == 1 and len(t) == 1:
    Watch.narrow += 1
  elif len(t) >= 2 and t in Watch.secret or len(t) >= 20 and Watch.secret in t:
    Watch.wide.append(op)


def _cmp(base, name):
  f = getattr(base, name)

  def op(self, other, *a):
    _seen(name, self, other)
    return f(self, other, *a)
  return op


def _wrap(base, cls, name):
  f = getattr(base, name)

  def op(self, *a, **k):
    r = f(self, *a, **k)
    return cls()(r) if type(r) is base else r
  return op


class TStr(str):
  """A string that reports what it is compared with, and passes this on to its parts."""
  __hash__ = str.__hash__

  def __getitem__(self, i):
    return TStr(str.__getitem__(self, i))

  def __iter__(self):
    return iter([TStr(c) for c in str.__iter__(self)])

  def __add__(self, o):
    return TStr(str.__add__(self, o))

  def __radd__(self, o):
    return TStr(o + str.__str__(self)) if type(o) is str else NotImplemented

  def __str__(self):
    return self

  def encode(self, *a, **k):
    return TBytes(str.encode(self, *a, **k))


class TBytes(bytes):
  __hash__ = bytes.__hash__

  def __getitem__(self, i):
    r = bytes.__getitem__(self, i)
    return TBytes(r) if isinstance(r, bytes) else r

  def decode(self, *a, **k):
    return TStr(bytes.decode(self, *a, **k))

  def __bytes__(self):
    return self


for _n in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__contains__', 'startswith', 'endswith',
           'find', 'index', 'count'):
  setattr(TStr, _n, _cmp(str, _n))
  setattr(TBytes, _n, _cmp(bytes, _n))
for _n in ('join', 'replace', 'strip', 'lstrip', 'rstrip', 'ljust', 'rjust'):
  setattr(TStr, _n, _wrap(str, lambda: TStr, _n))


class TSource(object):

  def __init__(self, s):
    self.s, self.i = TStr(s), 0

  def read(self, n=-1):
    if n is None or n < 0:
      n = len(self.s) - self.i
    r = self.s[self.i:self.i + n]
    self.i += n
    return r


def prepare(case):
  """-> (bytes before the tag, tag, bytes after it, operation(tagged str))."""
  e = case['entry']
  m = gen.message(case['msg'])
  salt = case['salt']
  iv = gen.stream('iv%d' % salt, 16)
  if e in ('verify', 'attached', 'unversioned', 'key-verify'):
    n = {'unversioned': 3}.get(e, 2)
    ks = gen.keyset({'keys': ['hmac:%d' % (salt + i) for i in range(n)], 'status': 'P' + 'A' * (n - 1)})
    k = ks.versions[0].key
    if e == 'verify':
      v = kz.Verifier(ref.MemReader(ks))
      return (b'\0' + k.id, k.sign(m + b'\0'), lambda s: v.Verify(S(m), 'sig', lambda _: s))
    if e == 'attached':
      v = kz.Signer(ref.MemReader(ks))
      nonce = gen.stream('n%d' % salt, 8)
      return (b'\0' + k.id + ref.u32(len(m)) + m, k.sign(ref.attached_message(m, nonce)),
              lambda s: v.AttachedVerify('blob', S(nonce), lambda _: s))
    if e == 'unversioned':
      v = kz.UnversionedVerifier(ref.MemReader(ks))
      return (b'', k.sign(m), lambda s: v.Verify(S(m), 'sig', lambda _: s))
    hk = keys.HmacKey(ref.b64(k.key))
    return (b'', k.sign(m), lambda s: hk.Verify(S(m), s))
  ks = gen.keyset({'keys': ['aes128:%d' % salt, 'aes256:%d' % (salt + 1)], 'status': 'PA'})
  k = ks.versions[0].key
  c = kz.Crypter(ref.MemReader(ks))
  if e in ('decrypt', 'stream'):
    ct = k.encrypt(m, iv)
    if e == 'decrypt':
      return ct[:-20], ct[-20:], lambda s: c.Decrypt('ct', lambda _: s)

    def stream(s):
      r = c.CreateDecryptingStreamReader(TSource(s), None)
      out = []
      while True:
        x = r.read()
        if x == '':
          return ''.join(out)
        if x is not None:
          out.append(x)
    return ct[:-20], ct[-20:], stream
  sk = gen.key('aes128:%d' % (salt + 2))
  if e == 'session':
    material = k.encrypt(ref.u32(2) + ref.u32(16) + sk.key + ref.u32(32) + sk.hmac, iv)
    d = kz.SessionDecrypter(c, ref.b64(material))
    ct = sk.encrypt(m, iv)
    return ct[:-20], ct[-20:], lambda s: d.Decrypt('ct', lambda _: s)
  # signed session: the tag of the attached signature
  enc = kz.SignedSessionEncrypter(c, kz.Signer(ref.MemReader(
      gen.keyset({'keys': ['hmac:%d' % salt]}))))
  v = kz.Verifier(ref.MemReader(gen.keyset({'keys': ['hmac:%d' % salt]})))
  d = kz.SignedSessionDecrypter(c, v, enc.session_material)
  blob = ref.unb64(enc.Encrypt(S(m)))
  return blob[:-20], blob[-20:], lambda s: d.Decrypt(TStr(ref.b64(B(s))))


def measure(fn, arg):
  """-> (number of instructions, C calls, outcome kind)."""
  n = [0]
  ccalls = []

  def local(frame, event, a):
    if event == 'opcode':
      n[0] += 1
    return local

  def tracer(frame, event, a):
    if frame.f_globals.get('__name__') in (__name__, 'checks.c10'):
      return None
    frame.f_trace_opcodes = True
    frame.f_trace_lines = False
    return local

  def prof(frame, event, a):
    if event == 'c_call' and frame.f_globals.get('__name__', '').startswith('keyczar'):
      ccalls.append(getattr(a, '__name__', '?'))

  Watch.wide, Watch.narrow = [], 0
  Watch.on = True
  sys.settrace(tracer)
  sys.setprofile(prof)
  try:
    try:
      r = fn(arg)
    finally:
      sys.settrace(None)
      sys.setprofile(None)
      Watch.on = False
    kind = 'returned %r' % (r,)
  except Exception as e:
    kind = 'raised %s' % type(e).__name__
  return n[0], tuple(ccalls), kind, Watch.narrow, list(Watch.wide)


def forged(tag, masks):
  for m in masks:
    for i in range(len(tag)):
      yield 'byte %d differs' % i, kit.flip(tag, i, m)
  for k in range(len(tag)):
    yield 'only the first %d bytes are right' % k, tag[:k] + bytes(b ^ masks[0] for b in tag[k:])
    yield 'only the last %d bytes are right' % k, bytes(b ^ masks[1] for b in tag[:len(tag) - k]) + tag[len(tag) - k:]


def run(mon, case):
  head, tag, op = prepare(case)
  Watch.secret = S(tag)
  mon.event('entry:' + case['entry'])
  good = mon.call(op, TStr(S(head + tag)))
  mon.check(good.ok and good.value is not None and good.value is not False,
            lambda: '%s does not accept the genuine tag: %r' % (case['entry'], good))
  first = None
  op_forged = list(forged(tag, case['masks']))
  measure(op, TStr(S(head + op_forged[0][1])))     # warm up caches
  for what, t in op_forged:
    n, calls, kind, narrow, wide = measure(op, TStr(S(head + t)))
    mon.check(not kind.startswith('returned') or kind in ('returned False', 'returned None'),
              lambda: '%s accepts a forged tag: %s' % (case['entry'], kind))
    mon.check(not wide, lambda: '%s compares the tag with %s, which stops at the first difference'
              % (case['entry'], wide[0]), forged=what)
    if first is None:
      first = (what, n, calls, narrow)
      mon.check(n > 0, 'no instruction was executed by %s' % case['entry'])
    mon.check(n == first[1] and narrow == first[3],
              lambda: '%s executes %d instructions (%d character comparisons) when %s but %d (%d) when %s'
              % (case['entry'], first[1], first[3], first[0], n, narrow, what))
    mon.check(calls == first[2], lambda: '%s calls different C functions when %s and when %s: %d and %d calls'
              % (case['entry'], first[0], what, len(first[2]), len(calls)))
    mon.event('instructions-counted', n)
    mon.distinct(case['entry'], t)
  # native comparisons below the interpreter: with all but the last byte right, any
  # native comparison gets to see the secret
  lib = shim.Shim.lib
  if lib is not None:
    lib.kz_watch(tag[:12], 12)
    x, y = S(tag), S(tag[:-1] + b'?')
    x == y
    if lib.kz_unwatch():
      mon.event('memcmp-watch')
      for t in (kit.flip(tag, 19, 1), kit.flip(tag, 13, 0x40)):
        arg = S(head + t)
        lib.kz_watch(tag[:12], 12)
        mon.call(op, arg)
        hits = lib.kz_unwatch()
        mon.check(hits == 0, lambda: '%s compares the tag natively, stopping at the first difference (memcmp saw '
                  'the secret tag)' % case['entry'])
