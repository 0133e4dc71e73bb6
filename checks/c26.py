"""C26: results do not depend on other threads or earlier calls."""
import hashlib
import io
import json
import os
import random
import sys
import threading

from kzmon import gen, kit, ref
from kzmon.env import B, S, errors, keyinfo, kz, readers, util, writers
from kzmon.mon import Outcome

ID = 'C26'
LEVEL = 'exploration'
RULE = ('one operation whose result was judged by the reference while other threads were switched to inside it, or after and between '
        'other (also failed) operations: distinct by the sequence of thread switches (thread, source position) or by the order of steps')
REQUIRED = ('mode:baton-line', 'mode:baton-opcode', 'mode:free', 'mode:history', 'mode:memo', 'switch', 'interleaved-streams',
            'op:encrypt', 'op:decrypt', 'op:decrypt-bad', 'op:sign', 'op:verify', 'op:verify-bad', 'op:attached-sign', 'op:attached-verify',
            'op:unversioned', 'op:stream-write', 'op:stream-read', 'op:session', 'op:session-decrypt', 'op:signed-session',
            'op:generic', 'op:open', 'op:fails', 'op:stream-fails', 'kind:aes', 'kind:rsa-crypt', 'kind:hmac', 'kind:rsa-sign', 'kind:dsa',
            'ivs', 'dsa-r', 'related:aes128-twin', 'related:hmac-twin', 'related:aes-same-key', 'related:aes-same-mac',
            'related:hmac-prefix', 'related:dsa-group', 'related:rsa-exponent')
ASSUMPTIONS = ('one stream is used by one thread at a time', 'key set objects are not modified while they are used by other threads',
               'thread switches are forced between lines or byte codes of keyczar; those inside library code are left to the interpreter')
CASE_TIMEOUT = {'quick': 60, 'thorough': 120}

KINDS = ('aes', 'rsa-crypt', 'hmac', 'rsa-sign', 'dsa')


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(800 if q else 24000):
    yield {'k': 'threads', 'mode': ('baton-line', 'baton-opcode')[i % 2], 'threads': rng.choice((2, 2, 3, 4)), 'ops': rng.choice((1, 2, 3)),
           'p': rng.choice((.5, .1, .03, .01)), 'kinds': pick(rng, i), 'salt': rng.randrange(1 << 30), 'focus': i % 3 == 0}
  for i in range(40 if q else 500):
    yield {'k': 'threads', 'mode': 'free', 'threads': 8, 'ops': 12, 'p': 0, 'kinds': pick(rng, i), 'salt': rng.randrange(1 << 30), 'focus': False}
  for i in range(160 if q else 4000):
    yield {'k': 'history', 'n': 50, 'kinds': pick(rng, i), 'salt': rng.randrange(1 << 30)}
  for i in range(60 if q else 800):
    yield {'k': 'history', 'n': 40, 'kinds': [], 'related': RELATED[i % len(RELATED)], 'salt': rng.randrange(1 << 30)}
  for i in range(100 if q else 1600):
    yield {'k': 'threads', 'mode': ('baton-line', 'baton-opcode')[i % 2], 'threads': rng.choice((2, 3)), 'ops': 2, 'p': rng.choice((.3, .05)),
           'kinds': [], 'related': RELATED[i % len(RELATED)], 'salt': rng.randrange(1 << 30), 'focus': i % 3 == 0}
  for i in range(12 if q else 200):
    yield {'k': 'memo', 'salt': rng.randrange(1 << 30)}


# key sets that are easily taken for each other
RELATED = ('aes128-twin', 'aes256-twin', 'hmac-twin', 'aes-same-key', 'aes-same-mac', 'aes-prefix', 'hmac-prefix', 'hmac-suffix', 'dsa-group',
           'rsa-sign-crypt', 'rsa-exponent', 'hmac-size')


def related(rng, how):
  """-> [(kind, [key, ...]), ...]: several key sets."""
  if how.endswith('-twin'):      # the same identifier
    kind = how[:-5]
    pair = rng.choice(gen.twins()[kind])
    return [(kind[:3] if kind[:3] == 'aes' else kind, [gen.key(k)]) for k in pair]
  a, b, c = rng.randbytes(32), rng.randbytes(32), rng.randbytes(32)
  if how == 'aes-same-key':
    return [('aes', [ref.AesK(a[:16], b)]), ('aes', [ref.AesK(a[:16], c)])]
  if how == 'aes-same-mac':
    return [('aes', [ref.AesK(a[:16], b)]), ('aes', [ref.AesK(c[:16], b)]), ('hmac', [ref.HmacK(b)])]
  if how == 'aes-prefix':
    return [('aes', [ref.AesK(a[:16], b)]), ('aes', [ref.AesK(a[:24], b)]), ('aes', [ref.AesK(a[:32], b)])]
  if how == 'hmac-prefix':
    return [('hmac', [ref.HmacK(a)]), ('hmac', [ref.HmacK(a[:31] + c[:1] if a[31:] != c[:1] else a[:30] + b'xy')])]
  if how == 'hmac-suffix':
    return [('hmac', [ref.HmacK(a)]), ('hmac', [ref.HmacK(bytes([a[0] ^ 1]) + a[1:])])]
  if how == 'hmac-size':         # the key that another set uses for AES
    return [('hmac', [ref.HmacK(a)]), ('aes', [ref.AesK(a, a)])]
  if how == 'dsa-group':
    g = [k for k in gen.DSA if k.p == gen.DSA[0].p]
    x, y = rng.sample(g, 2)
    return [('dsa', [x]), ('dsa', [y])]
  k = rng.choice(gen.RSA[1024])
  if how == 'rsa-exponent':      # the same modulus
    phi = (k.p - 1) * (k.q - 1)
    for e in (3, 5, 17, 257, 1000003):
      try:
        return [('rsa-sign', [k]), ('rsa-sign', [ref.RsaK(k.n, e, pow(e, -1, phi), k.p, k.q)])]
      except ValueError:
        pass
  return [('rsa-sign', [k]), ('rsa-crypt', [k])]


def pick(rng, i):
  """The kinds of key sets that are in use together; often only one."""
  first = KINDS[i % 5]
  r = rng.random()
  return [first] if r < .4 else [first, first] if r < .7 else [first] + [rng.choice(KINDS) for _ in range(rng.choice((1, 2)))]


# ---------------------------------------------------------------- operations

class Pool(object):
  """Objects of some key sets, shared by all operations of a case."""

  def __init__(self, mon, rng, kinds, how=None):
    self.sets = []
    self.dirs = []
    self.dir = mon.tmpdir()
    self.count = 0
    given = related(rng, how) if how else [(kind, None) for kind in kinds]
    for i, (kind, keys) in enumerate(given):
      n = rng.choice((1, 2, 3))
      if keys:
        pass
      elif kind == 'aes':
        keys = gen.aes_keys(rng, n)
      elif kind == 'hmac':
        keys = gen.sign_keys(rng, 'hmac', n)
      elif kind == 'dsa':
        keys = gen.sign_keys(rng, 'dsa', n)
      else:
        keys = gen.sign_keys(rng, 'rsa1024', n)
      crypt = kind in ('aes', 'rsa-crypt')
      if how:
        ks = ref.KeySet('DECRYPT_AND_ENCRYPT' if crypt else 'SIGN_AND_VERIFY', keys[0].type, [ref.Version(1, 'PRIMARY', keys[0])])
      else:
        ks = gen.keyset({'keys': keys, 'status': gen.statuses(rng, len(keys)), 'purpose': 'crypt' if crypt else 'sign'})
      s = {'kind': kind, 'ks': ks, 'crypt': crypt, 'dir': ks.write(os.path.join(self.dir, 'set%d' % i))}
      if crypt:
        s['crypter'] = kit.opened(mon, kz.Crypter, ks)
        s['encrypter'] = kit.opened(mon, kz.Encrypter, ks.public() if kind == 'rsa-crypt' else ks)
        s['session'] = kz.SessionEncrypter(s['encrypter'])
        parts = unpack(ks.primary.key.decrypt(ref.unb64(s['session'].session_material))[0])
        s['inner'] = ref.AesK(*parts)
        s['session-in'] = kz.SessionDecrypter(s['crypter'], s['session'].session_material)
      else:
        s['signer'] = kit.opened(mon, kz.Signer, ks)
        s['verifier'] = kit.opened(mon, kz.Verifier, ks if kind == 'hmac' else ks.public())
        s['usigner'] = kit.opened(mon, kz.UnversionedSigner, ks)
        s['uverifier'] = kit.opened(mon, kz.UnversionedVerifier, ks if kind == 'hmac' else ks.public())
        outer = gen.keyset({'keys': ['aes128:%d' % rng.randrange(1000)], 'status': 'P'})
        c = kit.opened(mon, kz.Crypter, outer)
        s['signed'] = kz.SignedSessionEncrypter(c, s['signer'])
        j = json.loads(outer.primary.key.decrypt(ref.unb64(s['signed'].session_material))[0].decode('ascii'))
        s['signed-inner'], s['signed-nonce'] = ref.AesK.parse(j['key']), ref.unb64(j['nonce'])
        s['signed-in'] = kz.SignedSessionDecrypter(c, s['verifier'], s['signed'].session_material)
      self.sets.append(s)

  def newdir(self):
    self.count += 1
    d = os.path.join(self.dir, 'out%d' % self.count)
    os.mkdir(d)
    return d


def unpack(b):
  out, i = [], 4
  for _ in range(ref.b2i(b[:4])):
    n = ref.b2i(b[i:i + 4])
    out.append(b[i + 4:i + 4 + n])
    i += 4 + n
  return out


def ref_sign(rng, k, m):
  return k.sign(m, rng.randrange(1, k.q)) if k.kind == 'dsa' else k.sign(m)


def ref_encrypt(rng, k, data):
  return k.encrypt(data, rng.randbytes(16 if k.kind == 'aes' else 20))


class Op(object):
  """steps: a generator function that uses keyczar and returns the result; judge(outcome) -> problem or None."""

  def __init__(self, name, steps, judge):
    self.name, self.steps, self.judge = name, steps, judge
    self.fresh = []        # what must not repeat: ('iv', bytes), ('r', int)

  def start(self):
    self.gen = self.steps()

  def step(self):
    """True when it has ended; the outcome is then in self.out."""
    try:
      next(self.gen)
      return False
    except StopIteration as e:
      self.out = Outcome(e.value)
    except Exception as e:       # pylint: disable=broad-except
      import traceback
      self.out = Outcome(None, e, traceback.format_exc())
    return True

  def run(self):
    self.start()
    while not self.step():
      pass


def one(fn, *args, **kw):
  """A single call as an operation."""
  def steps():
    return fn(*args, **kw)
    yield
  return steps


def expect(value):
  return lambda o: None if o.ok and o.value == value and type(o.value) is type(value) else 'returned %r, must be %s' % (o, shown(value))


def shown(v):
  return repr(v)[:100]


def reject(o):
  return None if kit.rejected(o) else 'must be rejected: %r' % o


class Trouble(Exception):
  pass


class BadSink(kit.Sink):

  def __init__(self, n):
    kit.Sink.__init__(self)
    self.n = n

  def write(self, s):
    if self.n == 0:
      raise Trouble('disk full')
    self.n -= 1
    return kit.Sink.write(self, s)


class BadSource(object):

  def __init__(self, text, n):
    self.f, self.n = io.StringIO(text), n

  def read(self, n=-1):
    if self.n == 0:
      raise Trouble('bad sector')
    self.n -= 1
    return self.f.read(min(n, 20) if n >= 0 else 20)


def raiser(*a, **kw):
  raise Trouble('callback')


def make_op(rng, pool, focus=None):
  s = rng.choice(pool.sets)
  ks, kind = s['ks'], s['kind']
  data = rng.randbytes(rng.choice((0, 1, 5, 15, 16, 17, 30, 60) if kind == 'rsa-crypt' else (0, 1, 15, 16, 17, 33, 64, 100, 200)))
  pk = ks.primary.key
  any_key = rng.choice(ks.versions).key
  if s['crypt']:
    names = ['encrypt', 'encrypt', 'decrypt', 'decrypt', 'decrypt-bad', 'session', 'session-decrypt', 'open', 'fails']
    if kind == 'aes':
      names += ['stream-write', 'stream-write', 'stream-read', 'stream-read', 'generic', 'stream-fails']
  else:
    names = ['sign', 'sign', 'verify', 'verify', 'verify-bad', 'attached-sign', 'attached-verify', 'unversioned', 'unversioned',
             'signed-session', 'open', 'fails']
    if kind == 'hmac':
      names += ['generic']
  name = rng.choice(names) if focus is None or focus not in names else focus

  if name == 'encrypt':
    obj = s[rng.choice(('crypter', 'encrypter'))]
    op = Op(name, one(obj.Encrypt, S(data)), None)

    def judge(o):
      if not o.ok:
        return 'Encrypt: %r' % o
      raw = ref.unb64(o.value)
      if raw[:5] != b'\0' + pk.id:
        return 'Encrypt used a key that is not primary'
      if kind == 'aes':
        op.fresh.append(('iv', raw[5:21]))
      if pk.decrypt(raw)[0] != data:
        return 'Encrypt: the reference decrypts to something else'
    op.judge = judge
    return op
  if name == 'decrypt':
    return Op(name, one(s['crypter'].Decrypt, ref.b64(ref_encrypt(rng, any_key, data))), expect(S(data)))
  if name == 'decrypt-bad':
    ct = ref_encrypt(rng, any_key, data)
    bad = rng.choice((kit.flip(ct, rng.randrange(len(ct)), 1 << rng.randrange(8)), ct[:-1], ct[:rng.randrange(len(ct))],
                      b'\0\1\2\3\4' + ct[5:]))
    return Op(name, one(s['crypter'].Decrypt, ref.b64(bad)), reject)
  if name == 'session':
    op = Op(name, one(s['session'].Encrypt, S(data)), None)

    def judge_session(o):
      if not o.ok:
        return 'session Encrypt: %r' % o
      raw = ref.unb64(o.value)
      op.fresh.append(('iv', raw[5:21]))
      if s['inner'].decrypt(raw)[0] != data:
        return 'session Encrypt: the reference decrypts to something else'
    op.judge = judge_session
    return op
  if name == 'session-decrypt':
    return Op(name, one(s['session-in'].Decrypt, ref.b64(ref_encrypt(rng, s['inner'], data))), expect(S(data)))
  if name == 'open':
    d = s['dir']
    if s['crypt']:
      ct = ref.b64(ref_encrypt(rng, any_key, data))

      def steps_open():
        c = kz.Crypter.Read(d)
        yield
        return c.Decrypt(ct)
      return Op(name, steps_open, expect(S(data)))
    sig = ref.b64(b'\0' + any_key.id + ref_sign(rng, any_key, data + b'\0'))

    def steps_open_v():
      v = kz.Verifier.Read(d)
      yield
      return v.Verify(S(data), sig)
    return Op(name, steps_open_v, lambda o: None if o.ok and o.value is True else 'Verify of a freshly read key set: %r' % o)
  if name == 'fails':
    arg = rng.choice((None, 5, [], 'x', '', '=' * 8, 'A' * 10, '\u1234'))
    if s['crypt']:
      ct = ref.b64(ref_encrypt(rng, any_key, data))
      todo = [(s['crypter'].Decrypt, (arg,), {}), (s['crypter'].Encrypt, (None,), {}), (s['crypter'].Encrypt, ('\u1234',), {}),
              (s['crypter'].Encrypt, (S(data), raiser), {}), (s['crypter'].Decrypt, (ct, raiser), {}), (s['session-in'].Decrypt, (arg,), {}),
              (kz.SessionDecrypter, (s['crypter'], arg), {}), (kz.Signer.Read, (s['dir'],), {}), (kz.Crypter.Read, (s['dir'] + 'x',), {})]
    else:
      sig = ref.b64(b'\0' + any_key.id + ref_sign(rng, any_key, data + b'\0'))
      todo = [(s['signer'].Sign, (None,), {}), (s['signer'].Sign, ('\u1234',), {}), (s['verifier'].Verify, (S(data), arg), {}),
              (s['verifier'].Verify, (None, sig), {}), (s['verifier'].Verify, (S(data), sig, raiser), {}),
              (s['signer'].AttachedSign, (S(data), 7), {}), (s['verifier'].AttachedVerify, (arg, ''), {}),
              (s['usigner'].Sign, (S(data), raiser), {}), (s['uverifier'].Verify, (S(data), arg), {}), (kz.Crypter.Read, (s['dir'],), {}),
              (s['signed-in'].Decrypt, (arg,), {})]
    fn, a, kw = rng.choice(todo)
    return Op(name, one(fn, *a, **kw), lambda o: None)
  if name == 'stream-write':
    obj = s[rng.choice(('crypter', 'encrypter'))]
    raw_mode = rng.random() < .4
    parts = split(rng, S(data))
    sink = kit.Sink()

    def steps_write():
      w = obj.CreateEncryptingStreamWriter(sink, None) if raw_mode else obj.CreateEncryptingStreamWriter(sink)
      for p in parts:
        yield
        w.write(p)
      yield
      w.flush()
      return sink.value()
    op = Op(name, steps_write, None)

    def judge_write(o):
      if not o.ok:
        return 'stream writer: %r' % o
      b = B(o.value) if raw_mode else ref.unb64(o.value)
      op.fresh.append(('iv', b[5:21]))
      if b[:5] != b'\0' + pk.id or pk.decrypt(b)[0] != data:
        return 'the reference decrypts a stream to something else'
    op.judge = judge_write
    return op
  if name == 'stream-read':
    ct = ref_encrypt(rng, any_key, data)
    raw_mode = rng.random() < .4
    text = S(ct) if raw_mode else ref.b64(ct)
    sizes = [rng.choice((-1, 1, 7, 16, 50)) for _ in range(300)]
    bad = rng.random() < .25
    if bad:
      ct = kit.flip(ct, rng.randrange(5, len(ct)), 1 << rng.randrange(8))
      text = S(ct) if raw_mode else ref.b64(ct)

    def steps_read():
      src = io.StringIO(text)
      r = s['crypter'].CreateDecryptingStreamReader(src, None) if raw_mode else s['crypter'].CreateDecryptingStreamReader(src)
      out = []
      for n in sizes:
        yield
        b = r.read(n)
        if b == '':
          return ''.join(out)
        if b:
          out.append(b)
      return 'no end'
    if bad:
      return Op(name, steps_read, lambda o: 'a damaged stream was read to its end: %r' % o if o.ok and o.value != 'no end' else None)
    return Op(name, steps_read, expect(S(data)))
  if name == 'stream-fails':
    text = ref.b64(ref_encrypt(rng, any_key, data + b'x' * 60))
    n, how = rng.randrange(3), rng.randrange(5)

    def steps_fail():
      if how == 0:
        w = s['crypter'].CreateEncryptingStreamWriter(BadSink(n), None)
        for p in split(rng, S(data) + 'y' * 60):
          yield
          w.write(p)
        w.flush()
      elif how == 1:
        r = s['crypter'].CreateDecryptingStreamReader(BadSource(text, n))
        yield
        while r.read(30):
          yield
      elif how == 3:      # one character too many
        r = s['crypter'].CreateDecryptingStreamReader(io.StringIO(text[:len(text) - len(text) % 4 - 4 * n] + 'A'))
        yield
        while r.read(30):
          yield
      elif how == 4:      # an unknown key, a short header, nothing
        r = s['crypter'].CreateDecryptingStreamReader(io.StringIO(('AAAAAA', 'AAAAAAAAAAAAAAAAA', '')[n]))
        yield
        r.read()
      else:     # abandoned
        w = s['crypter'].CreateEncryptingStreamWriter(kit.Sink())
        yield
        w.write(S(data) + 'z' * 40)
        r = s['crypter'].CreateDecryptingStreamReader(io.StringIO(text))
        r.read(3)
    return Op(name, steps_fail, lambda o: None)
  if name == 'generic':
    dest = pool.newdir()
    primary = rng.random() < .5
    size = 128 if kind == 'aes' else None

    def steps_generic():
      g = kz.GenericKeyczar(ref.MemReader(ks))
      yield
      g.AddVersion(keyinfo.PRIMARY if primary else keyinfo.ACTIVE, size)
      yield
      g.Write(writers.CreateWriter(dest))
      return None

    def judge_generic(o):
      if not o.ok:
        return 'management: %r' % o
      got = ref.read_keyset(dest)
      old = dict((v.number, v.key.secrets()) for v in ks.versions)
      new = [v for v in got.versions if v.number not in old]
      if len(new) != 1 or len(got.versions) != len(old) + 1:
        return 'AddVersion and Write gave the versions %r' % [v.number for v in got.versions]
      if any(v.key.secrets() != old[v.number] for v in got.versions if v.number in old):
        return 'AddVersion and Write changed keys'
      if new[0].status != ('PRIMARY' if primary else 'ACTIVE') or len([v for v in got.versions if v.status == 'PRIMARY']) != 1:
        return 'AddVersion and Write gave the statuses %r' % [v.status for v in got.versions]
    return Op(name, steps_generic, judge_generic)

  if name == 'sign':
    op = Op(name, one(s['signer'].Sign, S(data)), None)

    def judge_sign(o):
      if not o.ok:
        return 'Sign: %r' % o
      raw = ref.unb64(o.value)
      if kind == 'dsa':
        op.fresh.append(('r', ref.parse_dsa_sig(raw[5:])[0]))
      if raw[:5] != b'\0' + pk.id or not pk.verify(data + b'\0', raw[5:]):
        return 'Sign: the reference rejects the signature'
    op.judge = judge_sign
    return op
  if name == 'verify':
    sig = ref.b64(b'\0' + any_key.id + ref_sign(rng, any_key, data + b'\0'))
    return Op(name, one(s[rng.choice(('signer', 'verifier'))].Verify, S(data), sig), lambda o: None if o.ok and o.value is True else
              'Verify of a genuine signature: %r' % o)
  if name == 'verify-bad':
    sig = ref_sign(rng, any_key, data + b'\0')
    head = b'\0' + any_key.id
    if rng.random() < .5:
      return Op(name, one(s['verifier'].Verify, S(data) + 'x', ref.b64(head + sig)), reject)
    other = [v.key for v in ks.versions if v.key.id != any_key.id]
    if other and rng.random() < .5:
      return Op(name, one(s['verifier'].Verify, S(data), ref.b64(b'\0' + rng.choice(other).id + sig)), reject)
    return Op(name, one(s['signer'].Verify, S(data), ref.b64(head + ref_sign(rng, any_key, data + b'\1'))), reject)
  if name == 'attached-sign':
    nonce = rng.randbytes(rng.choice((0, 1, 16)))
    op = Op(name, one(s['signer'].AttachedSign, S(data), S(nonce)), None)

    def judge_attached(o):
      if not o.ok:
        return 'AttachedSign: %r' % o
      h, d, sig = ref.attached_parts(ref.unb64(o.value))
      if kind == 'dsa':
        op.fresh.append(('r', ref.parse_dsa_sig(sig)[0]))
      if h != b'\0' + pk.id or d != data or not pk.verify(ref.attached_message(data, nonce), sig):
        return 'AttachedSign: the reference rejects the result'
    op.judge = judge_attached
    return op
  if name == 'attached-verify':
    nonce = rng.randbytes(rng.choice((0, 1, 16)))
    blob = ref.b64(b'\0' + any_key.id + ref.u32(len(data)) + data + ref_sign(rng, any_key, ref.attached_message(data, nonce)))
    if rng.random() < .3:
      return Op(name, one(s['verifier'].AttachedVerify, blob, S(nonce) + 'x'), reject)
    return Op(name, one(s['verifier'].AttachedVerify, blob, S(nonce)), expect(S(data)))
  if name == 'unversioned':
    if rng.random() < .5:
      op = Op(name, one(s['usigner'].Sign, S(data)), None)

      def judge_unversioned(o):
        if not o.ok:
          return 'unversioned Sign: %r' % o
        sig = ref.unb64(o.value)
        if kind == 'dsa':
          op.fresh.append(('r', ref.parse_dsa_sig(sig)[0]))
        return None if pk.verify(data, sig) else 'unversioned Sign: the reference rejects the signature'
      op.judge = judge_unversioned
      return op
    sig = ref_sign(rng, any_key, data)
    if rng.random() < .4:
      return Op(name, one(s['uverifier'].Verify, S(data) + 'x', ref.b64(sig)), reject)
    return Op(name, one(s['uverifier'].Verify, S(data), ref.b64(sig)), lambda o: None if o.ok and o.value else
              'unversioned Verify of a genuine signature: %r' % o)
  if name == 'signed-session':
    inner, nonce = s['signed-inner'], s['signed-nonce']
    if rng.random() < .5:
      op = Op(name, one(s['signed'].Encrypt, S(data)), None)

      def judge_signed(o):
        if not o.ok:
          return 'signed session Encrypt: %r' % o
        h, c, sig = ref.attached_parts(ref.unb64(o.value))
        op.fresh.append(('iv', c[5:21]))
        if kind == 'dsa':
          op.fresh.append(('r', ref.parse_dsa_sig(sig)[0]))
        if h != b'\0' + pk.id or not pk.verify(ref.attached_message(c, nonce), sig) or inner.decrypt(c)[0] != data:
          return 'signed session Encrypt: the reference rejects the message'
      op.judge = judge_signed
      return op
    c = ref_encrypt(rng, inner, data)
    blob = b'\0' + any_key.id + ref.u32(len(c)) + c + ref_sign(rng, any_key, ref.attached_message(c, nonce))
    if rng.random() < .3:
      i = rng.randrange(10, 9 + len(c))
      return Op(name, one(s['signed-in'].Decrypt, ref.b64(kit.flip(blob, i, 4))), reject)
    return Op(name, one(s['signed-in'].Decrypt, ref.b64(blob)), expect(S(data)))
  raise ValueError(name)


def split(rng, text):
  out, i = [], 0
  while i < len(text):
    n = rng.choice((1, 7, 16, 20, 50))
    out.append(text[i:i + n])
    i += n
  return out


# ---------------------------------------------------------------- the scheduler

class Baton(object):
  """Lets one thread run at a time and moves on at randomly chosen source positions.

  A thread that holds the turn and makes no progress (it waits for a lock of another one) loses it.
  """

  def __init__(self, rng, n, p, opcodes):
    self.rng, self.p, self.opcodes = rng, p, opcodes
    self.cond = threading.Condition()
    self.alive = list(range(n))
    self.turn = rng.randrange(n)
    self.progress = 0
    self.points = 0
    self.switches = []
    self.steals = 0
    self.root = os.path.dirname(os.path.abspath(kz.__file__)) + os.sep

  def wait(self, i):
    while self.turn != i:
      before = self.progress
      if not self.cond.wait(.5) and self.turn != i and self.progress == before:
        self.turn = i
        self.steals += 1
        self.progress += 1

  def point(self, i, frame):
    with self.cond:
      self.progress += 1
      self.points += 1
      if self.turn != i:
        self.wait(i)
      if len(self.alive) > 1 and self.rng.random() < self.p:
        j = self.rng.choice([a for a in self.alive if a != i])
        self.switches.append((i, j, os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_lasti if self.opcodes else 0))
        self.turn = j
        self.cond.notify_all()
        self.wait(i)

  def thread(self, i, ops):
    def local(frame, event, arg):
      self.point(i, frame)
      return local

    def trace(frame, event, arg):
      if not frame.f_code.co_filename.startswith(self.root):
        return None
      if self.opcodes:
        frame.f_trace_opcodes = True
      return local
    with self.cond:
      self.wait(i)
    sys.settrace(trace)
    try:
      for op in ops:
        op.run()
    finally:
      sys.settrace(None)
      with self.cond:
        self.progress += 1
        self.alive.remove(i)
        if self.alive and self.turn == i:
          self.turn = self.rng.choice(self.alive)
        self.cond.notify_all()


def run_threads(fns):
  ts = [threading.Thread(target=f) for f in fns]
  for t in ts:
    t.daemon = True
    t.start()
  for t in ts:
    t.join()


def judge(mon, op, where):
  problem = op.judge(op.out)
  mon.check(problem is None, lambda: '%s %s: %s' % (op.name, where, problem), traceback=op.out.tb)
  mon.event('op:' + op.name)


def distinct_fresh(mon, ops, where):
  seen = {}
  for op in ops:
    for kind, v in op.fresh:
      mon.check((kind, v) not in seen, lambda: 'two operations %s used the same %s' % (where, {'iv': 'initialization vector',
                                                                                              'r': 'DSA nonce'}[kind]))
      seen[kind, v] = 1
      mon.event('ivs' if kind == 'iv' else 'dsa-r')


def _threads(mon, case):
  rng = random.Random(case['salt'])
  pool = Pool(mon, rng, case['kinds'], case.get('related'))
  focus = rng.choice(('encrypt', 'decrypt', 'sign', 'verify', 'unversioned', 'stream-write', 'stream-read', 'session', 'session-decrypt',
                      'signed-session', 'attached-sign', 'attached-verify', 'open')) if case['focus'] else None
  todo = [[make_op(rng, pool, focus) for _ in range(case['ops'])] for _ in range(case['threads'])]
  ops = [op for l in todo for op in l]
  mode = case['mode']
  if mode == 'free':
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    gate = threading.Barrier(len(todo))

    def worker(l):
      def go():
        gate.wait()
        for op in l:
          op.run()
      return go
    try:
      run_threads([worker(l) for l in todo])
    finally:
      sys.setswitchinterval(interval)
    mon.distinct('free', case['salt'])
    where = 'in one of %d free running threads' % len(todo)
  else:
    baton = Baton(random.Random(case['salt'] + 1), len(todo), case['p'], mode == 'baton-opcode')
    run_threads([lambda i=i, l=l: baton.thread(i, l) for i, l in enumerate(todo)])
    mon.event('switch', len(baton.switches))
    mon.event('points', baton.points)
    if baton.steals:
      mon.event('waited-for-a-lock', baton.steals)
    if baton.switches:
      mon.distinct('schedule', hashlib.sha1(repr(baton.switches).encode()).hexdigest())
    where = 'in one of %d threads with %d forced switches' % (len(todo), len(baton.switches))
    mon.sample(mode=mode, ops=[op.name for op in ops], switches=len(baton.switches), first=baton.switches[:3])
  for op in ops:
    judge(mon, op, where)
  distinct_fresh(mon, ops, where)
  after(mon, rng, pool, where, case.get('related'))
  mon.event('mode:' + mode)
  for s in pool.sets:
    mon.event('kind:' + s['kind'])


def after(mon, rng, pool, where, how=None):
  """The objects still work, and do not take what belongs to another key set."""
  if how:
    for s in pool.sets:
      for t in pool.sets:
        if s is not t and s['crypt'] == t['crypt']:
          data = rng.randbytes(20)
          k = t['ks'].primary.key
          if s['crypt']:
            o = mon.call(s['crypter'].Decrypt, ref.b64(ref_encrypt(rng, k, data)))
          else:
            o = mon.call(s['verifier'].Verify, S(data), ref.b64(b'\0' + k.id + ref_sign(rng, k, data + b'\0')))
          mon.check(kit.rejected(o), lambda: 'data of another key set (%s) is not refused: %r' % (how, o))
          mon.event('related:' + how)
          mon.distinct('related', how, s['kind'], t['kind'])
  for _ in range(3):
    op = make_op(rng, pool)
    op.run()
    judge(mon, op, 'after those ' + where)


def _history(mon, case):
  rng = random.Random(case['salt'])
  pool = Pool(mon, rng, case['kinds'], case.get('related'))
  active, done, order = [], [], []
  serial = 0
  while len(done) < case['n']:
    if len(active) < 4 and rng.random() < .5 or not active:
      op = make_op(rng, pool, 'stream-' + rng.choice(('read', 'write', 'fails')) if rng.random() < .2 else None)
      op.start()
      op.serial = serial
      serial += 1
      active.append(op)
    op = rng.choice(active)
    if len([o for o in active if o.name.startswith('stream-')]) > 1:
      mon.event('interleaved-streams')
    order.append(op.serial)
    if op.step():
      active.remove(op)
      judge(mon, op, 'as operation %d of a history' % len(done))
      done.append(op)
  distinct_fresh(mon, done, 'of a history')
  after(mon, rng, pool, 'in a history', case.get('related'))
  mon.distinct('history', tuple(order), tuple(op.name for op in done))
  mon.event('mode:history')
  for s in pool.sets:
    mon.event('kind:' + s['kind'])


def _memo(mon, case):
  """Several sessions at once: each keeps its own keys; Memoize keeps calls with different arguments apart."""
  rng = random.Random(case['salt'])
  ks = gen.keyset({'keys': ['aes128:%d' % rng.randrange(1000)], 'status': 'P'})
  c = kit.opened(mon, kz.Crypter, ks)
  ss = [kz.SessionEncrypter(c) for _ in range(6)]
  inner = [ref.AesK(*unpack(ks.primary.key.decrypt(ref.unb64(s.session_material))[0])) for s in ss]
  mon.check(len(set(k.key for k in inner)) == len(ss), 'two sessions have the same key')
  ds = [kz.SessionDecrypter(c, s.session_material) for s in ss]
  for _ in range(30):
    i = rng.randrange(len(ss))
    data = rng.randbytes(rng.randrange(40))
    if rng.random() < .5:
      o = mon.call(ss[i].Encrypt, S(data))
      mon.check(o.ok and inner[i].decrypt(ref.unb64(o.value))[0] == data, lambda: 'session %d of several: %r' % (i, o))
    else:
      j = rng.randrange(len(ss))
      o = mon.call(ds[i].Decrypt, ref.b64(inner[j].encrypt(data, rng.randbytes(16))))
      mon.check((o.ok and o.value == S(data)) if i == j else kit.rejected(o), lambda: 'session %d decrypts a message of session %d: %r' % (i, j, o))
  memo = getattr(util, 'Memoize', None)
  if memo:
    calls = []

    @memo
    def f(*args, **kw):
      calls.append((args, kw))
      return repr(args) + repr(sorted(kw.items()))
    values = [0, 1, True, False, 1.0, '1', b'1', None, (1,), [1], {'a': 1}, 'a', ('a', 1), -1, 2 ** 70]
    for _ in range(120):
      args = tuple(rng.choice(values) for _ in range(rng.randrange(3)))
      kw = dict((n, rng.choice(values)) for n in rng.sample(('a', 'b', 'c'), rng.randrange(3)))
      o = mon.call(f, *args, **kw)
      mon.check(o.ok and o.value == repr(args) + repr(sorted(kw.items())), lambda: 'a memoized function of %r, %r: %r' % (args, kw, o))
  mon.event('mode:memo')
  mon.distinct('memo', case['salt'])


def run(mon, case):
  {'threads': _threads, 'history': _history, 'memo': _memo}[case['k']](mon, case)
