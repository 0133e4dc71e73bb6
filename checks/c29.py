"""C29: long-running use does not accumulate memory, files or threads."""
import gc
import io
import os
import random
import sys
import threading
import tracemalloc
import warnings

from kzmon import gen, kit, life, ref
from kzmon.env import LIBS, S, CryptLib, keyczart, keyinfo, keys, kz, readers, util, writers

ID = 'C29'
LEVEL = 'exploration'
REAL_RANDOM = True
RULE = ('one operation repeated until memory either stayed level or kept growing, with the memory, the open files and the '
        'threads compared; or one long stream with its peak memory: distinct by operation, key, library and lengths')
SCENARIOS = ('crypt', 'rsa-crypt', 'sign-hmac', 'sign-dsa', 'sign-rsa', 'attached', 'unversioned', 'session',
             'signed-session', 'stream', 'stream-abandoned', 'bad-decrypt', 'bad-decrypt-rsa', 'unknown-key', 'bad-verify', 'bad-attached',
             'bad-session', 'bad-base64', 'open', 'open-refused', 'open-encrypted', 'genkey', 'tool', 'tool-refused',
             'write', 'export', 'base64')
REQUIRED = tuple('level:' + s for s in SCENARIOS) + ('files', 'threads', 'large-released', 'long-write', 'long-read', 'held-open')
ASSUMPTIONS = ('memory is what the Python allocators hold (tracemalloc) after a full collection',)

BYTES = 24      # growth per repetition that counts as accumulating; the smallest object has 16 bytes
GIVE_UP = 5     # phases with growth


def cases(rng, tier):
  for i in range(1 if tier == 'quick' else 6):
    for s in SCENARIOS:
      for lib in LIBS if s in ('crypt', 'session', 'stream') else LIBS[:1]:
        yield {'k': 'level', 's': s, 'lib': lib, 'salt': rng.randrange(1 << 30)}
    for lib in LIBS:
      for size in (200000, 600000) if tier == 'quick' else (200000, 600000, 2000000):
        yield {'k': 'long', 'size': size, 'lib': lib, 'salt': rng.randrange(1 << 30)}
    for what in ('crypt', 'sign', 'attached', 'session', 'stream'):
      yield {'k': 'large', 'what': what, 'salt': rng.randrange(1 << 30), 'lib': LIBS[i % 2]}
    yield {'k': 'held', 'salt': rng.randrange(1 << 30)}


def fds():
  return len(os.listdir('/proc/self/fd'))


class Quiet(object):

  def __enter__(self):
    self.out, sys.stdout = sys.stdout, open(os.devnull, 'w')

  def __exit__(self, *a):
    sys.stdout.close()
    sys.stdout = self.out


def memory():
  gc.collect()
  gc.collect()
  return tracemalloc.get_traced_memory()[0]


def scenario(mon, name, rng):
  """(operation of one number, repetitions of a phase, repetitions to warm up)"""
  aes = kit.opened(mon, kz.Crypter, gen.keyset({'keys': ['aes128:1', 'aes256:2']}))
  hm = kit.opened(mon, kz.Signer, gen.keyset({'keys': ['hmac:1']}))

  def text(i):
    return 'message %d' % i

  def fails(fn, *args):
    try:
      fn(*args)
    except Exception:
      pass
  if name == 'crypt':
    return lambda i: aes.Decrypt(aes.Encrypt(text(i))), 400, 1500
  if name == 'rsa-crypt':
    c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': ['rsa1024:1'], 'purpose': 'crypt'}))
    return lambda i: c.Decrypt(c.Encrypt(text(i))), 60, 100
  if name.startswith('sign-') or name in ('attached', 'unversioned', 'bad-verify', 'bad-attached'):
    kind = {'sign-dsa': 'dsa:1', 'sign-rsa': 'rsa1024:1'}.get(name, 'hmac:1')
    ks = gen.keyset({'keys': [kind], 'purpose': 'sign'})
    s = kit.opened(mon, kz.UnversionedSigner if name == 'unversioned' else kz.Signer, ks)
    n = (400, 1500) if kind == 'hmac:1' else (60, 150)
    if name == 'attached':
      return (lambda i: s.AttachedVerify(s.AttachedSign(text(i), 'n%d' % i), 'n%d' % i),) + n
    if name == 'bad-verify':
      return (lambda i: s.Verify(text(i), s.Sign(text(i + 1))),) + n
    if name == 'bad-attached':
      return (lambda i: s.AttachedVerify(s.AttachedSign(text(i), 'n'), 'n%d' % i),) + n
    return (lambda i: s.Verify(text(i), s.Sign(text(i))),) + n
  if name == 'session':
    def session(i):
      e = kz.SessionEncrypter(aes)
      d = kz.SessionDecrypter(aes, e.session_material)
      assert d.Decrypt(e.Encrypt(text(i))) == text(i)
    return session, 150, 400
  if name == 'signed-session':
    def signed(i):
      e = kz.SignedSessionEncrypter(aes, hm)
      d = kz.SignedSessionDecrypter(aes, hm, e.session_material)
      assert d.Decrypt(e.Encrypt(text(i))) == text(i)
    return signed, 150, 400
  if name == 'bad-session':
    e = kz.SessionEncrypter(aes)
    d = kz.SessionDecrypter(aes, e.session_material)

    def bad(i):
      fails(d.Decrypt, aes.Encrypt(text(i)))
      fails(kz.SessionDecrypter, aes, aes.Encrypt(text(i)))
    return bad, 150, 400
  if name.startswith('stream'):
    whole = name == 'stream'

    def stream(i):
      sink = kit.Sink()
      w = aes.CreateEncryptingStreamWriter(sink)
      w.write(text(i) * 20)
      if whole:
        w.flush()
        r = aes.CreateDecryptingStreamReader(io.StringIO(sink.value(), newline=''))
        while r.read() != '':
          pass
      else:
        w = aes.CreateEncryptingStreamWriter(sink)
        w.write('x')
        r = aes.CreateDecryptingStreamReader(io.StringIO(aes.Encrypt(text(i) * 5), newline=''))
        r.read(3)
    return stream, 100, 300
  if name == 'bad-decrypt':
    def tampered(i):
      ct = aes.Encrypt(text(i), None)
      fails(aes.Decrypt, ct[:-1] + chr(ord(ct[-1]) ^ 1), None)
      fails(aes.Decrypt, ct[:i % 60], None)
    return tampered, 300, 1200
  if name == 'bad-decrypt-rsa':
    c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': ['rsa1024:1'], 'purpose': 'crypt'}))
    return lambda i: fails(c.Decrypt, c.Encrypt(text(i), None)[:5] + S(rng.randbytes(127)), None), 60, 100
  if name == 'unknown-key':
    def unknown(i):
      fails(aes.Decrypt, '\0' + S(rng.randbytes(80)), None)
      fails(hm.Verify, text(i), '\0' + S(rng.randbytes(24)), None)
    return unknown, 400, 1500
  if name == 'bad-base64':
    return lambda i: fails(aes.Decrypt, text(i) + '!' * (i % 7)), 400, 1500
  if name == 'base64':
    return lambda i: util.Base64WSDecode(util.Base64WSEncode(text(i))), 400, 1500
  loc, other = mon.tmpdir(), mon.tmpdir()
  if name.startswith('open'):
    ks = gen.keyset({'keys': ['aes128:1', 'aes128:2']})
    if name == 'open-encrypted':
      ck = gen.key('aes128:1')
      ks.encrypted = True
      ks.write(loc, lambda t: ref.b64(ck.encrypt(t.encode(), rng.randbytes(16))))
      return lambda i: kz.Crypter(readers.EncryptedReader(readers.CreateReader(loc), aes)), 60, 150
    ks.write(loc)
    if name == 'open':
      return lambda i: kz.Crypter.Read(loc).Encrypt(text(i)), 60, 150

    def refused(i):
      fails(kz.Signer.Read, loc)
      fails(kz.Crypter.Read, loc + '/none%d' % i)
    return refused, 60, 150
  if name == 'genkey':
    def genkey(i):
      keys.GenKey(keyinfo.AES, 192)
      keys.GenKey(keyinfo.HMAC_SHA1)
      fails(keys.GenKey, keyinfo.AES, 100 + i)
    return genkey, 400, 1500
  if name == 'export':
    ks = gen.keyset({'keys': ['rsa1024:1', 'rsa1024:2'], 'purpose': 'sign'})
    ks.write(loc)
    return lambda i: keyczart.main(['pubkey', '--location=' + loc, '--destination=' + other]), 40, 80
  gen.keyset({'keys': ['aes128:1', 'aes128:2'], 'status': 'PA'}).write(loc)
  if name == 'write':
    g = kz.GenericKeyczar(readers.CreateReader(loc))

    def write(i):
      w = writers.CreateWriter(other)
      g.Write(w)
      g.Write(w, aes)
      w.Close()
    return write, 60, 120
  if name == 'tool':
    def tool(i):
      keyczart.main(['promote', '--location=' + loc, '--version=%d' % (2 - i % 2)])
    return tool, 60, 120
  if name == 'tool-refused':
    def refuse(i):
      fails(keyczart.main, ['promote', '--location=' + loc, '--version=%d' % (7 + i)])
      fails(keyczart.main, ['revoke', '--location=' + loc, '--version=1'])
    return refuse, 60, 120
  raise KeyError(name)


def _level(mon, case):
  rng = random.Random(case['salt'])
  with CryptLib(case['lib']), Quiet(), warnings.catch_warnings():
    warnings.simplefilter('ignore')
    op, n, warm = scenario(mon, case['s'], rng)
    op(0)
    op(1)
    count = 2
    tracemalloc.start(4)
    try:
      for count in range(count, warm):
        op(count)
      files, threads = fds(), threading.active_count()
      before = memory()
      grown = []
      for phase in range(GIVE_UP):
        # the more phases, the longer they are: a cache of limited size fills up
        for _ in range(n << phase):
          count += 1
          op(count)
        after = memory()
        grown.append((after - before) / float(n << phase))
        before = after
        if grown[-1] < BYTES:
          break
      top = ''
      if grown[-1] >= BYTES:
        snap = tracemalloc.take_snapshot().statistics('lineno')[:3]
        top = '; '.join('%s:%d holds %d bytes' % (os.path.basename(t.traceback[0].filename), t.traceback[0].lineno, t.size)
                        for t in snap)
    finally:
      tracemalloc.stop()
    mon.check(grown[-1] < BYTES, lambda: '%s: every repetition leaves memory behind: %s bytes per repetition in %d phases, '
              '%d repetitions; %s' % (case['s'], ', '.join('%d' % g for g in grown), len(grown), count, top))
    mon.check(fds() <= files, lambda: '%s: %d files are open after %d repetitions, %d before' % (case['s'], fds(), count, files))
    mon.check(threading.active_count() <= threads, '%s: threads are left behind' % case['s'])
  mon.event('level:' + case['s'])
  mon.event('files')
  mon.event('threads')
  mon.event('repetitions', count)
  mon.distinct('level', case['s'], case['lib'], case['salt'])
  mon.sample(scenario=case['s'], repetitions=count, bytes_per_repetition=[round(g, 2) for g in grown])


class Null(object):
  """A sink for any amount of text."""

  def __init__(self):
    self.n = 0

  def write(self, s):
    self.n += len(s)

  def flush(self):
    pass


class Long(object):
  """Delivers the long ciphertext that was written in pieces, without holding it."""

  def __init__(self, data):
    self.f = io.StringIO(data, newline='')

  def read(self, n=-1):
    return self.f.read(n)


def _long(mon, case):
  """A stream of any length passes through bounded memory."""
  rng = random.Random(case['salt'])
  size = case['size']
  c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': ['aes128:1']}))
  chunk = S(rng.randbytes(4000))
  with CryptLib(case['lib']):
    for enc in (None, 'text'):
      args = () if enc else (None,)
      sink = Null()
      w = mon.must('stream', c.CreateEncryptingStreamWriter, sink, *args)
      w.write(chunk)
      tracemalloc.start()
      try:
        base = memory()
        tracemalloc.reset_peak()
        for i in range(size // len(chunk)):
          w.write(chunk)
        w.flush()
        peak = tracemalloc.get_traced_memory()[1] - base
      finally:
        tracemalloc.stop()
      mon.check(sink.n > size, 'the stream lost data')
      mon.check(peak < size / 2, lambda: 'writing a stream of %d bytes in pieces of %d took %d bytes of memory'
                % (size, len(chunk), peak))
      mon.event('long-write')
      kept = kit.Sink()
      w = c.CreateEncryptingStreamWriter(kept, *args)
      for i in range(size // len(chunk)):
        w.write(chunk)
      w.flush()
      src = Long(kept.value())
      r = mon.must('reader', c.CreateDecryptingStreamReader, src, *args)
      r.read(16)
      got = 0
      tracemalloc.start()
      try:
        base = memory()
        tracemalloc.reset_peak()
        while True:
          d = r.read(4096)
          if d == '':
            break
          got += len(d or '')
        peak = tracemalloc.get_traced_memory()[1] - base
      finally:
        tracemalloc.stop()
      mon.check(got + 16 == size // len(chunk) * len(chunk), 'the stream lost data')
      mon.check(peak < size / 2, lambda: 'reading a stream of %d bytes in pieces took %d bytes of memory' % (size, peak))
      mon.event('long-read')
      mon.distinct('long', size, enc, case['lib'])


def _large(mon, case):
  """What a large message took is given back."""
  rng = random.Random(case['salt'])
  c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': ['aes128:1']}))
  s = kit.opened(mon, kz.Signer, gen.keyset({'keys': ['hmac:1']}))
  se = kz.SessionEncrypter(c)
  sd = kz.SessionDecrypter(c, se.session_material)
  what = case['what']

  def work(n):
    m = S(rng.randbytes(n))
    if what == 'crypt':
      assert c.Decrypt(c.Encrypt(m)) == m
    elif what == 'sign':
      assert s.Verify(m, s.Sign(m))
    elif what == 'attached':
      assert s.AttachedVerify(s.AttachedSign(m, 'n'), 'n') == m
    elif what == 'session':
      assert sd.Decrypt(se.Encrypt(m)) == m
    else:
      sink = kit.Sink()
      w = c.CreateEncryptingStreamWriter(sink)
      w.write(m)
      w.flush()
      r = c.CreateDecryptingStreamReader(io.StringIO(sink.value(), newline=''))
      while r.read() != '':
        pass
  size = 1000000 if what != 'stream' else 200000
  with CryptLib(case['lib']):
    tracemalloc.start()
    try:
      for i in range(3):
        work(100)
      base = memory()
      work(size)
      first = memory() - base
      left = first
      for i in range(12):
        if left < size // 4:
          break
        work(100)      # pushes the large one out of a small cache
        left = memory() - base
    finally:
      tracemalloc.stop()
  mon.check(left < size // 4, lambda: '%s: %d bytes of a message of %d bytes are still held long after it was handled' % (what, left, size))
  mon.event('large-released')
  mon.distinct('large', what, case['lib'])


def _held(mon, case):
  """Objects that stay in use do not hold files."""
  loc, enc = mon.tmpdir(), mon.tmpdir()
  gen.keyset({'keys': ['aes128:1', 'aes128:2']}).write(loc)
  before, threads = fds(), threading.active_count()
  held = [kz.Crypter.Read(loc) for _ in range(150)] + [kz.Encrypter(readers.CreateReader(loc)) for _ in range(150)]
  g = [kz.GenericKeyczar.Read(loc) for _ in range(50)]
  for i, x in enumerate(g):
    x.Write(writers.CreateWriter(enc))
  streams = [h.CreateEncryptingStreamWriter(kit.Sink()) for h in held]
  after = fds()
  mon.check(after <= before, lambda: '%d key set objects hold %d files open' % (len(held), after - before))
  mon.check(threading.active_count() <= threads, 'key set objects hold threads')
  mon.check(len(streams) == len(held) and set(os.listdir(enc)) == {'meta', '1', '2'}, 'objects are missing')
  mon.event('held-open')
  mon.distinct('held', case['salt'])


def run(mon, case):
  {'level': _level, 'long': _long, 'large': _large, 'held': _held}[case['k']](mon, case)
