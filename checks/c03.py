"""C03: streaming and one-shot encryption are interchangeable."""
import io
import os
import random

from kzmon import gen, kit, ref
from kzmon.env import B, LIBS, S, CryptLib, kz, util

ID = 'C03'
LEVEL = 'exploration'
RULE = ('one evaluation = one stream written or read completely and compared; non-trivial: at least one stream '
        'end is involved and the outcome was compared with the plaintext; distinct by (direction, length, chunking, '
        'read size, buffer size, source behaviour, encoding, library)')
REQUIRED = ('stream>oneshot', 'oneshot>stream', 'stream>stream', 'reference>stream', 'stream>reference',
            'source:none', 'source:short', 'source:pause', 'pauses', 'read:limited', 'old-version', 'file')
ASSUMPTIONS = ['streams are text streams with one character per byte',
               'a non-blocking source returns no data only finitely often']

CHUNKS = ('one', 'all', '16', '15', '17', '3', '4', 'rand', 'blocks', 'empties', '4096', 'none')
READS = ('all', '1', '2', '7', '15', '16', '17', '64', '4096', '100000', 'rand', 'mixed')
BUFS = (None, -1, 0, 1, 15, 16, 17, 31, 100, 4096, 65536)
MODES = ('plain', 'short', 'one', 'none', 'file', 'pause', 'blockingerror', 'mixed')


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 10
  i = 0
  for n in list(range(0, 101)) + [x for x in gen.EDGES if x > 100]:
    i += 1
    yield {'n': n, 'pat': gen.PATTERNS[i % len(gen.PATTERNS)], 'salt': i, 'keys': ['aes%d:%d' % ((128, 192, 256)[i % 3], i)],
           'status': 'P', 'enc': 0, 'lib': LIBS[i % 2], 'rlib': LIBS[(i // 2) % 2]}
  for n in gen.HUGE:
    i += 1
    yield {'n': n, 'pat': 'rand', 'salt': i, 'keys': ['aes%d:%d' % ((128, 192, 256)[i % 3], i)],
           'status': 'P', 'enc': 0, 'lib': LIBS[i % 2], 'rlib': LIBS[(i // 2) % 2]}
  for n in (0, 1, 15, 16, 17, 31, 32, 33, 50) if mult == 1 else range(0, 130):
    i += 1
    yield {'k': 'pauses', 'n': n, 'pat': gen.PATTERNS[i % len(gen.PATTERNS)], 'salt': i, 'keys': ['aes%d:%d' % ((128, 192, 256)[i % 3], i)],
           'status': 'P', 'enc': 0, 'lib': LIBS[i % 2], 'rlib': LIBS[(i // 2) % 2]}
  for i in range(1500 * mult):
    nk = rng.choice((1, 1, 2, 4))
    big = i % 25 == 0
    yield {'n': rng.choice(gen.BIG) if big else gen.msg_len(rng), 'pat': rng.choice(gen.PATTERNS),
           'salt': rng.randrange(1 << 30), 'keys': gen.aes_keys(rng, nk), 'status': gen.statuses(rng, nk),
           'enc': rng.randrange(nk), 'lib': rng.choice(LIBS), 'rlib': rng.choice(LIBS)}


def chunks(data, how, rng):
  if how == 'all':
    return [data]
  if how == 'none':
    return [data] if data else []
  if how == 'one':
    return [data[i:i + 1] for i in range(len(data))]
  if how == 'rand':
    out = []
    i = 0
    while i < len(data):
      k = rng.choice((0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, rng.randrange(1, 200), rng.randrange(1, 5000)))
      out.append(data[i:i + k])
      i += k
    return out
  if how == 'blocks':
    out = []
    i = 0
    while i < len(data):
      k = 16 * rng.randrange(1, 20)
      out.append(data[i:i + k])
      i += k
    return out
  if how == 'empties':
    out = ['']
    for c in chunks(data, 'rand', rng):
      out += [c, '']
    return out
  k = int(how)
  return [data[i:i + k] for i in range(0, len(data), k)]


def write_stream(mon, enc, data, how, encoder, rng):
  """Returns the text a stream writer produced."""
  sink = kit.Sink()
  if encoder == 'raw':
    w = mon.must('CreateEncryptingStreamWriter', enc.CreateEncryptingStreamWriter, sink, encoder=None)
  else:
    w = mon.must('CreateEncryptingStreamWriter', enc.CreateEncryptingStreamWriter, sink)
  for c in chunks(S(data), how, rng):
    mon.must('write(%d characters)' % len(c), w.write, c)
  mon.must('flush', w.flush)
  out = sink.value()
  mon.must('close', w.close)
  mon.check(sink.value() == out, 'close() changed the output after flush()')
  return out


def read_stream(mon, reader, how, rng, limit, label):
  """Reads until the end ('') and returns the pieces joined; limit bounds the number of calls."""
  out = []
  nones = 0
  while True:
    if how == 'all':
      n = -1
    elif how == 'rand':
      n = rng.choice((1, 2, 15, 16, 17, 100, rng.randrange(1, 5000)))
    elif how == 'mixed':
      n = rng.choice((-1, 1, 5, 33))
    else:
      n = int(how)
    o = mon.call(reader.read, n) if n >= 0 or rng.random() < .5 else mon.call(reader.read)
    if not o.ok:
      mon.violate('reading a genuine stream fails (%s): %r' % (label, o), traceback=o.tb)
    r = o.value
    if r is None:
      nones += 1
      if nones > limit:
        mon.violate('the decrypting stream never makes progress (%s): read() returned None %d times'
                    % (label, nones))
      continue
    if not isinstance(r, str):
      mon.violate('read(%d) returned %s (%s)' % (n, type(r).__name__, label))
    if n >= 0:
      mon.event('read:limited')
      mon.check(len(r) <= n, lambda: 'read(%d) returned %d characters (%s)' % (n, len(r), label))
    if r == '':
      return B(''.join(out))
    out.append(r)


def make_source(mon, text, mode, rng):
  if mode == 'plain':
    return io.StringIO(text), None
  if mode == 'file':
    p = os.path.join(mon.tmpdir(), 'f')
    with io.open(p, 'w', encoding='latin-1', newline='') as f:
      f.write(text)
    mon.event('file')
    return io.open(p, encoding='latin-1', newline=''), None
  pauses = ()
  if mode == 'pause':
    n = len(text)
    # at the end, around the tag, in the header and IV, and anywhere
    pauses = [p for p in rng.sample((n, n, n - 1, n - 4, n - 20, n - 21, n - 36, 0, 5, 21, rng.randrange(n + 1), rng.randrange(n + 1)), 4) if p >= 0]
  s = kit.Source(text, rng, mode, pauses)
  return s, s


def open_reader(mon, c, src, encoding, buf):
  kw = {}
  if encoding == 'raw':
    kw['decoder'] = None
  if buf is not None:
    kw['buffer_size'] = buf
  return mon.must('CreateDecryptingStreamReader', c.CreateDecryptingStreamReader, src, **kw)


def _pauses(mon, case):
  """A source that has no data for a moment, at every position in turn, one or two times."""
  rng = random.Random('%s' % case)
  data = gen.message([case['pat'], case['n'], case['salt']])
  ks = gen.keyset(case)
  c = kit.opened(mon, kz.Crypter, ks)
  raw = ks.versions[0].key.encrypt(data, gen.stream('iv%s' % case['salt'], 16))
  for encoding in ('raw', 'base64'):
    text = S(raw) if encoding == 'raw' else ref.b64(raw)
    for pos in range(len(text) + 1):
      pauses = [pos] * rng.choice((1, 2)) + ([len(text)] if rng.random() < .3 else [])
      for how in ('all', rng.choice(READS)):
        label = 'reference > stream, %d bytes, %s, no data at %s of %d, reads %s' % (case['n'], encoding, pauses, len(text), how)
        r = open_reader(mon, c, kit.Source(text, rng, 'pause', pauses), encoding, rng.choice(BUFS))
        got = read_stream(mon, r, how, rng, 4 * len(text) + 100, label)
        mon.check(got == data, lambda: 'a decrypting stream gives %r instead of %r (%s)' % (got[:200], data[:200], label))
        mon.distinct('pause', case['n'], encoding, pos, how)
        mon.event('pauses')


def run(mon, case):
  if case.get('k') == 'pauses':
    return _pauses(mon, case)
  rng = random.Random('%s' % case)
  data = gen.message([case['pat'], case['n'], case['salt']])
  ks = gen.keyset(case)
  old = gen.keyset(case)
  for v in old.versions:
    if v.status == 'PRIMARY':
      v.status = 'ACTIVE'
  old.versions[case['enc']].status = 'PRIMARY'
  key = ks.versions[case['enc']].key
  if ks.versions[case['enc']].status != 'PRIMARY':
    mon.event('old-version')
  enc = kit.opened(mon, (kz.Encrypter, kz.Crypter)[case['salt'] % 2], old)
  dec = kit.opened(mon, kz.Crypter, ks)
  n = case['n']
  hows = rng.sample(CHUNKS, 3) if n < 6000 else ['all', 'rand', '4096'] if n < 120000 else ['all', rng.choice(('4096', '131072', '1048576'))]
  made = []   # (origin, encoding, text)
  for how in hows:
    encoding = rng.choice(('raw', 'base64'))
    with CryptLib(case['lib']):
      text = write_stream(mon, enc, data, how, encoding, rng)
    raw = B(text) if encoding == 'raw' else ref.unb64(text)
    if n < 3000:
      got, _ = key.decrypt(raw)
      mon.event('stream>reference')
      mon.check(got == data, 'the reference decrypts an encrypting stream (%d bytes, chunks %s) to something else'
                % (n, how))
    with CryptLib(case['rlib']):
      o = mon.call(dec.Decrypt, text, *([None] if encoding == 'raw' else []))
    mon.check(o.ok and B(o.value) == data, lambda: 'what an encrypting stream wrote (%d bytes, chunks %s, %s, %s) '
              'does not decrypt to the plaintext: %r' % (n, how, encoding, case['lib'], o), text=text[:3000],
              traceback=o.tb)
    mon.event('stream>oneshot')
    mon.distinct('s>o', n, how, encoding, case['lib'])
    made.append(('stream', raw))
  with CryptLib(case['lib']):
    made.append(('oneshot', B(mon.must('Encrypt', enc.Encrypt, S(data), None))))
  if n < 3000:
    made.append(('reference', key.encrypt(data, gen.stream('iv%s' % case['salt'], 16))))
  for origin, raw in made:
    for _ in range(2):
      encoding = rng.choice(('raw', 'base64'))
      mode = rng.choice(MODES[:6] if encoding == 'raw' else MODES)
      how = rng.choice(READS)
      if n > 6000 and how in ('1', '2', '7'):
        how = '1000'
      if n > 20000 and mode == 'one':
        mode = 'short'
      if n > 120000:
        mode, how = rng.choice(('plain', 'short', 'file')), rng.choice(('all', '4096', '100000', '1048576'))
      buf = rng.choice(BUFS if n < 120000 else BUFS[-2:] + (1 << 20,))
      text = S(raw) if encoding == 'raw' else ref.b64(raw)
      src, stats = make_source(mon, text, mode, rng)
      label = '%s > stream, %d bytes, %s, source %s, reads %s, buffer %s, %s' % (
          origin, n, encoding, mode, how, buf, case['rlib'])
      with CryptLib(case['rlib']):
        r = open_reader(mon, dec, src, encoding, buf)
        got = read_stream(mon, r, how, rng, 4 * len(text) + 100, label)
        mon.check(got == data, lambda: 'a decrypting stream gives %s instead of the plaintext (%s)'
                  % ('only the first %d bytes' % len(got) if data.startswith(got) else 'other data', label),
                  got=got[:2000], plaintext=data[:2000])
        o = mon.call(r.read)
        mon.check(o.ok and o.value == '', lambda: 'read() after the end: %r (%s)' % (o, label))
      if mode == 'file':
        src.close()
      mon.event(origin + '>stream')
      if stats:
        if stats.blocked:
          mon.event('source:none')
          if mode == 'pause':
            mon.event('source:pause')
        if stats.shorts:
          mon.event('source:short')
      mon.distinct(origin, n, encoding, mode, how, buf, case['rlib'])
