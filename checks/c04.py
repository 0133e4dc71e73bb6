"""C04: a damaged ciphertext stream never reads as complete."""
import random

from checks import c03
from kzmon import gen, kit, ref
from kzmon.env import B, LIBS, S, CryptLib, errors, kz

ID = 'C04'
LEVEL = 'exploration'
RULE = ('one evaluation = one damaged stream read to its end; non-trivial: the decoded stream differs from the genuine '
        'one; distinct by (damage, position, length, read size, buffer size, encoding, source, library)')
REQUIRED = ('damage:truncated', 'damage:flip', 'damage:removed', 'damage:extended', 'damage:text-truncated', 'damage:text-extended',
            'damage:empty', 'damage:random', 'damage:splice', 'damage:tag', 'genuine')
ASSUMPTIONS = ['plaintext released before the end of the stream is by design unauthenticated']


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 8
  i = 0
  for n in (0, 1, 15, 16, 17, 32, 47, 48, 100):
    for encoding in ('raw', 'base64'):
      i += 1
      yield {'k': 'all', 'n': n, 'salt': i, 'key': 'aes%d:%d' % ((128, 192, 256)[i % 3], i), 'encoding': encoding,
             'lib': LIBS[(i // 2) % 2]}
  for i in range(200 * mult):
    yield {'k': 'some', 'n': gen.msg_len(rng) if i % 20 else rng.choice(gen.BIG), 'salt': rng.randrange(1 << 30),
           'key': 'aes%d:%d' % (rng.choice((128, 192, 256)), i), 'encoding': rng.choice(('raw', 'base64')),
           'lib': rng.choice(LIBS)}

  for i, n in enumerate(gen.HUGE[::2]):
    yield {'k': 'some', 'n': n, 'salt': i, 'key': 'aes128:%d' % i, 'encoding': ('raw', 'base64')[i % 2], 'lib': LIBS[i % 2]}


def damaged(mon, c, text, genuine, case, rng, what, label, how=None, mode=None, buf=0):
  if text == genuine:
    return   # the random bytes happened to be what the damage would put there
  encoding = case['encoding']
  how = how or rng.choice(c03.READS)
  n = len(text)
  if n > 6000 and how in ('1', '2', '7', '15', '16', '17', 'rand', 'mixed', '64'):
    how = rng.choice(('all', '4096', '2000'))
  mode = mode or rng.choice(('plain', 'plain', 'short', 'one', 'none', 'pause') if n < 6000 else ('plain', 'short'))
  buf = rng.choice(c03.BUFS if n < 120000 else c03.BUFS[-2:]) if buf == 0 else buf
  if n > 120000:
    mode = 'plain'
  src, _ = c03.make_source(mon, text, mode, rng)
  label = '%s; %s, source %s, reads %s, buffer %s, %s' % (label, encoding, mode, how, buf, case['lib'])
  r = c03.open_reader(mon, c, src, encoding, buf)
  out = 0
  calls = 0
  while True:
    calls += 1
    if calls > 6 * n + 200:
      mon.violate('a damaged stream reads forever (%s)' % label)
    k = -1 if how == 'all' else (rng.choice((1, 15, 16, 17, 100, -1)) if how in ('rand', 'mixed') else int(how))
    o = mon.call(r.read, k)
    if not o.ok:
      break
    if o.value == '':
      mon.violate('a damaged stream reads as complete (%s): %d characters were returned, then a normal end'
                  % (label, out), text=text[:3000])
    if o.value is not None:
      out += len(o.value)
  mon.check(isinstance(o.exc, errors.KeyczarError), lambda: 'a damaged stream raises no KeyczarError (%s): %r'
            % (label, o), text=text[:3000], traceback=o.tb)
  o = mon.call(r.read)
  mon.check(not (o.ok and o.value == ''), lambda: 'after the failure a damaged stream reads as complete (%s)' % label)
  mon.event('damage:' + what)
  mon.distinct(what, label.split('(')[0])


def run(mon, case):
  rng = random.Random('%s' % case)
  key = gen.key(case['key'])
  c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': [case['key']]}))
  data = gen.message(['rand', case['n'], case['salt']])
  with CryptLib(case['lib']):
    if rng.random() < .5:
      t = c03.write_stream(mon, c, data, 'rand', 'raw', rng)
      ct = B(t)
    else:
      ct = B(mon.must('Encrypt', c.Encrypt, S(data), None))
    enc = S if case['encoding'] == 'raw' else ref.b64
    src, _ = c03.make_source(mon, enc(ct), 'plain', rng)
    got = c03.read_stream(mon, c03.open_reader(mon, c, src, case['encoding'], None), 'all', rng, 1000 + len(ct),
                          'genuine')
    mon.check(got == data, 'a genuine stream does not decrypt')
    mon.event('genuine')
    n = len(ct)
    if case['k'] == 'all':
      for i in range(n):
        for how in ('all', '1', '16', '100000'):
          damaged(mon, c, enc(ct[:i]), enc(ct), case, rng, 'truncated' if i else 'empty', 'cut after %d of %d bytes' % (i, n),
                  how=how)
        damaged(mon, c, enc(kit.flip(ct, i, 1 << rng.randrange(8))), enc(ct), case, rng, 'flip', 'byte %d of %d' % (i, n))
        damaged(mon, c, enc(kit.flip(ct, i, 255)), enc(ct), case, rng, 'flip', 'byte %d of %d' % (i, n))
        damaged(mon, c, enc(ct[:i] + ct[i + 1:]), enc(ct), case, rng, 'removed', 'byte %d of %d' % (i, n))
        damaged(mon, c, enc(ct[:i] + b'\0' + ct[i:]), enc(ct), case, rng, 'extended', 'byte at %d of %d' % (i, n))
        if i + 16 <= n:
          damaged(mon, c, enc(ct[:i] + ct[i + 16:]), enc(ct), case, rng, 'removed', '16 bytes at %d of %d' % (i, n))
      if case['encoding'] == 'base64':
        t = ref.b64(ct)
        for i in range(len(t)):
          damaged(mon, c, t[:i], enc(ct), case, rng, 'text-truncated', 'cut after %d of %d characters' % (i, len(t)))
          if i < 9:
            damaged(mon, c, t + 'A7_-zQ09A'[:i + 1], enc(ct), case, rng, 'text-extended', '%d characters appended to %d' % (i + 1, len(t)))
      for i in range(1, 40):
        damaged(mon, c, enc(ct + b'\0' * i), enc(ct), case, rng, 'extended', '%d zeros appended to %d' % (i, n))
        damaged(mon, c, enc(ct + gen.stream(i, i)), enc(ct), case, rng, 'extended', '%d appended to %d' % (i, n))
      body, tag = ct[:-20], ct[-20:]
      for i in range(20):
        for j in range(i + 1, 20):
          damaged(mon, c, enc(kit.flip(kit.flip(ct, n - 20 + i, 0x41), n - 20 + j, 0x41)), enc(ct), case, rng, 'tag',
                  'tag bytes %d, %d' % (i, j), mode='plain')
        damaged(mon, c, enc(body + tag[:i]), enc(ct), case, rng, 'tag', 'tag cut to %d' % i)
        damaged(mon, c, enc(body + tag[:i] + b'\0' * (20 - i)), enc(ct), case, rng, 'tag', 'tag zeroed from %d' % i)
    else:
      for i in sorted(set([0, 1, 4, 5, 6, 20, 21, 36, 37, n - 1, n - 19, n - 20, n - 21, n - 36, n - 37, n // 2] +
                          [rng.randrange(n) for _ in range(6)])):
        if 0 <= i < n:
          damaged(mon, c, enc(ct[:i]), enc(ct), case, rng, 'truncated' if i else 'empty', 'cut after %d of %d bytes' % (i, n))
          if rng.random() < .5:
            damaged(mon, c, enc(kit.flip(ct, i, 1 << rng.randrange(8))), enc(ct), case, rng, 'flip', 'byte %d of %d' % (i, n))
      for m in kit.mutants(rng, ct, 6):
        damaged(mon, c, enc(m), enc(ct), case, rng, 'random', '%d random edits of %d' % (len(m) - n, n))
      other = B(mon.must('Encrypt', c.Encrypt, S(data), None))
      for name, m in (('tag', ct[:-20] + other[-20:]), ('iv', ct[:5] + other[5:21] + ct[21:]),
                      ('body', ct[:21] + other[21:-20] + ct[-20:]), ('twice', ct + ct), ('first blocks', ct[:37] + other[37:])):
        if m not in (ct, other):
          damaged(mon, c, enc(m), enc(ct), case, rng, 'splice', 'splice %s of %d' % (name, n))
