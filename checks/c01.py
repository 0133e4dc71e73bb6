"""C01: whatever was encrypted decrypts to exactly the original plaintext."""
import json

from kzmon import gen, ref
from kzmon.env import B, LIBS, S, CryptLib, errors, kz, readers, util

ID = 'C01'
LEVEL = 'exploration'
RULE = ('one case = key set (AES-128/192/256 or RSA, 1-14 versions, mixed statuses) x plaintext '
        '(length edges, byte patterns) x encoder x crypt library x which version encrypted; '
        'non-trivial: a plaintext was actually encrypted and decrypted and compared; distinct by '
        '(key kind, version role, length, pattern, encoder, library, route)')
REQUIRED = ('roundtrip:aes', 'roundtrip:rsa', 'roundtrip:old-version', 'roundtrip:oaep-short-encoding',
            'rsa:too-long-refused')
ASSUMPTIONS = ['plaintexts are byte strings: str with code points below 256']


def hexenc(s):
  return s.encode('latin-1').hex()


def hexdec(s):
  return bytes.fromhex(s).decode('latin-1')


ENC = {'default': None, 'none': (None, None), 'hex': (hexenc, hexdec),
       'explicit': (util.Base64WSEncode, util.Base64WSDecode)}


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 12
  # every length 0..~300 for every key size
  for n in range(0, 300 * (1 if tier == 'quick' else 3)):
    for bits in (128, 192, 256):
      yield {'k': 'aes', 'keys': ['aes%d:%d' % (bits, n)], 'status': 'P', 'enc': 0,
             'msgs': [['rand', n, n], ['pad', n, n], ['trail0', n, n], ['padv', n, n], ['ten', n, n]],
             'encoder': ('default', 'none', 'hex')[n % 3], 'lib': LIBS[n % 2]}
  for n in gen.EDGES + gen.BIG:
    yield {'k': 'aes', 'keys': ['aes128:1', 'aes256:2'], 'status': 'AP', 'enc': n % 2,
           'msgs': [[p, n, n] for p in (gen.PATTERNS if n < 9000 else ('rand', 'nl'))],
           'encoder': 'default', 'lib': LIBS[n % 2]}
  for i, n in enumerate(gen.HUGE + gen.ENORMOUS):
    yield {'k': 'aes', 'keys': ['aes%d:1' % (128, 192, 256)[i % 3]], 'status': 'P', 'enc': 0, 'msgs': [['rand', n, n]],
           'encoder': ('default', 'none')[i // 2 % 2], 'lib': LIBS[i % 2]}
  for i in range(500 * mult):
    n = rng.choice((1, 1, 2, 3, 5, 14)) if i % 50 else (17, 34, 66, 130)[i // 50 % 4]
    keys = gen.aes_keys(rng, n)
    yield {'k': 'aes', 'keys': keys, 'status': gen.statuses(rng, n),
           'enc': rng.randrange(n), 'msgs': [gen.msg(rng, big=i % 20 == 0) for _ in range(4)],
           'encoder': rng.choice(sorted(ENC)), 'lib': rng.choice(LIBS)}
  # RSA: all message lengths that fit
  for bits, count in ((1024, 8), (512, 2), (768, 2), (2048, 3), (4096, 1)):
    cap = bits // 8 - 42
    step = 1 if bits <= 1024 or tier != 'quick' else 9
    for n in sorted(set(list(range(0, cap + 1, step)) + [0, 1, cap - 1, cap])):
      yield {'k': 'rsa', 'keys': ['rsa%d:%d' % (bits, n % count)], 'status': 'P', 'enc': 0,
             'msgs': [[gen.PATTERNS[n % len(gen.PATTERNS)], n, n]] +
                     ([['rand', n, n + 1], ['lead0', n, 3]] if bits <= 1024 else []),
             'encoder': ('default', 'none')[n % 2], 'public': n % 3 == 0}
    for extra in (1, 2, 20, 41, 1000):
      yield {'k': 'long', 'keys': ['rsa%d:0' % bits], 'n': cap + extra}
  for i in range(120 * mult):
    keys = ['rsa1024:%d' % x for x in gen.distinct_idx(rng, rng.choice((1, 2, 4)), 8)]
    yield {'k': 'rsa', 'keys': keys, 'status': gen.statuses(rng, len(keys)),
           'enc': rng.randrange(len(keys)),
           'msgs': [gen.msg(rng, maxlen=86) for _ in range(6)],
           'encoder': rng.choice(sorted(ENC)), 'public': rng.random() < .5}
  # moduli of 1017 and 1023 bits, and with all leading bits set
  for i in range(48 * mult):
    e = i % 4
    cap = gen.key('rsaedge:%d' % e).k - 42
    n = (0, 1, cap - 1, cap)[i // 4] if i < 16 else rng.randrange(cap + 1)
    yield {'k': 'rsa', 'keys': ['rsaedge:%d' % e], 'status': 'P', 'enc': 0, 'msgs': [['rand', n, i], ['lead0', n, i]],
           'encoder': ('default', 'none')[i % 2], 'public': i % 3 == 0}
    if i < 4:
      yield {'k': 'long', 'keys': ['rsaedge:%d' % e], 'n': cap + 1}
  # encodings that a decrypting integer library shortens: leading zero bytes in
  # the masked seed, and in the ciphertext itself
  for i in range(24 * mult):
    yield {'k': 'oaep', 'key': 'rsa%d:%d' % ((1024, 512, 768)[i % 3], i),
           'zeros': 1 + i % 2, 'where': 'seed' if i % 4 < 3 else 'cipher',
           'msg': gen.msg(rng, maxlen=22), 'salt': i}


def _Crypt(mon, case, ks, encrypt_with, msgs):
  lib = case.get('lib', LIBS[0])
  encoder = ENC[case['encoder']]
  with CryptLib(lib):
    # the set as it was when the message was encrypted: that version was primary
    old = gen.keyset(case)
    for i, v in enumerate(old.versions):
      if v.status == 'PRIMARY':
        v.status = 'ACTIVE'
    old.versions[encrypt_with].status = 'PRIMARY'
    if case.get('public'):
      enc = mon.must('reading the public key set', kz.Encrypter, ref.MemReader(old.public()))
    else:
      cls = kz.Encrypter if encrypt_with % 2 else kz.Crypter
      enc = mon.must('reading the key set', cls, ref.MemReader(old))
    now = mon.must('reading the key set', kz.Crypter, ref.MemReader(ks))
    for m in msgs:
      data = gen.message(m)
      args = () if encoder is None else (encoder[0],)
      ct = mon.must('Encrypt of %d bytes' % len(data), enc.Encrypt, S(data), *args)
      args = () if encoder is None else (encoder[1],)
      o = mon.call(now.Decrypt, ct, *args)
      mon.check(o.ok and B(o.value) == data,
                lambda: 'a plaintext of %d bytes (%s, %s key, encoder %s, %s) decrypts to something '
                'else: %r' % (len(data), m[0], case['keys'][encrypt_with], case['encoder'], lib, o),
                plaintext=data[:2000], ciphertext=ct[:4000], traceback=o.tb)
      mon.event('roundtrip:' + case['k'])
      if ks.versions[encrypt_with].status != 'PRIMARY':
        mon.event('roundtrip:old-version')
      mon.distinct(case['keys'][encrypt_with].split(':')[0], ks.versions[encrypt_with].status,
                   len(data), m[0], case['encoder'], lib, bool(case.get('public')))


def run(mon, case):
  k = case['k']
  if k == 'aes':
    _Crypt(mon, case, gen.keyset(case), case['enc'], case['msgs'])
  elif k == 'rsa':
    case = dict(case, purpose='crypt')
    _Crypt(mon, case, gen.keyset(case), case['enc'], case['msgs'])
  elif k == 'long':
    ks = gen.keyset({'keys': case['keys'], 'status': 'P', 'purpose': 'crypt'})
    enc = mon.must('reading the key set', kz.Encrypter, ref.MemReader(ks.public()))
    o = mon.call(enc.Encrypt, 'x' * case['n'])
    mon.check(not o.ok and isinstance(o.exc, errors.KeyczarError),
              'a message that does not fit RSA encryption is not refused: %r' % o)
    mon.event('rsa:too-long-refused')
    mon.distinct('long', case['keys'][0].split(':')[0], case['n'])
  elif k == 'oaep':
    key = gen.key(case['key'])
    data = gen.message(case['msg'])
    want = b'\0' * case['zeros']
    for i in range(1 << 20):
      seed = gen.stream('seed%d/%d' % (case['salt'], i), 20)
      if case['where'] == 'seed':
        em = ref.oaep_encode(data, key.k, seed)
        if em[1:1 + len(want)] == want:
          break
      else:
        ct = key.encrypt(data, seed)
        if ct[5] == 0:
          break
    ct = key.encrypt(data, seed)
    ks = gen.keyset({'keys': [case['key']], 'status': 'P', 'purpose': 'crypt'})
    c = mon.must('reading the key set', kz.Crypter, ref.MemReader(ks))
    forms = [ct]
    if ct[5] == 0:
      forms.append(ct[:5] + ct[5:].lstrip(b'\0'))
    for form in forms:
      o = mon.call(c.Decrypt, S(form), None)
      mon.check(o.ok and B(o.value) == data,
                'an RSA ciphertext with leading zero bytes (%s) decrypts wrongly: %r'
                % (case['where'], o), ciphertext=form, plaintext=data)
      mon.event('roundtrip:oaep-short-encoding')
      mon.distinct('oaep', case['key'].split(':')[0], case['zeros'], case['where'], len(data))
