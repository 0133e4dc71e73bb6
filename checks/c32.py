"""C32: the C++ library accepts nothing but what the holder of a key made: altered ciphertexts and forged signatures are refused."""
import json
import random

from kzmon import foreign, gen, kit, ref
from checks import c31

ID = 'C32'
LEVEL = 'exploration'
RULE = 'one altered or forged input given to the C++ library: distinct by operation, kind of key, kind and place of the alteration, length'
REQUIRED = ('large', 'sizes', 'aes', 'rsa', 'hmac', 'dsa', 'ecdsa', 'flip', 'cut', 'extend', 'splice', 'cancel', 'other-key', 'version-byte', 'other-message', 'other-hidden', 'boundary',
            'other-set', 'accepted-genuine', 'refused', 'session', 'material', 'text', 'unversioned', 'key-file', 'signature-of-other-kind')
ASSUMPTIONS = c31.ASSUMPTIONS
CASE_TIMEOUT = {'quick': 200, 'thorough': 600}


def setup():
  foreign.setup_cpp()


CRYPT = ('aes', 'aes', 'aes', 'rsa1024')
SIGN = ('hmac', 'hmac', 'dsa', 'ecdsa', 'rsa1024', 'rsa2048')


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(48 if q else 700):
    yield {'k': 'crypt', 'set': c31.spec(rng, CRYPT[i % len(CRYPT)], 'crypt'), 'salt': rng.randrange(1 << 30), 'n': 5}
  for i in range(48 if q else 700):
    yield {'k': 'sign', 'set': c31.spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 4}
  for i in range(14 if q else 200):
    yield {'k': 'session', 'crypt': c31.spec(rng, 'aes', 'crypt'), 'sign': c31.spec(rng, SIGN[i % len(SIGN)], 'sign'), 'salt': rng.randrange(1 << 30), 'n': 2}
  for i in range(8 if q else 100):
    yield {'k': 'keyfile', 'salt': rng.randrange(1 << 30)}
  for n in (70001, 1200000, 2500000, 5000000) if q else (70001, 300000, 1200000, 2500000, 5000000, 9000000, 17000000):
    yield {'k': 'large', 'n': n, 'salt': rng.randrange(1 << 30)}
  for lo in range(0, 420 if q else 2100, 60):
    yield {'k': 'sizes', 'from': lo, 'to': lo + 60, 'salt': rng.randrange(1 << 30)}
  # every bit of one ciphertext and one signature of each kind
  for kind in ('aes', 'hmac', 'dsa', 'ecdsa', 'rsa1024'):
    yield {'k': 'bits', 'kind': kind, 'salt': rng.randrange(1 << 30)}


def with_primary(spec):
  ks = gen.keyset(spec)
  if ks.primary is None:
    ks.versions[0].status = 'PRIMARY'
  return ks


def alterations(rng, raw, others, ids, n=60):
  """(kind, bytes) different from raw."""
  out = []
  for _ in range(n):
    i = rng.choice((rng.randrange(len(raw)), rng.randrange(min(len(raw), 24)), len(raw) - 1 - rng.randrange(min(len(raw), 24))))
    out.append(('flip', kit.flip(raw, i, 1 << rng.randrange(8))))
  for cut in (1, 2, 3, 4, 5, 8, 16, 17, 20, 21, 32, 36, 37, len(raw) - 5, len(raw) - 1, len(raw)):
    if 0 < cut <= len(raw):
      out.append(('cut', raw[:-cut]))
      out.append(('cut', raw[:5] + raw[5 + cut:]))
      i = rng.randrange(len(raw))
      out.append(('cut', raw[:i] + raw[i + cut:]))
  for add in (b'\0', b'\0' * 16, b'\x01', rng.randbytes(1), rng.randbytes(16), raw, raw[5:], raw[-20:], raw[-36:]):
    out.append(('extend', raw + add))
    out.append(('extend', raw[:5] + add + raw[5:]))
    i = rng.randrange(len(raw))
    out.append(('extend', raw[:i] + add + raw[i:]))
  for o in others:
    for at in (1, 5, 9, 21, 37, len(raw) - 20, len(raw) // 2, rng.randrange(len(raw))):
      if 0 < at < len(raw):
        out.append(('splice', raw[:at] + o[at:]))
        out.append(('splice', o[:at] + raw[at:]))
    if len(o) > 60 and len(raw) > 60:
      out.append(('splice', raw[:-20] + o[-20:]))
      out.append(('splice', raw[:21] + o[21:]))
      out.append(('splice', raw[:5] + o[5:21] + raw[21:]))
  for i in ids:
    out.append(('other-key', raw[:1] + i + raw[5:]))
  for v in (1, 2, 0x80, 0xff):
    out.append(('version-byte', bytes([v]) + raw[1:]))
  if len(raw) > 69:
    b = bytearray(raw)
    b[21:37], b[37:53] = raw[37:53], raw[21:37]
    out.append(('splice', bytes(b)))
    out.append(('cut', raw[:21] + raw[37:]))
    out.append(('extend', raw[:37] + raw[21:37] + raw[37:]))
  for v in kit.cancelling(rng, raw):
    out.append(('cancel', v))
  for v in kit.mutants(rng, raw, 20):
    out.append(('flip', v))
  out.append(('other-message', rng.randbytes(len(raw))))
  return [(k, v) for k, v in out if v != raw]


def large(mon, case):
  """Nothing changes with the size of the message."""
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  msg = rng.randbytes(case['n'])
  cloc = gen.keyset({'keys': gen.aes_keys(rng, 1), 'purpose': 'crypt'}).write(mon.tmpdir())
  h = cpp.open('Crypter', cloc)
  cpp.do('encoding', h, 0)
  raw = cpp.do('encrypt', h, msg)
  mon.check(raw is not None and cpp.do('decrypt', h, raw) == msg, 'C++: a large message does not round trip', length=len(msg))
  mon.event('accepted-genuine')
  for i in (1, 5, 20, 21, 37, 4096, 65536, 65600, len(raw) // 2, len(raw) - 60, len(raw) - 37, len(raw) - 20, len(raw) - 1, rng.randrange(len(raw)), rng.randrange(len(raw))):
    for x in (kit.flip(raw, i, 1 << rng.randrange(8)), raw[:i] + raw[i + 16:]):
      mon.check(cpp.do('decrypt', h, x) is None, 'C++: an altered large ciphertext decrypts', length=len(msg), at=i, cut=len(raw) - len(x))
      mon.event('refused')
      mon.distinct('large', case['n'], i, len(raw) - len(x))
  kind = rng.choice([k for k in SIGN if not (k == 'ecdsa' and foreign.is_java())])
  sloc = gen.keyset({'keys': gen.sign_keys(rng, kind, 1), 'purpose': 'sign'}).write(mon.tmpdir())
  s = cpp.open('Signer', sloc)
  cpp.do('encoding', s, 0)
  sig = cpp.do('sign', s, msg)
  att = cpp.do('attach', s, msg, b'hidden')
  mon.check(cpp.do('verify', s, msg, sig), 'C++: the signature of a large message is refused')
  mon.check(cpp.do('attached', s, att, b'hidden') == msg, 'C++: the attached signature of a large message is refused')
  for i in (0, 1, 4096, 65535, 65536, 131072, len(msg) // 2, len(msg) - 65, len(msg) - 1, rng.randrange(len(msg))):
    if i < len(msg):
      for x in (kit.flip(msg, i, 1 << rng.randrange(8)), msg[:i] + msg[i + 1:], msg[:i]):
        mon.check(not cpp.do('verify', s, x, sig), 'C++: a signature holds for another large message', length=len(msg), at=i)
        mon.event('refused')
      mon.check(cpp.do('attached', s, kit.flip(att, 9 + i, 1 << rng.randrange(8)), b'hidden') is None, 'C++: an altered large attached signature is accepted', at=i)
  # hidden data and session messages of that size
  hid = msg
  att = cpp.do('attach', s, b'data', hid)
  mon.check(att is not None and cpp.do('attached', s, att, hid) == b'data', 'C++: an attached signature with large hidden data is refused')
  for i in (0, 4095, 65536, len(hid) // 2, len(hid) - 1, rng.randrange(len(hid))):
    for x in (kit.flip(hid, i, 1 << rng.randrange(8)), hid[:i] + hid[i + 1:], hid[:i]):
      mon.check(cpp.do('attached', s, att, x) is None, 'C++: an attached signature holds for other large hidden data', length=len(hid), at=i)
      mon.event('refused')
  hloc = gen.keyset({'keys': gen.sign_keys(rng, 'hmac', 2), 'purpose': 'sign'}).write(mon.tmpdir())
  e = cpp.newsession(cloc, hloc, 128)
  blob = cpp.do('blob', e)
  d = cpp.opensession(cloc, hloc, blob)
  out = cpp.do('sessencrypt', e, msg)
  mon.check(out is not None and cpp.do('sessdecrypt', d, out) == msg, 'C++: a large session message does not round trip', length=len(msg))
  raw = ref.unb64(out.decode('ascii'))
  # a message of another session with the same keys is refused whatever its size
  e2 = cpp.newsession(cloc, hloc, 128)
  mon.check(cpp.do('sessdecrypt', d, cpp.do('sessencrypt', e2, msg)) is None, 'C++: a large message of another session decrypts')
  j = json.loads(gen_key(cloc).decrypt(ref.unb64(blob.decode('ascii')))[0])
  replayed = ref.AesK.parse(j['key']).encrypt(msg[:70000], rng.randbytes(16)) if len(msg) < 100000 else ref.attached_parts(raw)[1]
  for x in (b'\0' + raw[1:5] + ref.u32(len(replayed)) + replayed + bytes(20), raw[:9 + len(replayed)] + raw[-20:-1] + bytes([raw[-1] ^ 1])):
    mon.check(cpp.do('sessdecrypt', d, ref.b64(x)) is None, 'C++: a large session message with a forged signature is accepted', length=len(msg))
    mon.event('refused')
  mon.event('large')
  cpp.done()


def gen_key(loc):
  """The only key of a set of AES keys."""
  with open(loc + '/1') as f:
    return ref.AesK.parse(json.load(f))


def sizes(mon, case):
  """Ciphertexts of every number of blocks, altered in every part."""
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  ks = with_primary({'keys': gen.aes_keys(rng, 1), 'purpose': 'crypt'})
  k = ks.primary.key
  h = cpp.open('Crypter', ks.write(mon.tmpdir()))
  cpp.do('encoding', h, 0)
  pool = rng.randbytes(case['to'] * 16 + 16)
  for n in range(case['from'], case['to']):
    msg = pool[:n * 16 + rng.randrange(16)]
    raw = k.encrypt(msg, rng.randbytes(16)) if rng.random() < .3 else cpp.do('encrypt', h, msg)
    mon.check(cpp.do('decrypt', h, raw) == msg, 'C++: a ciphertext of %d blocks does not round trip' % (n + 1))
    mon.event('accepted-genuine')
    for at in list(range(21, len(raw) - 20, 512)) + [rng.randrange(5, 21), len(raw) - 21 - rng.randrange(16), len(raw) - 1 - rng.randrange(20)]:
      i = min(at + rng.randrange(512 if 21 <= at < len(raw) - 540 else 1), len(raw) - 1)
      x = kit.flip(raw, i, 1 << rng.randrange(8))
      mon.check(cpp.do('decrypt', h, x) is None, lambda: 'C++: an altered ciphertext of %d blocks decrypts' % (n + 1), at=i, genuine=raw)
      mon.event('refused')
      mon.distinct('sizes', n, i // 512)
  mon.event('sizes')
  cpp.done()


def damaged_text(rng, t):
  """Alterations of an encoded text."""
  alpha = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
  for _ in range(20):
    i = rng.randrange(len(t))
    yield t[:i] + bytes([rng.choice(alpha)]) + t[i + 1:]
    yield t[:i] + t[i + 1:]
    yield t[:i] + bytes([rng.choice(alpha)]) + t[i:]
    yield t[:i] + bytes([rng.randrange(256)]) + t[i + 1:]
    yield t[:i]


def crypt(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  ks = with_primary(case['set'])
  loc = ks.write(mon.tmpdir())
  h = cpp.open('Crypter', loc)
  mon.check(h is not None, 'C++: a key set cannot be opened')
  other = gen.key('aes128:%d' % rng.randrange(1 << 20)) if ks.type == 'AES' else gen.key('rsa1024:%d' % rng.randrange(50))
  made = []
  cpp.do('encoding', h, 0)
  for i in range(case['n']):
    v = rng.choice(ks.versions)
    k = v.key
    msg = gen.message(gen.msg(rng, maxlen=60))
    raw = k.encrypt(msg, rng.randbytes(16 if k.kind == 'aes' else 20))
    mon.check(cpp.do('decrypt', h, raw) == msg, 'C++: a genuine ciphertext does not decrypt')
    mon.event('accepted-genuine')
    made.append(raw)
    mon.event(k.kind)
    for what, x in alterations(rng, raw, made[:-1][-2:], [y.key.id for y in ks.versions if y.key is not k] + [other.id, b'\0' * 4, b'\xff' * 4]):
      if x in made:
        continue
      got = cpp.do('decrypt', h, x)
      if got is not None and k.kind == 'rsa' and x[:1] == b'\0':
        # the same number written otherwise
        for y in ks.versions:
          if x[1:5] == y.key.id:
            try:
              same = y.key.decrypt(x)[0] == got == msg
            except ref.FormatError:
              same = False
            if same and ref.b2i(x[5:]) == ref.b2i(raw[5:]):
              got = None
      mon.check(got is None, lambda: 'C++: an altered %s ciphertext decrypts (%s)' % (k.kind, what), altered=x, genuine=raw, got=got)
      mon.event(what)
      mon.event('refused')
      mon.distinct('decrypt', k.kind, what, len(x), sum(a != b for a, b in zip(x, raw)), next((j for j, (a, b) in enumerate(zip(x, raw)) if a != b), -1))
    # a ciphertext of a key that is not in the set, under every header
    raw = other.encrypt(msg, rng.randbytes(16 if k.kind == 'aes' else 20))
    if other.id not in [y.key.id for y in ks.versions]:
      for head in [raw[:5]] + [b'\0' + y.key.id for y in ks.versions]:
        mon.check(cpp.do('decrypt', h, head + raw[5:]) is None, 'C++: a ciphertext of another key decrypts')
        mon.event('other-set')
        mon.event('refused')
    # encoded
    cpp.do('encoding', h, 1)
    t = ref.b64(made[-1]).encode()
    for x in damaged_text(rng, t):
      got = cpp.do('decrypt', h, x)
      mon.check(got is None or got == msg, lambda: 'C++: an altered text decrypts to something else', altered=x, genuine=t, got=got)
      mon.event('text')
    cpp.do('encoding', h, 0)
  cpp.done()


def verified(mon, ks, op, x, msg, hid):
  """What the reference says about x: True, or False if refusing it is right."""
  keys = [v.key for v in ks.versions]

  def ok(k, signed, sig):
    try:
      return k.verify(signed, sig)
    except ref.FormatError:
      return False

  if op == 'unversioned':
    return any(ok(k, msg, x) for k in keys)
  if x[:1] != b'\0':
    return False
  keys = [k for k in keys if k.id == x[1:5]]
  if op == 'sign':
    return any(ok(k, msg + b'\0', x[5:]) for k in keys)
  try:
    head, data, sig = ref.attached_parts(x)
  except ref.FormatError:
    return False
  return any(ok(k, ref.attached_message(data, hid), sig) for k in keys)


def ask(mon, cpp, h, op, x, msg, hid):
  if op == 'attach':
    return cpp.do('attached', h, x, hid)
  return cpp.do('verify', h, msg, x)


def judge(mon, cpp, ks, h, op, what, x, msg, hid):
  got = ask(mon, cpp, h, op, x, msg, hid)
  kind = ks.versions[0].key.kind
  if got is not None:
    mon.check(verified(mon, ks, op, x, msg, hid), lambda: 'C++: a forged %s signature is accepted (%s, %s)' % (kind, op, what), forged=x, message_=msg, hidden=hid)
    if op == 'attach':
      data = ref.attached_parts(x)[1]
      mon.check(got == data, 'C++: AttachedVerify gives data that was not signed', got=got)
  else:
    mon.event('refused')
  mon.event(what)
  mon.distinct(op, kind, what, len(x), len(msg), x[-3:])


def sign(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  ks = with_primary(case['set'])
  loc = ks.write(mon.tmpdir())
  h, u = cpp.open(rng.choice(('Signer', 'Verifier')), loc), cpp.open('UnversionedVerifier', loc)
  mon.check(h is not None and u is not None, 'C++: a key set cannot be opened')
  for x in (h, u):
    cpp.do('encoding', x, 0)
  mon.event(ks.versions[0].key.kind)
  mine = [v.key.id for v in ks.versions]
  others = [k for k in (gen.key(s) for s in gen.sign_keys(rng, case['set']['keys'][0].split(':')[0].replace('192', '').replace('224', '').replace('256', '').replace('384', ''), 3)
                        + ['hmac:%d' % rng.randrange(99999)]) if k.id not in mine]
  made = {'sign': [], 'attach': [], 'unversioned': []}
  for i in range(case['n']):
    k = rng.choice(ks.versions).key
    msg = gen.message(gen.msg(rng, maxlen=60))
    hid = gen.message(gen.msg(rng, maxlen=rng.choice((0, 10, 40, 40))))
    for op, hh, signed in (('sign', h, msg + b'\0'), ('unversioned', u, msg), ('attach', h, ref.attached_message(msg, hid))):
      sig = c31.genuine(rng, k, signed)
      head = b'' if op == 'unversioned' else b'\0' + k.id + (ref.u32(len(msg)) + msg if op == 'attach' else b'')
      raw = head + sig
      mon.check(ask(mon, cpp, hh, op, raw, msg, hid) is not None, 'C++: a genuine signature is refused')
      mon.event('accepted-genuine')
      if op == 'unversioned':
        mon.event('unversioned')
      made[op].append(raw)
      fast = k.kind == 'hmac'
      for what, x in alterations(rng, raw, made[op][:-1][-2:], [y for y in mine if y != k.id] + [o.id for o in others], 60 if fast else 12):
        judge(mon, cpp, ks, hh, op, what, x, msg, hid)
      # other messages
      for m2 in (msg + b'\0', msg[:-1], b'\0' + msg, msg + b'x', kit.flip(msg, rng.randrange(len(msg)), 1) if msg else b'y', b''):
        if m2 != msg:
          if op == 'attach':
            x = b'\0' + k.id + ref.u32(len(m2)) + m2 + sig
          else:
            x = raw
          judge(mon, cpp, ks, hh, op, 'other-message', x, m2, hid)
      if op == 'attach':
        for h2 in (hid + b'\0', hid[:-1], b'', hid + b'x', b'\0' + hid, b'x'):
          if h2 != hid:
            judge(mon, cpp, ks, hh, op, 'other-hidden', raw, msg, h2)
        # the boundary between data and what follows is moved
        body = raw[9:]
        for d in range(-6, 30):
          n = len(msg) + d
          if d and n >= 0:
            judge(mon, cpp, ks, hh, op, 'boundary', raw[:5] + ref.u32(n) + body, msg, hid)
            if d < 0:
              judge(mon, cpp, ks, hh, op, 'boundary', raw[:5] + ref.u32(n) + msg[:n] + sig, msg, msg[n:] + hid)
        for n in (0xffffffff, 0x80000000, 0x7fffffff, 0xfffffff7, len(raw), len(raw) - 9, len(raw) - 8):
          judge(mon, cpp, ks, hh, op, 'boundary', raw[:5] + ref.u32(n) + body, msg, hid)
        # a detached signature is no attached one, nor the other way round
        d = c31.genuine(rng, k, msg + b'\0')
        judge(mon, cpp, ks, hh, op, 'signature-of-other-kind', raw[:9 + len(msg)] + d, msg, hid)
        judge(mon, cpp, ks, hh, 'sign', 'signature-of-other-kind', b'\0' + k.id + sig, msg, hid)
        judge(mon, cpp, ks, hh, 'sign', 'signature-of-other-kind', raw, msg, hid)
      if op == 'unversioned':
        judge(mon, cpp, ks, h, 'sign', 'signature-of-other-kind', b'\0' + k.id + sig, msg, hid)
        judge(mon, cpp, ks, u, op, 'signature-of-other-kind', b'\0' + k.id + sig, msg, hid)
      # another key's signature, under its own header and ours
      for o in others:
        s2 = c31.genuine(rng, o, signed)
        for ident in [o.id] + mine:
          x = s2 if op == 'unversioned' else b'\0' + ident + head[5:] + s2
          judge(mon, cpp, ks, hh, op, 'other-set', x, msg, hid)
      # degenerate signatures
      for s2 in (b'', b'\0', b'\0' * 20, b'\0' * len(sig), b'\xff' * len(sig), b'\x01', b'\0' * (len(sig) - 1) + b'\x01',
                 ref.der_seq(ref.der_int(0), ref.der_int(0)), ref.der_seq(ref.der_int(0), ref.der_int(1)), ref.der_seq(ref.der_int(1), ref.der_int(0)),
                 ref.der_seq(ref.der_int(1), ref.der_int(1)), sig[:-1], sig[1:], sig[:len(sig) // 2], sig[:1], sig[:4]):
        judge(mon, cpp, ks, hh, op, 'cut' if s2 == sig[:len(s2)] else 'flip', head + s2, msg, hid)
  cpp.done()


def session(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  cks, sks = with_primary(case['crypt']), with_primary(case['sign'])
  cloc, sloc = cks.write(mon.tmpdir()), sks.write(mon.tmpdir())
  k, nonce = ref.AesK(rng.randbytes(16), rng.randbytes(32)), rng.randbytes(16)
  text = json.dumps({'key': k.json(), 'nonce': ref.b64(nonce)}).encode()
  material = cks.primary.key.encrypt(text, rng.randbytes(16))
  d = cpp.opensession(cloc, sloc, ref.b64(material))
  mon.check(d is not None, 'C++: genuine session material is refused')
  fast = sks.versions[0].key.kind in ('hmac', 'ecdsa')
  for what, x in alterations(rng, material, [], [v.key.id for v in cks.versions if v is not cks.primary], 40 if fast else 6)[:None if fast else 30]:
    mon.check(cpp.opensession(cloc, sloc, ref.b64(x)) is None, lambda: 'C++: altered session material is accepted (%s)' % what, altered=x)
    mon.event('material')
  made = []
  for i in range(case['n']):
    msg = gen.message(gen.msg(rng, maxlen=60))
    data = k.encrypt(msg, rng.randbytes(16))
    sk = rng.choice(sks.versions).key
    sig = c31.genuine(rng, sk, ref.attached_message(data, nonce))
    head = b'\0' + sk.id
    raw = head + ref.u32(len(data)) + data + sig
    made.append(raw)
    mon.check(cpp.do('sessdecrypt', d, ref.b64(raw)) == msg, 'C++: a genuine session message does not decrypt')
    mon.event('accepted-genuine')
    forged = alterations(rng, raw, made[:-1], [v.key.id for v in sks.versions if v.key is not sk], 60 if fast else 15)
    # another nonce, none, or another key for the message
    for n2 in (b'', nonce[:-1], nonce + b'\0', rng.randbytes(16)):
      forged.append(('other-hidden', head + ref.u32(len(data)) + data + c31.genuine(rng, sk, ref.attached_message(data, n2))))
    forged.append(('signature-of-other-kind', head + ref.u32(len(data)) + data + c31.genuine(rng, sk, data + b'\0')))
    k2 = ref.AesK(rng.randbytes(16), rng.randbytes(32))
    for e in (k2.encrypt(msg, rng.randbytes(16)), b'\0' + k.id + k2.encrypt(msg, rng.randbytes(16))[5:], b'', msg, data[:-1], data[:41], kit.flip(data, 25, 4),
              cks.primary.key.encrypt(msg, rng.randbytes(16))):
      forged.append(('other-key', head + ref.u32(len(e)) + e + c31.genuine(rng, sk, ref.attached_message(e, nonce))))
    for what, x in forged:
      if x in made:
        continue
      got = cpp.do('sessdecrypt', d, ref.b64(x))
      if got is not None:
        # only another writing of the same signature is fine
        try:
          h2, d2, s2 = ref.attached_parts(x)
          good = d2 == data and got == msg and h2[:1] == b'\0' and any(v.key.id == h2[1:5] and v.key.verify(ref.attached_message(d2, nonce), s2) for v in sks.versions)
        except ref.FormatError:
          good = False
        mon.check(good, lambda: 'C++: a forged session message is accepted (%s)' % what, forged=x, got=got)
      else:
        mon.event('refused')
      mon.event('session')
      mon.distinct('session', sk.kind, what, len(x), x[-2:])
  cpp.done()


def keyfile(mon, case):
  """Key files encrypted by a key set are protected like messages."""
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  cks = with_primary(c31.spec(rng, 'aes', 'crypt'))
  cloc = cks.write(mon.tmpdir())
  ck = rng.choice(cks.versions).key
  ks = with_primary({'keys': gen.sign_keys(rng, 'hmac', 1)} if rng.random() < .5 else {'keys': gen.aes_keys(rng, 1)})
  ks.encrypted = True
  cls = 'Crypter' if ks.type == 'AES' else 'Signer'
  loc = mon.tmpdir()
  texts = []

  def enc(t):
    texts.append(t)
    return ref.b64(ck.encrypt(t.encode(), rng.randbytes(16)))

  ks.write(loc, enc)
  mon.check(cpp.open(cls, loc, 'crypted', cloc) is not None, 'C++: an encrypted key set cannot be opened')
  path = loc + '/1'
  with open(path) as f:
    good = f.read()
  raw = ref.unb64(good)
  other = with_primary(c31.spec(rng, 'aes', 'crypt'))
  oloc = other.write(mon.tmpdir())
  mon.check(cpp.open(cls, loc, 'crypted', oloc) is None, 'C++: an encrypted key set opens with another key set')
  mon.check(cpp.open(cls, loc) is None, 'C++: an encrypted key set opens without its keys')
  for what, x in alterations(rng, raw, [], [v.key.id for v in cks.versions if v.key is not ck], 40):
    with open(path, 'w') as f:
      f.write(ref.b64(x))
    mon.check(cpp.open(cls, loc, 'crypted', cloc) is None, lambda: 'C++: an altered encrypted key file is read (%s)' % what, altered=x)
    mon.event('key-file')
    mon.event('refused')
    mon.distinct('key-file', what, len(x), x[-2:])
  with open(path, 'w') as f:
    f.write(texts[0])
  mon.check(cpp.open(cls, loc, 'crypted', cloc) is None, 'C++: a plain key is read where encrypted ones are expected')
  if foreign.is_java():
    return cpp.done()
  # passwords
  loc = mon.tmpdir()
  sign_ = rng.random() < .5
  cls = 'Signer' if sign_ else 'Crypter'
  word = ''.join(rng.choice('abcXYZ019 ') for _ in range(rng.choice((1, 4, 8, 30)))).strip() or 'w'
  mon.check(cpp.tool('create', '--location=' + loc, '--purpose=' + ('sign' if sign_ else 'crypt')), 'C++: create fails')
  mon.check(cpp.tool('addkey', '--location=' + loc, '--status=primary', '--pass=' + word), 'C++: addkey with a password fails')
  mon.check(cpp.open(cls, loc, 'pbe', word) is not None, 'C++: a key set with a password cannot be opened')
  for w in (word + 'x', word[:-1], word.swapcase() if word.swapcase() != word else 'x', word + ' ', 'cartman'):
    if w and w != word:
      mon.check(cpp.open(cls, loc, 'pbe', w) is None, 'C++: a key set opens with a wrong password', right=word, wrong=w)
      mon.event('refused')
  mon.check(cpp.open(cls, loc) is None, 'C++: a key set with a password opens without it')
  cpp.done()


def bits(mon, case):
  """Every bit of one ciphertext or signature."""
  rng = random.Random(case['salt'])
  cpp = foreign.lib(mon)
  kind = case['kind']
  if kind == 'aes':
    ks = with_primary({'keys': gen.aes_keys(rng, 1)})
    h = cpp.open('Crypter', ks.write(mon.tmpdir()))
    cpp.do('encoding', h, 0)
    msg = b'attack at dawn, or not'
    raw = ks.primary.key.encrypt(msg, rng.randbytes(16))
    for i in range(len(raw) * 8):
      x = kit.flip(raw, i // 8, 1 << i % 8)
      mon.check(cpp.do('decrypt', h, x) is None, lambda: 'C++: an altered AES ciphertext decrypts', altered=x, genuine=raw)
      mon.event('refused')
      mon.distinct('bits', kind, i)
    for n in range(len(raw)):
      mon.check(cpp.do('decrypt', h, raw[:n]) is None, lambda: 'C++: a truncated AES ciphertext decrypts', altered=raw[:n], genuine=raw)
      mon.check(cpp.do('decrypt', h, raw[:n] + raw[n + 1:]) is None, lambda: 'C++: an altered AES ciphertext decrypts', altered=raw[:n] + raw[n + 1:], genuine=raw)
  else:
    ks = with_primary({'keys': gen.sign_keys(rng, kind, 1), 'purpose': 'sign'})
    h = cpp.open('Signer', ks.write(mon.tmpdir()))
    cpp.do('encoding', h, 0)
    k = ks.primary.key
    msg, hid = b'data', b'hidden'
    sig = c31.genuine(rng, k, msg + b'\0')
    att = b'\0' + k.id + ref.u32(len(msg)) + msg + c31.genuine(rng, k, ref.attached_message(msg, hid))
    for op, raw in (('sign', b'\0' + k.id + sig), ('attach', att)):
      mon.check(ask(mon, cpp, h, op, raw, msg, hid) is not None, 'C++: a genuine signature is refused')
      for i in range(len(raw) * 8):
        judge(mon, cpp, ks, h, op, 'flip', kit.flip(raw, i // 8, 1 << i % 8), msg, hid)
      for n in range(len(raw)):
        judge(mon, cpp, ks, h, op, 'cut', raw[:n], msg, hid)
        judge(mon, cpp, ks, h, op, 'cut', raw[:n] + raw[n + 1:], msg, hid)
  cpp.done()


def run(mon, case):
  {'crypt': crypt, 'sign': sign, 'session': session, 'keyfile': keyfile, 'bits': bits, 'large': large, 'sizes': sizes}[case['k']](mon, case)
