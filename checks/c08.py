"""C08: outputs, key files and accepted inputs follow the Keyczar format."""
import io
import json
import os
import random

from kzmon import gen, kit, ref
from kzmon.env import B, LIBS, REPO, S, CryptLib, keyczart, kz, readers, writers

ID = 'C08'
LEVEL = 'exploration'
RULE = ('one evaluation = one output decoded strictly by the independent reference implementation, one input made by '
        'the reference (or shipped in the repository) given to the code, or one key or metadata file parsed; '
        'non-trivial: bytes really crossed between the code and the reference; distinct by (direction, kind, length, '
        'variant or file)')
REQUIRED = ('golden:decrypt', 'golden:verify', 'golden:session', 'golden:signed-session', 'out:aes', 'out:aes-stream',
            'out:rsa', 'out:hmac', 'out:dsa', 'out:rsa-sign', 'out:attached', 'out:session', 'out:signed-session',
            'in:aes', 'in:rsa', 'in:hmac', 'in:dsa', 'in:rsa-sign', 'in:attached', 'in:session', 'in:signed-session',
            'file:key', 'file:meta', 'file:public', 'file:encrypted', 'in:meta-variant', 'out:rsa-leading-zero')

TEXT = b'This is some test data'
# left out: java/code/pytestdata predates the 0.6b format (version byte 1), and
# cpp/src/keyczar/data is in a later dialect of C++ only (type HMAC, digest SHA-256)
DIRS = ('python/testdata', 'python/jtestdata', 'java/code/testdata', 'cpp/src/keyczar/data/06b')
READABLE = ('AES', 'HMAC_SHA1', 'RSA_PRIV', 'RSA_PUB', 'DSA_PRIV', 'DSA_PUB')


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 12
  for d in DIRS:
    for name in ('aes', 'aes-crypted', 'aes-noprimary', 'hmac', 'rsa', 'rsa-sign', 'dsa'):
      if os.path.isdir(os.path.join(REPO, d, name)):
        yield {'k': 'golden', 'dir': d, 'name': name}
  for name in ('aes', 'rsa', 'hmac', 'dsa'):
    yield {'k': 'golden', 'dir': 'java/code/testdata/crosscomp', 'name': name}
  yield {'k': 'golden-session'}
  yield {'k': 'golden-certs'}
  for i in range(420 * mult):
    kind = ('aes', 'aes', 'rsa', 'hmac', 'dsa', 'rsa-sign')[i % 6]
    keys = {'aes': lambda: gen.aes_keys(rng), 'hmac': lambda: gen.sign_keys(rng, 'hmac'),
            'dsa': lambda: gen.sign_keys(rng, 'dsa'),
            'rsa': lambda: gen.sign_keys(rng, rng.choice(('rsa512', 'rsa1024', 'rsa1024', 'rsa768', 'rsa2048', 'rsaedge'))),
            'rsa-sign': lambda: gen.sign_keys(rng, rng.choice(('rsa1024', 'rsa512', 'rsa1024', 'rsa768', 'rsa2048', 'rsaedge')))
            }[kind]()
    yield {'k': 'ops', 'kind': kind, 'keys': keys, 'status': gen.statuses(rng, len(keys)),
           'msg': gen.msg(rng, maxlen=22 if kind == 'rsa' else None), 'nonce': gen.msg(rng, maxlen=30),
           'lib': LIBS[i // 6 % 2], 'salt': i}
  for z in gen.rsa_zero():
    yield {'k': 'rsazero', 'key': z['key'], 'msg': z['msg'], 'versioned': z['versioned']}
  for i in range(16 * mult):
    for j in range(1 << 20):
      m = b'%d/%d' % (i, j)
      if gen.key('rsa512:%d' % i).sign(m + b'\0' * (i % 2))[0] == 0:
        break
    yield {'k': 'rsazero', 'key': 'rsa512:%d' % i, 'msg': m.decode(), 'versioned': i % 2}
  for i in range(40 * mult):
    yield {'k': 'session', 'key': rng.choice(('aes128:%d', 'rsa1024:%d', 'rsa2048:%d')) % i,
           'sign': rng.choice(('hmac:%d', 'dsa:%d', 'rsa1024:%d')) % i, 'msg': gen.msg(rng), 'salt': i}
  for i, (purpose, asym) in enumerate((('crypt', None), ('crypt', 'rsa'), ('sign', None), ('sign', 'rsa'),
                                       ('sign', 'dsa')) * (2 * mult)):
    yield {'k': 'files', 'purpose': purpose, 'asym': asym, 'crypter': i % 2 == 1, 'salt': i}
  for i in range(30 * mult):
    yield {'k': 'variant', 'kind': ('aes', 'hmac', 'rsa', 'dsa')[i % 4], 'salt': i}


def run(mon, case):
  globals()['_' + case['k'].replace('-', '_')](mon, case)


def _Read(path):
  with open(path) as f:
    return f.read()


def _golden(mon, case):
  root = os.path.join(REPO, case['dir'])
  loc = os.path.join(root, case['name'])
  meta = json.loads(_Read(os.path.join(loc, 'meta')))
  if meta['type'] not in READABLE:
    return   # types that the Python implementation never had
  reader = mon.must('a reader for %s' % loc, readers.CreateReader, loc)
  if meta['encrypted']:
    reader = readers.EncryptedReader(reader, mon.must('the crypter', kz.Crypter.Read, os.path.join(root, 'aes')))
  cross = case['dir'].endswith('crosscomp')
  texts = {'1': TEXT, '2': TEXT}
  if cross:
    long_, short_ = b'This is not a test, this is a real string', b'Some text to encrypt'
    texts = {'1': short_ if case['name'] == 'aes' else long_, '2': long_}
  crypting = meta['purpose'] == 'DECRYPT_AND_ENCRYPT'
  cls = kz.Crypter if crypting else kz.Signer
  czar = mon.must('reading the shipped key set %s/%s' % (case['dir'], case['name']), cls, reader)
  mon.check(len(czar.versions) == len(meta['versions']), 'versions were lost reading %s' % loc)
  verifiers = [('private', czar)]
  if not crypting:
    verifiers.append(('verifier', mon.must('reading', kz.Verifier, reader)))
    pub = loc + '.public'
    if os.path.isdir(pub):
      verifiers.append(('public', mon.must('reading the shipped public key set %s' % pub, kz.Verifier.Read, pub)))
  for v in ('1', '2'):
    out = os.path.join(loc, v + '.out')
    if not os.path.exists(out):
      continue
    blob = _Read(out)
    for variant in (blob, blob.strip(), blob.strip() + '\n', blob.strip()[:30] + '\r\n' + blob.strip()[30:]):
      if crypting:
        o = mon.call(czar.Decrypt, variant)
        mon.check(o.ok and B(o.value) == texts[v], lambda: 'the shipped ciphertext %s/%s/%s.out does not decrypt: %r'
                  % (case['dir'], case['name'], v, o), traceback=o.tb)
        mon.event('golden:decrypt')
      else:
        for name, ver in verifiers:
          o = mon.call(ver.Verify, S(texts[v]), variant)
          mon.check(o.ok and bool(o.value), lambda: 'the shipped signature %s/%s/%s.out does not verify (%s): %r'
                    % (case['dir'], case['name'], v, name, o), traceback=o.tb)
          o = mon.call(ver.Verify, S(texts[v] + b'x'), variant)
          mon.check(kit.rejected(o), 'the shipped signature verifies for another text')
          mon.event('golden:verify')
      mon.distinct('golden', case['dir'], case['name'], v, len(variant))
    if crypting and case['name'] != 'rsa':
      rd = mon.must('stream', czar.CreateDecryptingStreamReader, io.StringIO(blob.strip()))
      o = mon.call(_Drain, rd)
      mon.check(o.ok and B(o.value) == texts[v], lambda: 'the shipped ciphertext %s does not stream: %r' % (out, o))
  # rewriting the shipped key set keeps its meaning
  if not meta['encrypted']:
    tmp = mon.tmpdir()
    g = mon.must('GenericKeyczar', kz.GenericKeyczar, readers.CreateReader(loc))
    mon.must('Write', g.Write, writers.CreateWriter(tmp))
    for x in meta['versions']:
      n = str(x['versionNumber'])
      a = json.loads(_Read(os.path.join(tmp, n)))
      b = json.loads(_Read(os.path.join(loc, n)))
      mon.check(_Same(a, b), 'rewriting %s/%s changes key %s' % (case['dir'], case['name'], n), before=b, after=a)
      mon.event('golden:rewritten')


def _Same(a, b):
  """Same fields and key material; leading zero bytes of integers don't matter."""
  if isinstance(b, dict):
    return isinstance(a, dict) and set(a) == set(b) and all(_Same(a[k], b[k]) for k in b)
  if isinstance(b, str) and isinstance(a, str):
    if a == b:
      return True
    try:
      return ref.b2i(ref.unb64(a.rstrip('='))) == ref.b2i(ref.unb64(b.rstrip('=')))
    except ValueError:
      return False
  return a == b


def _Drain(rd):
  out = ''
  while True:
    d = rd.read(11)
    if d is None:
      continue
    if not d:
      return out
    out += d


def _golden_session(mon, case):
  root = os.path.join(REPO, 'java/code/testdata')
  rsa = mon.must('reading', kz.Crypter.Read, os.path.join(root, 'rsa'))
  mat = _Read(os.path.join(root, 'rsa/session.material.out')).strip()
  ct = _Read(os.path.join(root, 'rsa/session.ciphertext.out')).strip()
  d = mon.must('SessionDecrypter of the shipped session', kz.SessionDecrypter, rsa, mat)
  o = mon.call(d.Decrypt, ct)
  mon.check(o.ok and B(o.value) == TEXT, lambda: 'the shipped session does not decrypt: %r' % o, traceback=o.tb)
  mon.event('golden:session')
  mat = _Read(os.path.join(root, 'signedsession/signed.session.out')).strip()
  ct = _Read(os.path.join(root, 'signedsession/signed.ciphertext.out')).strip()
  ver = mon.must('reading', kz.Verifier.Read, os.path.join(root, 'dsa.public'))
  d = mon.must('SignedSessionDecrypter of the shipped session', kz.SignedSessionDecrypter, rsa, ver, mat)
  o = mon.call(d.Decrypt, ct)
  mon.check(o.ok and o.value is not None and B(o.value) == TEXT,
            lambda: 'the shipped signed session does not decrypt: %r' % o, traceback=o.tb)
  mon.event('golden:signed-session')
  mon.distinct('golden-session')


def _golden_certs(mon, case):
  """Key sets imported from certificates by the Java tool."""
  root = os.path.join(REPO, 'java/code/testdata/certificates')
  for name, cls, pub in (('rsa-crypt', kz.Crypter, kz.Encrypter), ('rsa-sign', kz.Signer, kz.Verifier),
                         ('dsa-sign', kz.Signer, kz.Verifier)):
    a = mon.must('reading', cls.Read, os.path.join(root, name))
    b = mon.must('reading', pub.Read, os.path.join(root, name + '-pub'))
    if name == 'rsa-crypt':
      ct = mon.must('Encrypt', b.Encrypt, S(TEXT))
      o = mon.call(a.Decrypt, ct)
      mon.check(o.ok and B(o.value) == TEXT, lambda: 'imported keys: %r' % o)
    else:
      sig = mon.must('Sign', a.Sign, S(TEXT))
      o = mon.call(b.Verify, S(TEXT), sig)
      mon.check(o.ok and bool(o.value), lambda: 'imported keys: %r' % o)
    mon.event('golden:certificates')
    mon.distinct('certs', name)


def _ops(mon, case):
  rng = random.Random(case['salt'])
  kind = case['kind']
  spec = dict(case, purpose='crypt' if kind in ('aes', 'rsa') else 'sign')
  ks = gen.keyset(spec)
  data, nonce = gen.message(case['msg']), gen.message(case['nonce'])
  pk = ks.primary.key
  with CryptLib(case['lib']):
    if kind in ('aes', 'rsa'):
      czar = kit.opened(mon, kz.Crypter, ks)
      ct = mon.must('Encrypt', czar.Encrypt, S(data))
      mon.check(isinstance(ct, str), 'Encrypt returns %s' % type(ct).__name__)
      p = pk.decrypt(ref.unb64(ct))[0]
      mon.check(p == data, 'the reference decrypts the ciphertext to something else', ciphertext=ct)
      raw = mon.must('Encrypt', czar.Encrypt, S(data), None)
      p = pk.decrypt(B(raw))[0]
      mon.check(p == data, 'the reference decrypts the raw ciphertext to something else', ciphertext=raw)
      if kind == 'rsa':
        mon.check(len(raw) - 5 <= pk.k, 'RSA ciphertext of %d bytes' % (len(raw) - 5))
      mon.event('out:' + kind)
      mon.distinct('out', kind, len(data), case['lib'])
      if kind == 'aes':
        # size, as documented for CBC
        mon.check(len(raw) == 5 + 16 + (len(data) // 16 + 1) * 16 + 20, 'ciphertext length %d for %d bytes'
                  % (len(raw), len(data)))
        sink = kit.Sink()
        w = mon.must('stream', czar.CreateEncryptingStreamWriter, sink)
        for part in (S(data)[:3], S(data)[3:]):
          mon.must('write', w.write, part)
        mon.must('flush', w.flush)
        p = pk.decrypt(ref.unb64(sink.value()))[0]
        mon.check(p == data, 'the reference decrypts the stream to something else', ciphertext=sink.value())
        mon.event('out:aes-stream')
        mon.distinct('out', 'stream', len(data), case['lib'])
      for v in ks.versions:
        if kind == 'aes':
          c = v.key.encrypt(data, gen.stream('iv%d' % case['salt'], 16))
        else:
          c = v.key.encrypt(data, gen.stream('seed%d' % case['salt'], 20))
        for form, dec in ((ref.b64(c), ()), (ref.b64(c) + '=' * (-len(ref.b64(c)) % 4), ()), (S(c), (None,))):
          o = mon.call(czar.Decrypt, form, *dec)
          mon.check(o.ok and B(o.value) == data, lambda: 'a ciphertext of the reference (%s, version %s) does not '
                    'decrypt: %r' % (kind, v.status, o), ciphertext=form, traceback=o.tb)
        mon.event('in:' + kind)
        mon.distinct('in', kind, len(data), v.status, case['lib'])
      return
    signer = kit.opened(mon, kz.Signer, ks)
    un = kit.opened(mon, kz.UnversionedSigner, ks)
    name = 'rsa-sign' if kind == 'rsa-sign' else kind
    s = ref.unb64(mon.must('Sign', signer.Sign, S(data)))
    mon.check(s[:5] == b'\0' + pk.id, 'signature header %s, key id %s' % (s[:5].hex(), pk.id.hex()))
    u = ref.unb64(mon.must('Sign', un.Sign, S(data)))
    blob = ref.unb64(mon.must('AttachedSign', signer.AttachedSign, S(data), S(nonce)))
    h, d, a = ref.attached_parts(blob)
    mon.check(h == b'\0' + pk.id and d == data, 'attached signature layout')
    for m, sig in ((data + b'\0', s[5:]), (data, u), (ref.attached_message(data, nonce), a)):
      if kind == 'dsa':
        mon.check(pk.verify(m, sig), 'the reference rejects a DSA signature', message=m, signature=sig)
      else:
        mon.check(sig == pk.sign(m), 'a %s signature is not the one of the reference' % kind, message=m,
                  signature=sig)
    mon.event('out:' + name)
    mon.event('out:attached')
    mon.distinct('out', name, len(data), len(nonce))
    for v in ks.versions:
      k = v.key
      kk = 2 + ref.b2i(gen.stream('k%d' % case['salt'], 24)) % ((k.q if kind == 'dsa' else 1 << 160) - 3)
      make = (lambda m: k.sign(m, kk)) if kind == 'dsa' else k.sign
      head = b'\0' + k.id
      objs = [signer, kit.opened(mon, kz.Verifier, ks)]
      uns = [un, kit.opened(mon, kz.UnversionedVerifier, ks)]
      if kind != 'hmac':
        objs.append(kit.opened(mon, kz.Verifier, ks.public()))
        uns.append(kit.opened(mon, kz.UnversionedVerifier, ks.public()))
      for x in objs:
        o = mon.call(x.Verify, S(data), ref.b64(head + make(data + b'\0')))
        mon.check(o.ok and bool(o.value), lambda: 'a %s signature of the reference does not verify: %r' % (kind, o),
                  traceback=o.tb)
        o = mon.call(x.AttachedVerify, ref.b64(head + ref.u32(len(data)) + data + make(
            ref.attached_message(data, nonce))), S(nonce))
        mon.check(o.ok and o.value is not None and B(o.value) == data,
                  lambda: 'an attached %s signature of the reference does not verify: %r' % (kind, o), traceback=o.tb)
      for x in uns:
        o = mon.call(x.Verify, S(data), ref.b64(make(data)))
        mon.check(o.ok and bool(o.value), lambda: 'an unversioned %s signature of the reference does not verify: %r'
                  % (kind, o), traceback=o.tb)
      mon.event('in:' + name)
      mon.event('in:attached')
      mon.distinct('in', name, len(data), len(nonce), v.status)


def pack(*parts):
  return ref.u32(len(parts)) + b''.join(ref.u32(len(p)) + p for p in parts)


def unpack(b):
  n, i, out = ref.b2i(b[:4]), 4, []
  for _ in range(n):
    l = ref.b2i(b[i:i + 4])
    out.append(b[i + 4:i + 4 + l])
    if len(out[-1]) != l:
      raise ref.FormatError('packed arrays')
    i += 4 + l
  if i != len(b):
    raise ref.FormatError('packed arrays: trailing bytes')
  return out


def _session(mon, case):
  ks = gen.keyset({'keys': [case['key']], 'purpose': 'crypt'})
  sk = gen.keyset({'keys': [case['sign']], 'purpose': 'sign'})
  outer, signer_key = ks.primary.key, sk.primary.key
  crypter, signer = kit.opened(mon, kz.Crypter, ks), kit.opened(mon, kz.Signer, sk)
  data = gen.message(case['msg'])
  se = mon.must('SessionEncrypter', kz.SessionEncrypter, crypter)
  parts = unpack(outer.decrypt(ref.unb64(se.session_material))[0])
  mon.check([len(p) for p in parts] == [16, 32], 'session material holds parts of %s bytes' % [len(p) for p in parts])
  inner = ref.AesK(*parts)
  mon.check(inner.decrypt(ref.unb64(mon.must('Encrypt', se.Encrypt, S(data))))[0] == data,
            'the reference decrypts a session message to something else')
  mon.event('out:session')
  mine = gen.key('aes128:s%d' % case['salt'])
  seed = lambda: gen.stream('iv%d' % case['salt'], 16 if outer.kind == 'aes' else 20)  # noqa: E731
  sd = mon.must('SessionDecrypter of reference material', kz.SessionDecrypter, crypter,
                ref.b64(outer.encrypt(pack(mine.key, mine.hmac), seed())))
  o = mon.call(sd.Decrypt, ref.b64(mine.encrypt(data, gen.stream('x', 16))))
  mon.check(o.ok and B(o.value) == data, lambda: 'a session message of the reference: %r' % o, traceback=o.tb)
  mon.event('in:session')
  mon.distinct('session', case['key'].split(':')[0], len(data))
  if outer.kind == 'rsa' and outer.k < 256:
    return   # the JSON form does not fit
  ss = mon.must('SignedSessionEncrypter', kz.SignedSessionEncrypter, crypter, signer)
  j = json.loads(outer.decrypt(ref.unb64(ss.session_material))[0].decode('ascii'))
  mon.check(set(j) == set(('key', 'nonce')), 'fields of the signed session material: %s' % sorted(j))
  inner, nonce = ref.AesK.parse(j['key']), ref.unb64(j['nonce'])
  mon.check(len(nonce) == 16, 'session nonce of %d bytes' % len(nonce))
  blob = ref.unb64(mon.must('Encrypt', ss.Encrypt, S(data)))
  h, c, sig = ref.attached_parts(blob)
  mon.check(h == b'\0' + signer_key.id and signer_key.verify(ref.attached_message(c, nonce), sig),
            'the reference rejects the signature of a signed session message')
  mon.check(inner.decrypt(c)[0] == data, 'the reference decrypts a signed session message to something else')
  mon.event('out:signed-session')
  nonce = gen.stream('n%d' % case['salt'], 16)
  mat = json.dumps({'nonce': ref.b64(nonce), 'key': mine.json()}, separators=(',', ':')).encode()
  if outer.kind == 'rsa' and len(mat) > outer.k - 42:
    return
  sd = mon.must('SignedSessionDecrypter of reference material', kz.SignedSessionDecrypter, crypter,
                kit.opened(mon, kz.Verifier, sk), ref.b64(outer.encrypt(mat, seed())))
  c = mine.encrypt(data, gen.stream('y', 16))
  m = ref.attached_message(c, nonce)
  sig = signer_key.sign(m, 123456789) if signer_key.kind == 'dsa' else signer_key.sign(m)
  o = mon.call(sd.Decrypt, ref.b64(b'\0' + signer_key.id + ref.u32(len(c)) + c + sig))
  mon.check(o.ok and o.value is not None and B(o.value) == data,
            lambda: 'a signed session message of the reference: %r' % o, traceback=o.tb)
  mon.event('in:signed-session')
  mon.distinct('signed-session', case['key'].split(':')[0], case['sign'].split(':')[0], len(data))


def positive(text, what, mon):
  """Big integers in key files: two's complement, so the sign bit must be clear."""
  b = ref.unb64(text)
  mon.check(b and b[0] < 0x80, '%s would be read as a negative number' % what, value=text)


def check_key_file(mon, text, type_):
  j = json.loads(text)
  if type_ in ref.CLASSES:
    key = ref.CLASSES[type_].parse(j)
    mon.check(set(j) == set(key.json()), 'fields of a %s key: %s' % (type_, sorted(j)))
    if 'publicKey' in j:
      mon.check(set(j['publicKey']) == set(key.pub_json()), 'fields of a public key: %s' % sorted(j['publicKey']))
    if 'hmacKey' in j:
      mon.check(set(j['hmacKey']) == set(('hmacKeyString', 'size')), 'fields of hmacKey: %s' % sorted(j['hmacKey']))
  else:
    cls = ref.RsaK if type_ == 'RSA_PUB' else ref.DsaK
    fields = ('modulus', 'publicExponent', 'size') if type_ == 'RSA_PUB' else ('p', 'q', 'g', 'y', 'size')
    mon.check(set(j) == set(fields), 'fields of a %s key: %s' % (type_, sorted(j)))
    key = cls.parse_pub(j)
    mon.check(key[0].bit_length() == j['size'], 'size field of a public key')
  if type_ not in ('AES', 'HMAC_SHA1'):
    def walk(d):
      for n, v in d.items():
        if isinstance(v, dict):
          walk(v)
        elif n != 'size':
          positive(v, n, mon)
    walk(j)
  mon.event('file:key')
  return key


def _files(mon, case):
  """What the tool writes is what an independent implementation can read."""
  loc, dest, cl = mon.tmpdir(), mon.tmpdir(), mon.tmpdir()
  args = ['--location=' + loc]
  extra = ['--asymmetric=' + case['asym']] if case['asym'] else []
  name = ('Test', 'a "quoted" name', 'n\xe4me \u20ac', 'back\\slash')[case['salt'] % 4]
  mon.must('create', keyczart.main, ['create', '--purpose=' + case['purpose'], '--name=' + name] + args + extra)
  dec = None
  crypt = []
  if case['crypter']:
    gen.keyset({'keys': ['aes128:%d' % case['salt']]}).write(cl)
    ck = gen.key('aes128:%d' % case['salt'])
    dec = lambda t: ck.decrypt(ref.unb64(t))[0].decode('ascii')  # noqa: E731
    crypt = ['--crypter=' + cl]
  meta = _CheckMeta(mon, loc, name, case)
  mon.check(meta['versions'] == [], 'a new key set has versions')
  sizes = {None: [], 'rsa': ['--size=1024'], 'dsa': []}[case['asym']]
  if case['purpose'] == 'crypt' and not case['asym']:
    sizes = ([], ['--size=192'], ['--size=256'])[(case['salt'] // 5 + case['salt']) % 3]
  mon.must('addkey', keyczart.main, ['addkey', '--status=primary'] + args + crypt + sizes)
  mon.must('addkey', keyczart.main, ['addkey', '--status=active'] + args + crypt + sizes)
  mon.must('addkey', keyczart.main, ['addkey', '--status=primary'] + args + crypt + sizes)
  if not crypt:
    mon.must('demote', keyczart.main, ['demote', '--version=2'] + args)
  meta = _CheckMeta(mon, loc, name, case)
  mon.check([(v['versionNumber'], v['status']) for v in sorted(meta['versions'], key=lambda v: v['versionNumber'])] ==
            [(1, 'ACTIVE'), (2, 'ACTIVE' if crypt else 'INACTIVE'), (3, 'PRIMARY')],
            'versions in meta: %s' % meta['versions'])
  mon.check(meta['encrypted'] is bool(crypt), 'field encrypted is %r' % meta['encrypted'])
  keys = {}
  for v in (1, 2, 3):
    text = _Read(os.path.join(loc, str(v)))
    if dec:
      text = dec(text)
      mon.event('file:encrypted')
    keys[v] = check_key_file(mon, text, meta['type'])
    mon.distinct('file', meta['type'], bool(crypt), v)
  mon.check(sorted(os.listdir(loc)) == ['1', '2', '3', 'meta'], 'files: %s' % sorted(os.listdir(loc)))
  # and the reference can use these keys
  reader = readers.CreateReader(loc)
  if crypt:
    reader = readers.EncryptedReader(reader, kz.Crypter.Read(cl))
  if case['purpose'] == 'crypt':
    ct = mon.must('Encrypt', mon.must('Crypter', kz.Crypter, reader).Encrypt, S(TEXT))
    mon.check(keys[3].decrypt(ref.unb64(ct))[0] == TEXT, 'the stored key does not decrypt')
  else:
    s = ref.unb64(mon.must('Sign', mon.must('Signer', kz.Signer, reader).Sign, S(TEXT)))
    mon.check(s[:5] == b'\0' + keys[3].id and keys[3].verify(TEXT + b'\0', s[5:]), 'the stored key does not verify')
  if case['asym'] and not crypt:
    mon.must('pubkey', keyczart.main, ['pubkey', '--destination=' + dest] + args)
    m = json.loads(_Read(os.path.join(dest, 'meta')))
    mon.check(set(m) == set(meta) and m['name'] == name and m['encrypted'] is False and
              m['purpose'] == {'crypt': 'ENCRYPT', 'sign': 'VERIFY'}[case['purpose']] and
              m['type'] == {'rsa': 'RSA_PUB', 'dsa': 'DSA_PUB'}[case['asym']], 'public metadata', meta=m)
    for v in (1, 2, 3):
      pub = check_key_file(mon, _Read(os.path.join(dest, str(v))), m['type'])
      k = keys[v]
      mon.check(pub == ((k.n, k.e) if case['asym'] == 'rsa' else (k.p, k.q, k.g, k.y)), 'public key %d differs' % v)
      mon.event('file:public')
      mon.distinct('file', m['type'], v)


def _CheckMeta(mon, loc, name, case):
  m = json.loads(_Read(os.path.join(loc, 'meta')))
  mon.check(set(m) == set(('name', 'purpose', 'type', 'encrypted', 'versions')), 'fields of meta: %s' % sorted(m))
  mon.check(m['name'] == name, 'name is %r' % m['name'])
  mon.check(m['purpose'] == {'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[case['purpose']],
            'purpose is %r' % m['purpose'])
  mon.check(m['type'] == {('crypt', None): 'AES', ('crypt', 'rsa'): 'RSA_PRIV', ('sign', None): 'HMAC_SHA1',
                          ('sign', 'rsa'): 'RSA_PRIV', ('sign', 'dsa'): 'DSA_PRIV'}[case['purpose'], case['asym']],
            'type is %r' % m['type'])
  for v in m['versions']:
    mon.check(set(v) == set(('versionNumber', 'status', 'exportable')) and type(v['versionNumber']) is int and
              type(v['exportable']) is bool, 'version entry %s' % v)
  mon.event('file:meta')
  return m


def _variant(mon, case):
  """Other implementations' ways to write the same files."""
  rng = random.Random(case['salt'])
  kind = case['kind']
  spec = {'aes': 'aes192:%d', 'hmac': 'hmac:%d', 'rsa': 'rsa1024:%d', 'dsa': 'dsa:%d'}[kind]
  n = rng.choice((1, 2, 3, 5))
  idx = gen.distinct_idx(rng, n, 5)
  ks = gen.keyset({'keys': [spec % i for i in idx], 'status': gen.statuses(rng, n),
                   'numbers': rng.sample(range(1, 3000), n), 'purpose': 'crypt' if kind in ('aes', 'rsa') else 'sign'})
  style = rng.randrange(4)

  def dump(o):
    if style == 0:
      return json.dumps(o, indent=3)
    if style == 1:
      return json.dumps(o, separators=(',', ':'), sort_keys=True) + '\n'
    if style == 2:
      return json.dumps(dict(reversed(list(o.items()))))
    return ' \n' + json.dumps(o) + '\n\n'

  def zeros(o):
    """More leading zero bytes, or as few as possible."""
    out = {}
    for k, v in o.items():
      if isinstance(v, dict):
        out[k] = zeros(v)
      elif isinstance(v, str) and kind in ('rsa', 'dsa'):
        b = ref.unb64(v).lstrip(b'\0')
        b = b'\0' * (rng.choice((1, 3)) if b[0] >= 0x80 else rng.choice((0, 1, 2))) + b
        out[k] = ref.b64(b)
      else:
        out[k] = v
    return out

  loc = mon.tmpdir()
  meta = ks.meta()
  if rng.random() < .5:
    meta['nextKeyVersionNumber'] = 3001
  rng.shuffle(meta['versions'])
  with open(os.path.join(loc, 'meta'), 'w') as f:
    f.write(dump(meta))
  for v in ks.versions:
    with open(os.path.join(loc, str(v.number)), 'w') as f:
      f.write(dump(zeros(ks.key_json(v))))
  data = gen.message(gen.msg(rng, maxlen=60))
  if kind in ('aes', 'rsa'):
    c = mon.must('reading a key set in another style', kz.Crypter.Read, loc)
    pk = ks.primary.key
    mon.check(pk.decrypt(ref.unb64(mon.must('Encrypt', c.Encrypt, S(data))))[0] == data, 'ciphertext')
    for v in ks.versions:
      o = mon.call(c.Decrypt, ref.b64(v.key.encrypt(data, gen.stream('i', 16 if kind == 'aes' else 20))))
      mon.check(o.ok and B(o.value) == data, lambda: 'ciphertext of the reference: %r' % o)
  else:
    c = mon.must('reading a key set in another style', kz.Signer.Read, loc)
    pk = ks.primary.key
    s = ref.unb64(mon.must('Sign', c.Sign, S(data)))
    mon.check(s[:5] == b'\0' + pk.id and pk.verify(data + b'\0', s[5:]), 'signature')
    for v in ks.versions:
      sig = v.key.sign(data + b'\0', 99) if kind == 'dsa' else v.key.sign(data + b'\0')
      o = mon.call(c.Verify, S(data), ref.b64(b'\0' + v.key.id + sig))
      mon.check(o.ok and bool(o.value), lambda: 'signature of the reference: %r' % o)
  mon.event('in:meta-variant')
  mon.distinct('variant', kind, style, n)


def _rsazero(mon, case):
  """An RSA signature is as long as the modulus, leading zero bytes included."""
  key = gen.key(case['key'])
  ks = gen.keyset({'keys': [case['key']], 'purpose': 'sign'})
  m = case['msg'].encode()
  if case['versioned']:
    want = b'\0' + key.id + key.sign(m + b'\0')
    o = mon.call(kit.opened(mon, kz.Signer, ks).Sign, S(m))
  else:
    want = key.sign(m)
    o = mon.call(kit.opened(mon, kz.UnversionedSigner, ks).Sign, S(m))
  mon.check(o.ok and ref.unb64(o.value) == want, lambda: 'an RSA signature that begins with zero bytes: %r' % o, expected=want)
  for cls in ((kz.Signer, kz.Verifier) if case['versioned'] else (kz.UnversionedSigner, kz.UnversionedVerifier)):
    o = mon.call(kit.opened(mon, cls, ks).Verify, S(m), ref.b64(want))
    mon.check(o.ok and bool(o.value), lambda: 'an RSA signature that begins with zero bytes is not accepted: %r' % o)
  mon.event('out:rsa-leading-zero')
  mon.distinct('rsazero', case['key'], case['versioned'], len(want.lstrip(b'\0')))
