"""C40: keys that the Java implementation takes from certificates and PKCS8 files, and RSA keys with PKCS1 padding, are the right ones and stay so."""
import base64
import json
import os
import random
import shutil
import subprocess

from kzmon import foreign, gen, life, ref
from checks import c31, c33, c34, c37

ID = 'C40'
LEVEL = 'exploration'
RULE = ('one use of a key that Java read from a certificate or PKCS8 file, judged against the reference: distinct by kind and size of the key, form of the file, padding, '
        'way of reading and operation')
REQUIRED = ('x509:rsa', 'x509:dsa', 'pkcs8:rsa', 'pkcs8:dsa', 'form:der', 'form:pem', 'form:crlf', 'padding:PKCS', 'padding:OAEP', 'padding:none', 'reader', 'tool', 'refused', 'dsa-padding',
            'damaged', 'dsa-crypt', 'pubkey', 'generated:PKCS', 'history', 'public-pem')
ASSUMPTIONS = c34.ASSUMPTIONS + ('a message with PKCS1 padding that was altered may be taken for another one: PKCS1 encryption has no integrity',)
CASE_TIMEOUT = {'quick': 300, 'thorough': 600}


def setup():
  foreign.setup_java()


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(90 if q else 1200):
    yield {'k': 'reader', 'kind': ('rsa-crypt', 'rsa-sign', 'dsa')[i % 3], 'file': ('x509', 'pkcs8')[i // 3 % 2], 'salt': rng.randrange(1 << 30)}
  for i in range(60 if q else 800):
    yield {'k': 'tool', 'kind': ('rsa-crypt', 'rsa-sign', 'dsa', 'rsa-crypt')[i % 4], 'file': ('x509', 'pkcs8')[i // 4 % 2], 'salt': rng.randrange(1 << 30)}
  for i in range(20 if q else 200):
    yield {'k': 'history', 'salt': rng.randrange(1 << 30)}
  for i in range(40 if q else 500):
    yield {'k': 'damaged', 'kind': ('rsa-crypt', 'rsa-sign', 'dsa')[i % 3], 'file': ('x509', 'pkcs8')[i // 3 % 2], 'salt': rng.randrange(1 << 30)}


# -- the files

RSA_OID = bytes.fromhex('06092a864886f70d010101')
DSA_OID = bytes.fromhex('06072a8648ce380401')


def rsa_params(k):
  return dict(n=k.n, e=k.e, d=k.d, p=k.p, q=k.q, dp=k.d % (k.p - 1), dq=k.d % (k.q - 1), invq=pow(k.q, -1, k.p))


def alg(k):
  if k.kind == 'rsa':
    return ref.der_seq(RSA_OID, b'\x05\0')
  return ref.der_seq(DSA_OID, ref.der_seq(ref.der_int(k.p), ref.der_int(k.q), ref.der_int(k.g)))


def spki(k):
  if k.kind == 'rsa':
    return ref.der_seq(alg(k), ref.der_bits(ref.der_seq(ref.der_int(k.n), ref.der_int(k.e))))
  return ref.der_seq(alg(k), ref.der_bits(ref.der_int(k.y)))


def pkcs8(k):
  if k.kind == 'rsa':
    p = rsa_params(k)
    inner = ref.der_seq(ref.der_int(0), *[ref.der_int(p[f]) for f in ('n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq')])
  else:
    inner = ref.der_int(k.x)
  return ref.der_seq(ref.der_int(0), alg(k), ref.der_octets(inner))


def tlv(tag, b):
  return bytes([tag]) + ref.der_len(len(b)) + b


SHA1_RSA = ref.der_seq(bytes.fromhex('06092a864886f70d010105'), b'\x05\0')


def certificate(k, rng):
  """Signed by some other RSA key: who signed it is not asked."""
  ca = gen.RSA[1024][0]
  name = ref.der_seq(tlv(0x31, ref.der_seq(bytes.fromhex('0603550403'), tlv(0x0c, b'demo %d' % rng.randrange(1000)))))
  times = ref.der_seq(tlv(0x17, b'100101000000Z'), tlv(0x17, rng.choice((b'110101000000Z', b'450101000000Z'))))
  version = tlv(0xa0, ref.der_int(2)) if rng.random() < .7 else b''
  tbs = ref.der_seq(version + ref.der_int(rng.randrange(1, 1 << 60)), SHA1_RSA, name, times, name, spki(k))
  return ref.der_seq(tbs, SHA1_RSA, ref.der_bits(ca.sign(tbs)))


def pem(der, label, eol='\n'):
  b = base64.b64encode(der).decode()
  return eol.join(['-----BEGIN %s-----' % label] + [b[i:i + 64] for i in range(0, len(b), 64)] + ['-----END %s-----' % label, '']).encode()


def key_file(mon, rng, k, what):
  """The path of a file with k, and the passphrase."""
  der = certificate(k, rng) if what == 'x509' else pkcs8(k)
  label = 'CERTIFICATE' if what == 'x509' else 'PRIVATE KEY'
  path = os.path.join(mon.tmpdir(), 'k')
  form = rng.choice(('der', 'pem', 'crlf', 'encrypted' if what == 'pkcs8' else 'pem'))
  phrase = ''
  if form == 'encrypted' and not shutil.which('openssl'):
    form = 'pem'
  if form == 'encrypted':
    phrase = ''.join(rng.choice('abcdef XYZ019=') for _ in range(rng.choice((4, 8, 20)))).strip() + 'q'
    with open(path + '1', 'wb') as f:
      f.write(der)
    out = rng.choice(('PEM', 'DER'))
    r = subprocess.run(['openssl', 'pkcs8', '-topk8', '-v1', 'PBE-SHA1-3DES', '-inform', 'DER', '-in', path + '1', '-outform', out, '-out', path, '-passout', 'pass:' + phrase],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.unlink(path + '1')
    if r.returncode:
      form, phrase = 'pem', ''
  if form != 'encrypted':
    with open(path, 'wb') as f:
      f.write(der if form == 'der' else pem(der, label, '\r\n' if form == 'crlf' else '\n'))
  mon.event('form:' + form)
  mon.event('%s:%s' % (what, k.kind))
  return path, phrase, form


def pick(rng, kind):
  if kind == 'dsa':
    return rng.choice(gen.DSA)
  k = rng.choice(gen.RSA[rng.choice((1024, 1024, 2048, 4096))])
  if rng.random() < .2:
    phi = (k.p - 1) * (k.q - 1)
    for e in (17, 257, 32771):
      try:
        return ref.RsaK(k.n, e, pow(e, -1, phi), k.p, k.q)
      except ValueError:
        pass
  return k


# -- PKCS1 padding


def ident(k, padding):
  if padding == 'PKCS':
    return ref.prefix_hash(*[v.to_bytes(v.bit_length() // 8 + 1, 'big') for v in (k.n, k.e)])
  return k.id


def ref_encrypt(k, padding, data, rng):
  if padding != 'PKCS':
    return k.encrypt(data, rng.randbytes(20))
  em = b'\0\2' + bytes(rng.randrange(1, 256) for _ in range(k.k - 3 - len(data))) + b'\0' + data
  return b'\0' + ident(k, padding) + pow(ref.b2i(em), k.e, k.n).to_bytes(k.k, 'big')


def ref_decrypt(k, padding, ct):
  if padding != 'PKCS':
    return k.decrypt(ct)[0]
  if ct[:5] != b'\0' + ident(k, padding) or len(ct) != 5 + k.k:
    raise ref.FormatError('header or length')
  em = k.raw_private(ref.b2i(ct[5:])).to_bytes(k.k, 'big')
  i = em.find(b'\0', 2)
  if em[:2] != b'\0\2' or i < 10:
    raise ref.FormatError('not PKCS1 padding')
  return em[i + 1:]


def room(k, padding):
  return k.k - (11 if padding == 'PKCS' else 42)


def use(mon, java, rng, k, padding, kind, public, private, what):
  """Both halves are k, with that padding. public or private may be None."""
  for h in (public, private):
    if h is not None:
      java.do('encoding', h, 0)
  for i in range(4):
    if kind == 'rsa-crypt':
      m = rng.randbytes(rng.choice((0, 1, 16, room(k, padding), rng.randrange(room(k, padding)))))
      for h in (public, private):
        if h is not None:
          ct = java.do('encrypt', h, m)
          mon.check(ct is not None, 'Java: encrypting with a key of %s fails' % what, padding=padding, length=len(m))
          try:
            got = ref_decrypt(k, padding, ct)
          except ref.FormatError as e:
            mon.violate('Java: a ciphertext of a key of %s does not follow the format: %s' % (what, e), padding=padding)
          mon.check(got == m, 'Java: a ciphertext of a key of %s is another message' % what, padding=padding)
          mon.check(java.do('encrypt', h, bytes(room(k, padding) + 1)) is None, 'Java: more is encrypted than fits', padding=padding)
      if private is not None:
        mon.check(java.do('decrypt', private, ref_encrypt(k, padding, m, rng)) == m, 'Java: a key of %s does not decrypt' % what, padding=padding, length=len(m))
        other = 'OAEP' if padding == 'PKCS' else 'PKCS'
        ct = ref_encrypt(k, other, m[:20], rng)
        mon.check(java.do('decrypt', private, ct) is None, 'Java: a message with another padding is decrypted', padding=padding)
      mon.distinct('crypt', what, padding, k.size, len(m))
    else:
      m = rng.randbytes(rng.choice((0, 1, 40, 300)))
      header = b'\0' + ident(k, padding)
      good = header + (k.sign(m + b'\0') if k.kind == 'rsa' else k.sign(m + b'\0', rng.randrange(1, k.q)))
      for h in (public, private):
        if h is not None:
          mon.check(java.do('verify', h, m, good) is True, 'Java: a key of %s refuses a genuine signature' % what, kind=kind, padding=padding)
          mon.check(java.do('verify', h, m + b'x', good) is not True, 'Java: a key of %s accepts a signature of another message' % what, kind=kind)
          i = rng.randrange(5, len(good))
          if kind != 'dsa' or i > 12:
            bad = good[:i] + bytes([good[i] ^ 1 << rng.randrange(8)]) + good[i + 1:]
            mon.check(java.do('verify', h, m, bad) is not True, 'Java: a key of %s accepts an altered signature' % what, kind=kind)
      if private is not None:
        sig = java.do('sign', private, m)
        mon.check(sig is not None and sig[:5] == header, 'Java: signing with a key of %s fails' % what, kind=kind, padding=padding)
        c31.holds(mon, k, m + b'\0', sig[5:], 'a signature')
      mon.distinct('sign', what, kind, padding, k.size, len(m))
  mon.event('padding:' + (padding or 'none'))


def purposes(kind):
  return ('ENCRYPT', 'DECRYPT_AND_ENCRYPT') if kind == 'rsa-crypt' else ('VERIFY', 'SIGN_AND_VERIFY')


def reader(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  kind, what = case['kind'], case['file']
  k = pick(rng, kind)
  path, phrase, form = key_file(mon, rng, k, what)
  padding = rng.choice(('', 'OAEP', 'PKCS')) if kind != 'dsa' else ''
  pub, both = purposes(kind)
  secret = lambda purpose, pad=padding, ph=phrase: '%s;%s;%s' % (purpose, pad, ph)
  pubname, privname = ('Encrypter', 'Crypter') if kind == 'rsa-crypt' else ('Verifier', 'Signer')
  if what == 'x509':
    p = java.open(pubname, path, what, secret(pub))
    mon.check(p is not None, 'Java: a certificate cannot be opened', kind=kind, form=form, padding=padding)
    use(mon, java, rng, k, padding, kind, p, None, 'a certificate')
  else:
    p, s = java.open(pubname, path, what, secret(both)), java.open(privname, path, what, secret(both))
    mon.check(p is not None and s is not None, 'Java: a PKCS8 file cannot be opened', kind=kind, form=form, padding=padding)
    use(mon, java, rng, k, padding, kind, p, s, 'a PKCS8 file')
    if phrase:
      for wrong in (phrase + 'x', ''):
        mon.check(java.open(privname, path, what, secret(both, ph=wrong)) is None, 'Java: a PKCS8 file opens with another passphrase')
      mon.event('refused')
  if kind == 'dsa':
    for pad in ('OAEP', 'PKCS'):
      mon.check(java.open(pubname, path, what, secret(pub if what == 'x509' else both, pad=pad)) is None, 'Java: a DSA key with RSA padding is accepted', padding=pad)
    mon.event('dsa-padding')
    mon.check(java.open('Encrypter', path, what, secret('ENCRYPT')) is None if what == 'x509' else True, 'Java: a DSA certificate is taken for encrypting')
  mon.event('reader')
  java.done()


def read_json(mon, loc, store):
  with open(os.path.join(loc, 'meta')) as f:
    meta = json.load(f)
  keys = {}
  for v in meta['versions']:
    with open(os.path.join(loc, str(v['versionNumber']))) as f:
      t = f.read()
    keys[v['versionNumber']] = json.loads(store.decrypt(t) if meta['encrypted'] else t)
  return meta, keys


def padding_of(j):
  return j.get('publicKey', j).get('padding', '')


def tool(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  kind, what = case['kind'], case['file']
  k = pick(rng, kind)
  path, phrase, form = key_file(mon, rng, k, what)
  padding = rng.choice(('', 'OAEP', 'PKCS')) if kind != 'dsa' else ''
  purpose = 'crypt' if kind == 'rsa-crypt' else 'sign'
  st = c33.Store(mon, rng, rng.choice(('plain', 'plain', 'crypted')))

  def new(purpose):
    loc = mon.tmpdir()
    ok, text = c37.tool(java, 'create', '--location=' + loc, '--purpose=' + purpose, '--name=x', '--asymmetric=' + rng.choice(('rsa', 'dsa') if purpose == 'sign' else ('rsa',)))
    mon.check(ok, 'Java: create fails', printed=text[:300])
    return loc

  def imp(loc, *more):
    flags = ['--padding=' + rng.choice((padding, padding.lower()))] if padding else []
    flags += ['--passphrase=' + phrase] if phrase else []
    return c37.tool(java, 'importkey', '--location=' + loc, '--pemfile=' + path, *(list(more) + flags + st.flags))

  loc = new(purpose)
  ok, text = imp(loc, '--status=primary')
  mon.check(ok, 'Java: importkey fails', printed=text[:300], kind=kind, file=what, form=form)
  meta, keys = read_json(mon, loc, st)
  mon.check([(v['versionNumber'], v['status']) for v in meta['versions']] == [(1, 'PRIMARY')] and
            meta['type'] == k.type.replace('PRIV', 'PUB' if what == 'x509' else 'PRIV') and meta['encrypted'] == (st.kind != 'plain'), 'Java: importkey writes other metadata', meta=meta)
  j = keys[1]
  mon.check(padding_of(j) == ('PKCS' if padding == 'PKCS' else ''), 'Java: an imported key has another padding than asked for', asked=padding, got=padding_of(j))
  mon.check(type(k).parse_pub(j.get('publicKey', j)) == type(k).parse_pub(k.pub_json()), 'Java: an imported public key is another one')
  if what == 'pkcs8':
    try:
      same = type(k).parse(j).secrets() == k.secrets()
    except (ref.FormatError, KeyError, ValueError) as e:
      mon.violate('Java: an imported private key does not follow the format: %r' % e)
    mon.check(same, 'Java: an imported private key is another one')
  opened = lambda n, where=loc, s=st: java.open(n, where, s.kind, s.secret)
  pubname, privname = ('Encrypter', 'Crypter') if kind == 'rsa-crypt' else ('Verifier', 'Signer')
  p = opened(pubname)
  s = opened(privname) if what == 'pkcs8' else None
  mon.check(p is not None and (what == 'x509' or s is not None), 'Java: a key set with an imported key cannot be opened')
  use(mon, java, rng, k, padding, kind, p, s, 'an import')
  if what == 'pkcs8' and st.kind == 'plain':
    dest = mon.tmpdir()
    ok, text = c37.tool(java, 'pubkey', '--location=' + loc, '--destination=' + dest)
    mon.check(ok, 'Java: pubkey fails', printed=text[:300])
    use(mon, java, rng, k, padding, kind, java.open(pubname, dest), s, 'an exported import')
    mon.event('pubkey')
    # a public key as PEM file: what every other program reads
    out = os.path.join(mon.tmpdir(), 'pub')
    ok, text = c37.tool(java, 'exportkey', '--location=' + dest, '--version=1', '--pemfile=' + out)
    mon.check(ok, 'Java: exportkey of a public key fails', printed=text[:300])
    with open(out) as f:
      lines = f.read().split('\n')
    mon.check('PUBLIC' in lines[0] and base64.b64decode(''.join(l for l in lines if l and not l.startswith('-'))) == spki(k), 'Java: the exported public key is another one')
    mon.event('public-pem')
  # what must not be imported
  before = life.snapshot(loc)
  for flags in (['--padding=NONE'], ['--padding=']) if kind != 'dsa' else (['--padding=PKCS'], ['--padding=OAEP']):
    if flags == ['--padding=']:
      continue
    ok, text = c37.tool(java, 'importkey', '--location=' + loc, '--pemfile=' + path, *(flags + (['--passphrase=' + phrase] if phrase else []) + st.flags))
    mon.check(not ok and life.snapshot(loc) == before, 'Java: a key is imported with a padding that it cannot have', flags=flags, kind=kind)
    mon.event('refused')
  if kind == 'dsa':
    st = c33.Store(mon, rng, 'plain')
    wrong = new('crypt')
    before = life.snapshot(wrong)
    ok, text = imp(wrong, '--status=primary')
    mon.check(not ok and life.snapshot(wrong) == before, 'Java: a DSA key is imported into a key set for encrypting', file=what)
    mon.event('dsa-crypt')
  mon.event('tool')
  java.done()


def history(mon, case):
  """Keys with and without PKCS1 padding in one set, through a history of the tool: each keeps its own."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  loc = mon.tmpdir()
  st = c33.Store(mon, rng, rng.choice(('plain', 'crypted')))
  mon.check(c37.tool(java, 'create', '--location=' + loc, '--purpose=crypt', '--name=x', '--asymmetric=rsa')[0], 'Java: create fails')
  want, known = {}, {}
  for i in range(10):
    cmd = rng.choice(('add', 'add', 'import', 'promote', 'demote'))
    if i < 2:
      cmd = 'add' if i == 0 else 'import'
    if cmd in ('add', 'import'):
      if len(want) >= 5:
        continue
      pad = ('PKCS', '')[i] if i < 2 and case['salt'] % 2 else rng.choice(('PKCS', 'OAEP', ''))
      flags = (['--padding=' + pad] if pad else []) + st.flags + ['--status=' + rng.choice(('primary', 'active'))]
      if cmd == 'add':
        ok, text = c37.tool(java, 'addkey', '--location=' + loc, '--size=1024', *flags)
      else:
        k = gen.RSA[1024][len(want) % len(gen.RSA[1024])]
        path, phrase, form = key_file(mon, rng, k, 'pkcs8')
        ok, text = c37.tool(java, 'importkey', '--location=' + loc, '--pemfile=' + path, *(flags + (['--passphrase=' + phrase] if phrase else [])))
      mon.check(ok, 'Java: adding a key fails', printed=text[:300], command=cmd)
      want[len(want) + 1] = 'PKCS' if pad == 'PKCS' else ''
      if cmd == 'add' and pad == 'PKCS':
        mon.event('generated:PKCS')
    elif st.kind == 'plain':
      c37.tool(java, cmd, '--location=' + loc, '--version=%d' % rng.choice(sorted(want)))
    meta, keys = read_json(mon, loc, st)
    got = dict((v, padding_of(j)) for v, j in keys.items())
    mon.check(got == want, 'Java: the padding of keys changes', got=got, expected=want, command=cmd)
    for v, j in keys.items():
      k = ref.RsaK.parse(j)
      mon.check(known.setdefault(v, k.n) == k.n, 'Java: a key changes', command=cmd)
    h = java.open('Crypter', loc, st.kind, st.secret)
    mon.check(h is not None, 'Java: a key set with several paddings cannot be opened')
    java.do('encoding', h, 0)
    for v, j in keys.items():
      k = ref.RsaK.parse(j)
      m = rng.randbytes(rng.choice((0, 16, 80)))
      mon.check(java.do('decrypt', h, ref_encrypt(k, want[v], m, rng)) == m, 'Java: a key among several paddings does not decrypt', padding=want[v])
    first = [v['versionNumber'] for v in meta['versions'] if v['status'] == 'PRIMARY']
    if first:
      m = rng.randbytes(20)
      mon.check(ref_decrypt(ref.RsaK.parse(keys[first[0]]), want[first[0]], java.do('encrypt', h, m)) == m, 'Java: a ciphertext of the primary key is wrong', padding=want[first[0]])
    mon.event('history')
    mon.distinct('history', cmd, tuple(sorted(want.items())), tuple(first))
  java.done()


def damaged(mon, case):
  """Damaged files are refused, or give the same key: never another one."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  kind, what = case['kind'], case['file']
  k = pick(rng, kind)
  path, phrase, form = key_file(mon, rng, k, what)
  with open(path, 'rb') as f:
    data = f.read()
  loc = mon.tmpdir()
  st = c33.Store(mon, rng, 'plain')
  mon.check(c37.tool(java, 'create', '--location=' + loc, '--purpose=' + ('crypt' if kind == 'rsa-crypt' else 'sign'), '--name=x', '--asymmetric=rsa')[0], 'Java: create fails')
  empty = life.snapshot(loc)
  for i in range(8):
    how = ('empty', 'cut', 'text', 'tail', 'cut', 'cut', 'headless', 'zeros')[i]
    bad = {'empty': b'', 'cut': data[:rng.randrange(1, max(2, len(data) - 40))], 'text': b'not a key\n', 'tail': data[len(data) // 2:],
           'headless': data[rng.randrange(1, 60):], 'zeros': data[:len(data) // 3] + bytes(len(data) // 3) + data[2 * (len(data) // 3):]}[how]
    with open(path, 'wb') as f:
      f.write(bad)
    ok, text = c37.tool(java, 'importkey', '--location=' + loc, '--pemfile=' + path, '--status=primary', *(['--passphrase=' + phrase] if phrase else []))
    if how == 'zeros' or (how == 'headless' and ok):
      # may still be a key file, of other numbers
      if ok:
        break
    mon.check(not ok, 'Java: a damaged file is imported', how=how, form=form, file=what)
    mon.check(life.snapshot(loc) == empty, 'Java: a refused import changes the key set', how=how)
    mon.event('damaged')
    mon.distinct('damaged', how, form, what, kind)
  java.done()


def run(mon, case):
  foreign.use_java()
  {'reader': reader, 'tool': tool, 'history': history, 'damaged': damaged}[case['k']](mon, case)
