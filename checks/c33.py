"""C33: the C++ tool changes key sets as documented, through any history, and tells the truth about it."""
import hashlib
import json
import os
import random
import shutil
import subprocess

from kzmon import ec, foreign, gen, kit, life, ref
from checks import c31

ID = 'C33'
LEVEL = 'exploration'
RULE = ('one command of the C++ tool in some state of a key set, judged against the model of the life cycle and the reference formats: distinct by command, '
        'state, kind of key and storage')
REQUIRED = ('created', 'add', 'promote', 'demote', 'revoke', 'refused', 'unchanged', 'old-message', 'kind:AES', 'kind:HMAC_SHA1', 'kind:ECDSA_PRIV', 'kind:RSA_PRIV',
            'kind:DSA_PRIV', 'storage:crypted', 'storage:pbe', 'pubkey', 'pem', 'fault', 'small-crypter', 'fresh-key', 'generated', 'no-secrets', 'wrong-flag', 'other-storage', 'import:ACTIVE', 'import:INACTIVE', 'import:PRIMARY', 'import:among-others')
ASSUMPTIONS = c31.ASSUMPTIONS + ('crash consistency of the C++ tool is not claimed: it writes metadata before keys, and files in place',)
CASE_TIMEOUT = {'quick': 250, 'thorough': 800}
P, A, I = life.P, life.A, life.I


def setup():
  foreign.setup_cpp()


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(56 if q else 700):
    kind = ('aes', 'hmac', 'ecdsa', 'aes', 'hmac', 'ecdsa', 'rsa', 'dsa')[i % 8]
    yield {'k': 'life', 'kind': kind, 'storage': ('plain', 'plain', 'crypted', 'pbe')[(i // 8) % 4], 'salt': rng.randrange(1 << 30),
           'n': (25 if q else 60) if kind in ('aes', 'hmac', 'ecdsa') else 10}
  for i in range(24 if q else 300):
    yield {'k': 'pubkey', 'kind': ('rsa-sign', 'rsa-crypt', 'dsa', 'ecdsa', 'hmac', 'aes')[i % 6], 'storage': ('plain', 'crypted')[i % 2], 'salt': rng.randrange(1 << 30)}
  for i in range(24 if q else 200):
    yield {'k': 'pem', 'kind': ('rsa-sign', 'rsa-crypt', 'dsa', 'ecdsa')[i % 4], 'status': (None, 'inactive', 'primary', 'active', 'inactive', 'Primary')[i // 4 % 6], 'salt': rng.randrange(1 << 30)}
  for i in range(16 if q else 200):
    yield {'k': 'fault', 'salt': rng.randrange(1 << 30), 'how': ('key-dir', 'full', 'small-crypter', None)[i % 4]}
  for i in range(4 if q else 20):
    yield {'k': 'create', 'salt': rng.randrange(1 << 30)}


class Store(object):
  """How the keys of a set are stored, and how the reference reads them."""

  def __init__(self, mon, rng, kind):
    self.kind, self.flags, self.secret = kind, [], ''
    self.used = {}
    if kind == 'crypted':
      self.cks = gen.keyset({'keys': gen.aes_keys(rng, rng.choice((1, 2))), 'purpose': 'crypt'})
      self.secret = self.cks.write(mon.tmpdir())
      self.flags = ['--crypter=' + self.secret]
    elif kind == 'pbe':
      self.secret = ''.join(rng.choice('abcdefghijklm0123 ,') for _ in range(rng.choice((4, 8, 20)))).strip() or 'cart'
      self.flags = ['--pass=' + self.secret]

  def encrypt(self, rng):
    """For ref.KeySet.write."""
    if self.kind == 'crypted':
      return lambda t: ref.b64(self.cks.primary.key.encrypt(t.encode(), rng.randbytes(16)))
    if self.kind == 'pbe':
      def f(t):
        salt, iv = rng.randbytes(16), rng.randbytes(16)
        key = hashlib.pbkdf2_hmac('sha1', self.secret.encode(), salt, 4096, 16)
        n = 16 - len(t.encode()) % 16
        return json.dumps({'cipher': 'AES128', 'hmac': 'HMAC_SHA1', 'iterationCount': 4096, 'salt': ref.b64(salt), 'iv': ref.b64(iv),
                           'key': ref.b64(ref.cbc_enc(key, iv, t.encode() + bytes([n]) * n))})
      return f
    return None

  def once(self, what, value, text):
    if self.used.setdefault((what, value), text) != text:
      raise ref.FormatError('two key files with the same ' + what)

  def decrypt(self, text):
    if self.kind == 'crypted':
      raw = ref.unb64(text.strip())
      self.once('IV', raw[5:21], text)
      for v in self.cks.versions:
        if raw[1:5] == v.key.id:
          return v.key.decrypt(raw)[0].decode()
      raise ref.FormatError('a key file is not encrypted by the given key set')
    j = json.loads(text)
    if j['cipher'] != 'AES128' or j['hmac'] not in ('HMAC_SHA1', 'HMAC_SHA256'):
      raise ref.FormatError('algorithms of a key file with password')
    if j['iterationCount'] < 1000:
      raise ref.FormatError('iteration count %r' % j['iterationCount'])
    if len(ref.unb64(j['salt'])) < 8:
      raise ref.FormatError('salt of %d bytes' % len(ref.unb64(j['salt'])))
    self.once('salt', j['salt'], text)
    self.once('IV', j['iv'], text)
    key = hashlib.pbkdf2_hmac(j['hmac'][5:].lower(), self.secret.encode(), ref.unb64(j['salt']), j['iterationCount'], 16)
    p = ref.cbc_dec(key, ref.unb64(j['iv']), ref.unb64(j['key']))
    if not 1 <= p[-1] <= 16 or p[-p[-1]:] != p[-1:] * p[-1]:
      raise ref.FormatError('a key file is not encrypted by the password')
    return p[:-p[-1]].decode()


def read(mon, loc, store):
  try:
    ks = ref.read_keyset(loc, store.decrypt)
  except (ref.FormatError, ValueError, KeyError, OSError) as e:
    mon.violate('C++: the tool leaves a key set that does not follow the format: %r' % e, files=sorted(os.listdir(loc)))
  return ks


TYPES = {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'ecdsa': 'ECDSA_PRIV', 'rsa': 'RSA_PRIV', 'dsa': 'DSA_PRIV'}
SIZES = {'aes': (128, 192, 256, None), 'hmac': (256, None), 'ecdsa': (192, 224, 256, 384, None), 'rsa': (1024, 1024, 512), 'dsa': (1024,)}
DEFAULT = {'aes': 128, 'hmac': 256, 'ecdsa': 224, 'rsa': 2048, 'dsa': 2048}


def initial(mon, cpp, rng, kind, store):
  """A key set to begin with: written by the reference or created by the tool."""
  loc = mon.tmpdir()
  purpose = 'crypt' if kind == 'aes' or (kind == 'rsa' and rng.random() < .5) else 'sign'
  if rng.random() < .4:
    args = ['create', '--location=' + loc, '--purpose=' + purpose]
    name = rng.choice(('Test', 'a key set', 'x"y'))
    if rng.random() < .7:
      args.append('--name=' + name)
    else:
      name = 'Test'
    if kind in ('rsa', 'dsa', 'ecdsa'):
      args.append('--asymmetric=' + kind)
    rng.shuffle(args)
    mon.check(cpp.tool(*args), 'C++: create fails', args=args)
    mon.event('created')
    ks = read(mon, loc, store)
    mon.check((ks.name, ks.type, ks.versions, ks.encrypted) == (name, TYPES[kind], [], False)
              and ks.purpose == {'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose], 'C++: create makes another key set', meta=ks.meta(), args=args)
    return loc, purpose
  n = rng.choice((0, 1, 2, 3, 4))
  pool = {'rsa': 'rsa1024', 'dsa': 'dsa', 'ecdsa': 'ecdsa', 'hmac': 'hmac'}
  keys = gen.aes_keys(rng, n) if kind == 'aes' and n else gen.sign_keys(rng, pool[kind], n) if n else []
  spec = {'keys': keys, 'purpose': purpose, 'type': TYPES[kind], 'status': gen.statuses(rng, len(keys), rng.random() < .8) if keys else '',
          'name': rng.choice(('Test', 'a key set', '', 'x"y\\z'))}
  if keys and rng.random() < .4:
    spec['numbers'] = rng.sample(range(1, 60), len(keys))
  if keys:
    ks = gen.keyset(spec)
  else:
    ks = ref.KeySet({'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose], TYPES[kind], [], spec['name'])
  ks.encrypted = bool(keys) and store.kind != 'plain'
  ks.write(loc, store.encrypt(rng))
  return loc, purpose


def history(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.Cpp(mon)
  kind = case['kind']
  store = Store(mon, rng, case['storage'])
  loc, purpose = initial(mon, cpp, rng, kind, store)
  ks = read(mon, loc, store)
  head = (ks.name, ks.type, ks.purpose)
  mon.event('kind:' + ks.type)
  mon.event('storage:' + store.kind)
  model = life.Model((v.number, v.status) for v in ks.versions)
  ids = dict((v.number, life.key_id(v.key)) for v in ks.versions)
  everything = set(ids.values())
  messages = []
  reader, writer = ('Crypter', 'Crypter') if purpose == 'crypt' else ('Verifier', 'Signer')
  for step in range(case['n']):
    cmd = life.random_command(rng, model)
    size = None
    flags = []
    before = life.snapshot(loc)
    wrong = None
    if not model.v and rng.random() < .5:
      # nothing is stored yet, or any more
      store = Store(mon, rng, rng.choice(('plain', 'crypted', 'pbe')))
      mon.event('other-storage')
    if cmd[0] == 'add':
      size = rng.choice(SIZES[kind])
      flags = list(store.flags)
      if size:
        flags.append('--size=%d' % size)
      x = rng.random()
      if x < .06:
        wrong = '--size=%d' % rng.choice((1, 127, 129, 64, 100000))
        flags = [f for f in flags if not f.startswith('--size')] + [wrong]
      elif x < .1 and store.kind != 'plain' and model.v:
        wrong = 'without the secret'
        flags = [f for f in flags if f not in store.flags]
      elif x < .14 and store.kind == 'plain' and model.v:
        wrong = '--pass=cartman'
        flags.append(wrong)
      elif x < .17 and store.kind == 'crypted' and model.v:
        wrong = '--crypter=' + mon.tmpdir()
        flags = [f for f in flags if f not in store.flags] + [wrong]
      elif x < .2 and store.kind == 'pbe' and model.v:
        wrong = '--pass=' + store.secret + 'x'
        flags = [f for f in flags if f not in store.flags] + [wrong]
      args = ['addkey', '--location=' + loc] + flags
      if cmd[1] != A or rng.random() < .5:
        args.append('--status=' + cmd[1].lower())
    else:
      args = [cmd[0], '--location=' + loc, '--version=%d' % cmd[1]]
    rng.shuffle(args)
    after = model.copy()
    refused = wrong is not None
    if not refused:
      try:
        after.apply(cmd)
      except life.Refused:
        refused = True
    ok = cpp.tool(*args)
    mon.distinct('command', kind, store.kind, cmd[0], sorted(model.v.values()), model.v.get(cmd[1]) if cmd[0] != 'add' else cmd[1], wrong and wrong[:6])
    if refused:
      mon.check(not ok, 'C++: a command that must be refused reports success', command=cmd, args=args, wrong=wrong, state=model.v)
      now = life.snapshot(loc)
      mon.check(now == before, 'C++: a refused command changes the key set', command=cmd, args=args, wrong=wrong, changed=life.diff(before, now), state=model.v,
                before=before.get('meta'), after=now.get('meta'))
      mon.event('refused')
      mon.event('unchanged')
      if wrong:
        mon.event('wrong-flag')
      continue
    mon.check(ok, 'C++: a command fails', command=cmd, args=args, state=model.v)
    mon.event(cmd[0])
    ks = read(mon, loc, store)
    mon.check((ks.name, ks.type, ks.purpose) == head, 'C++: a command changes name, type or purpose', head=head, now=(ks.name, ks.type, ks.purpose))
    state = dict((v.number, v.status) for v in ks.versions)
    mon.check(state == after.v, 'C++: a command leads to another state', command=cmd, before=model.v, expected=after.v, got=state)
    mon.check(not ks.versions or ks.encrypted == (store.kind != 'plain'), 'C++: the flag for encrypted keys is wrong', got=ks.encrypted)
    for v in ks.versions:
      kid = life.key_id(v.key)
      if v.number in ids and v.number in model.v:
        mon.check(ids[v.number] == kid, 'C++: a command changes the key of a version', command=cmd, version=v.number)
      else:
        mon.check(kid not in everything, 'C++: a generated key is not new', command=cmd, version=v.number)
        mon.check(v.key.size == (size or DEFAULT[kind]), 'C++: a generated key has another size', size=v.key.size, asked=size)
        ids[v.number] = kid
        everything.add(kid)
        mon.event('fresh-key')
        mon.event('generated')
    gone = [n for n in model.v if n not in after.v]
    for n in gone:
      ids.pop(n, None)
      mon.check(not os.path.exists(os.path.join(loc, str(n))), 'C++: the key of a revoked version stays on disk', version=n)
    extra = set(os.listdir(loc)) - set(['meta']) - set(str(n) for n in after.v)
    mon.check(not extra, 'C++: files are left that are no keys', files=sorted(extra))
    if store.kind != 'plain':
      for v in ks.versions:
        with open(os.path.join(loc, str(v.number)), 'rb') as f:
          mon.check(not kit.leaks(f.read(), v.key.secrets()), 'C++: an encrypted key file contains the key in plain', version=v.number)
      mon.event('no-secrets')
    model = after
    # the set still works, and for older messages too
    slow = kind in ('rsa', 'dsa')
    if slow and step % 3 != 2:
      continue
    h = cpp.open(writer, loc, store.kind, store.secret)
    mon.check(h is not None, 'C++: the key set cannot be opened', command=cmd)
    prim = ks.primary
    msg = gen.message(gen.msg(rng, maxlen=20))
    out = cpp.do('encrypt' if purpose == 'crypt' else 'sign', h, msg)
    mon.check((out is None) == (prim is None), 'C++: with%s primary key, but the operation gives %s' % ('out' if prim is None else '', short(out)))
    if out is not None:
      raw = ref.unb64(out.decode())
      mon.check(raw[1:5] == prim.key.id, 'C++: another key than the primary one is used')
      messages.append((prim.number, ids[prim.number], msg, out))
    r = cpp.open(reader, loc, store.kind, store.secret)
    for number, kid, m, o in rng.sample(messages, min(len(messages), 6)):
      got = cpp.do('decrypt', r, o) if purpose == 'crypt' else (m if cpp.do('verify', r, m, o) else None)
      if number in model.v and ids[number] == kid:
        mon.check(got == m, 'C++: an older message is refused although its key is in the set', status=model.v[number], version=number)
        mon.event('old-message')
      else:
        mon.check(got is None, 'C++: a message of a revoked key is accepted', version=number)
        mon.event('revoked-message')
  cpp.done()


def short(x):
  return 'nothing' if x is None else 'a result'


# -- public keys


def start(mon, rng, kind, store):
  n = rng.choice((1, 2, 3))
  if kind == 'aes':
    keys = gen.aes_keys(rng, n)
  else:
    keys = gen.sign_keys(rng, {'rsa-sign': 'rsa1024', 'rsa-crypt': 'rsa1024'}.get(kind, kind), n)
  spec = {'keys': keys, 'purpose': 'crypt' if kind in ('aes', 'rsa-crypt') else 'sign', 'status': gen.statuses(rng, len(keys), rng.random() < .9),
          'name': rng.choice(('Test', 'a "name"'))}
  ks = gen.keyset(spec)
  ks.encrypted = store.kind != 'plain'
  return ks, ks.write(mon.tmpdir(), store.encrypt(rng))


def pubkey(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.Cpp(mon)
  kind = case['kind']
  store = Store(mon, rng, case['storage'])
  ks, loc = start(mon, rng, kind, store)
  before = life.snapshot(loc)
  dest = mon.tmpdir()
  ok = cpp.tool('pubkey', '--location=' + loc, '--destination=' + dest, *store.flags)
  mon.check(life.snapshot(loc) == before, 'C++: pubkey changes the private key set')
  mon.distinct('pubkey', kind, store.kind, [v.status for v in ks.versions])
  if kind in ('aes', 'hmac'):
    mon.check(not ok, 'C++: pubkey of symmetric keys reports success')
    for n in os.listdir(dest):
      with open(os.path.join(dest, n), 'rb') as f:
        mon.check(not kit.leaks(f.read(), [s for v in ks.versions for s in v.key.secrets()]), 'C++: pubkey writes secret keys')
    mon.event('refused')
    cpp.done()
    return
  mon.check(ok, 'C++: pubkey fails')
  want = ks.public()
  with open(os.path.join(dest, 'meta')) as f:
    meta = json.load(f)
  expect = want.meta()
  meta['versions'].sort(key=lambda v: v['versionNumber'])
  expect['versions'].sort(key=lambda v: v['versionNumber'])
  mon.check(meta == expect, 'C++: metadata of the public key set', got=meta, expected=expect)
  mon.check(sorted(os.listdir(dest)) == sorted(['meta'] + [str(v.number) for v in ks.versions]), 'C++: files of the public key set', files=os.listdir(dest))
  for v in ks.versions:
    with open(os.path.join(dest, str(v.number))) as f:
      j = json.load(f)
    p = v.key.pub_json()
    same = v.key.parse_pub(j) == v.key.parse_pub(p) if hasattr(v.key, 'parse_pub') else j == p
    mon.check(same and set(j) == set(p) and j.get('size') == p.get('size'), 'C++: a public key is wrong', got=j, expected=p)
    mon.check(not kit.leaks(json.dumps(j).encode(), v.key.secrets()), 'C++: an exported public key contains secrets')
    mon.event('no-secrets')
  mon.event('pubkey')
  # both halves work together
  pub = cpp.open('Encrypter' if kind == 'rsa-crypt' else 'Verifier', dest)
  priv = cpp.open('Crypter' if kind == 'rsa-crypt' else 'Signer', loc, store.kind, store.secret)
  mon.check(pub is not None and priv is not None, 'C++: an exported key set cannot be opened')
  if ks.primary is not None:
    if kind == 'rsa-crypt':
      mon.check(cpp.do('decrypt', priv, cpp.do('encrypt', pub, b'data')) == b'data', 'C++: public and private half do not fit')
    else:
      mon.check(cpp.do('verify', pub, b'data', cpp.do('sign', priv, b'data')), 'C++: public and private half do not fit')
  cpp.done()


# -- PEM files


def pem(mon, case):
  rng = random.Random(case['salt'])
  cpp = foreign.Cpp(mon)
  kind = case['kind']
  store = Store(mon, rng, 'plain')
  ks, loc = start(mon, rng, kind, store)
  before = life.snapshot(loc)
  out = os.path.join(mon.tmpdir(), 'out.pem')
  phrase = ''.join(rng.choice('abcdefgh0123') for _ in range(rng.choice((4, 8, 30))))
  ok = cpp.tool('exportkey', '--location=' + loc, '--dest=' + out, '--passphrase=' + phrase)
  mon.check(life.snapshot(loc) == before, 'C++: exportkey changes the key set')
  if ks.primary is None:
    mon.check(not ok, 'C++: exportkey without primary key reports success')
    cpp.done()
    return
  mon.check(ok, 'C++: exportkey fails')
  k = ks.primary.key
  with open(out, 'rb') as f:
    text = f.read()
  mon.check(b'ENCRYPTED' in text and not kit.leaks(text, k.secrets()), 'C++: the exported key is not encrypted')
  numbers = [x for x in k.secrets()]
  # an independent reader
  if shutil.which('openssl'):
    r = subprocess.run(['openssl', 'pkey', '-in', out, '-passin', 'pass:' + phrase, '-noout', '-text'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    digits = ''.join(c for c in r.stdout.decode('utf-8', 'replace') if c in '0123456789abcdef:\n ').replace(':', '').replace(' ', '').replace('\n', '')
    mon.check(r.returncode == 0 and numbers[0].hex() in digits, 'C++: OpenSSL does not read the exported key as the primary one', error=r.stderr.decode('utf-8', 'replace')[:200])
    r = subprocess.run(['openssl', 'pkey', '-in', out, '-passin', 'pass:' + phrase + 'x', '-noout'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    mon.check(r.returncode != 0, 'C++: the exported key opens with another passphrase')
    mon.event('pem:openssl')
  # import into a set of its own
  alg = {'rsa-sign': 'rsa', 'rsa-crypt': 'rsa'}.get(kind, kind)
  loc2 = mon.tmpdir()
  mon.check(cpp.tool('create', '--location=' + loc2, '--purpose=' + ('crypt' if kind == 'rsa-crypt' else 'sign'), '--asymmetric=' + alg), 'C++: create fails')
  empty = life.snapshot(loc2)
  mon.check(not cpp.tool('importkey', '--location=' + loc2, '--key=' + out, '--passphrase=' + phrase + 'y', '--status=primary'), 'C++: import with a wrong passphrase')
  mon.check(life.snapshot(loc2) == empty, 'C++: a refused import changes the key set')
  st = Store(mon, rng, rng.choice(('plain', 'crypted', 'pbe')))
  had = []
  if rng.random() < .6:
    # into a set that has keys: a new primary key takes the place of the old one
    for status in rng.choice((['primary'], ['primary', 'active'], ['inactive', 'primary'], ['active'])):
      mon.check(cpp.tool('addkey', '--location=' + loc2, '--status=' + status, '--size=' + {'rsa': '1024', 'dsa': '1024', 'ecdsa': '256'}[alg], *st.flags), 'C++: addkey fails')
      had.append(status.upper())
    mon.event('import:among-others')
  old = [(v.number, life.key_id(v.key)) for v in read(mon, loc2, st).versions]
  status = case.get('status')
  flag = ['--status=' + status] if status else []
  mon.check(cpp.tool('importkey', '--location=' + loc2, '--key=' + out, '--passphrase=' + phrase, *(flag + st.flags)), 'C++: import fails')
  got = read(mon, loc2, st)
  status = (status or 'active').upper()
  expected = [A if s == P and status == P else s for s in had] + [status]
  mon.check([v.status for v in got.versions] == expected, 'C++: an import leaves other statuses than documented', had=had, asked=status, got=[v.status for v in got.versions])
  mon.check(old + [(len(had) + 1, life.key_id(k))] == [(v.number, life.key_id(v.key)) for v in got.versions], 'C++: an imported key differs from the exported one')
  mon.event('import:' + status)
  same = life.snapshot(loc2)
  mon.check(not cpp.tool('importkey', '--location=' + loc2, '--key=' + out, '--passphrase=' + phrase, '--status=primary', *st.flags), 'C++: the same key is imported twice')
  mon.check(life.snapshot(loc2) == same, 'C++: a refused import changes the key set')
  mon.event('refused')
  mon.event('pem')
  mon.distinct('pem', kind, st.kind, len(phrase), case['salt'])
  cpp.done()


# -- what cannot be written


def _meta(loc):
  with open(os.path.join(loc, 'meta')) as f:
    return json.load(f)


def fault(mon, case):
  """Something is in the way: the tool must not report success."""
  rng = random.Random(case['salt'])
  cpp = foreign.Cpp(mon)
  store = Store(mon, rng, rng.choice(('plain', 'plain', 'crypted', 'pbe')))
  kind = rng.choice(('aes', 'hmac', 'ecdsa'))
  ks, loc = start(mon, rng, kind, store)
  nxt = max(v.number for v in ks.versions) + 1
  how = case.get('how') or rng.choice(('key-dir', 'full', 'location-file', 'pub-dest', 'small-crypter'))
  mon.distinct('fault', kind, store.kind, how, nxt)
  meta = _meta(loc)
  if how == 'key-dir':
    os.mkdir(os.path.join(loc, str(nxt)))
    mon.check(not cpp.tool('addkey', '--location=' + loc, '--status=primary', *store.flags), 'C++: addkey reports success although the key was not written')
  elif how == 'full':
    # the file of the new key is a device that is always full
    os.symlink('/dev/full', os.path.join(loc, str(nxt)))
    mon.check(not cpp.tool('addkey', '--location=' + loc, '--status=primary', *store.flags), 'C++: addkey reports success although the disk is full')
    os.unlink(os.path.join(loc, str(nxt)))
  elif how == 'small-crypter':
    # an RSA key cannot encrypt a key that is too long for it
    rks = gen.keyset({'keys': gen.sign_keys(rng, rng.choice(('rsa1024', 'rsa2048')), 1), 'purpose': 'crypt'})
    rloc = rks.write(mon.tmpdir())
    loc = mon.tmpdir()
    purpose = 'crypt' if kind == 'aes' else 'sign'
    cpp.tool('create', '--location=' + loc, '--purpose=' + purpose, *(['--asymmetric=ecdsa'] if kind == 'ecdsa' else []))
    meta = _meta(loc)
    r = cpp.tool('addkey', '--location=' + loc, '--status=primary', '--crypter=' + rloc)
    if r:
      # short enough after all: it must be what the key set encrypts
      with open(os.path.join(loc, '1')) as f:
        raw = ref.unb64(f.read().strip())
      mon.check(raw[1:5] == rks.versions[0].key.id and b'Key' in rks.versions[0].key.decrypt(raw)[0], 'C++: a key is not stored as the crypter encrypts it', kind=kind)
      meta = _meta(loc)
    else:
      for n in os.listdir(loc):
        with open(os.path.join(loc, n)) as f:
          mon.check(n == 'meta' or 'Key' not in f.read(), 'C++: a key that cannot be encrypted is stored in plain', kind=kind, file=n)
    mon.event('small-crypter')
  elif how == 'location-file':
    p = os.path.join(loc, 'file')
    with open(p, 'w'):
      pass
    for cmd in ('create', 'addkey', 'promote', 'demote', 'revoke', 'pubkey', 'importkey', 'exportkey'):
      mon.check(not cpp.tool(cmd, '--location=' + p, '--purpose=sign', '--version=1', '--destination=' + loc, '--dest=' + os.path.join(loc, 'x'), '--key=' + p, '--passphrase=abcd'),
                'C++: %s reports success on a file' % cmd)
    mon.check(os.path.getsize(p) == 0, 'C++: the tool writes to a file given as location')
  else:
    ks, loc = start(mon, rng, 'ecdsa', store)
    dest = mon.tmpdir()
    os.mkdir(os.path.join(dest, str(ks.versions[0].number)))
    mon.check(not cpp.tool('pubkey', '--location=' + loc, '--destination=' + dest, *store.flags), 'C++: pubkey reports success although a key was not written')
    mon.check(not cpp.tool('pubkey', '--location=' + loc, '--destination=' + os.path.join(dest, 'none'), *store.flags), 'C++: pubkey reports success although the destination does not exist')
    meta = _meta(loc)
  mon.check(_meta(loc) == meta, 'C++: a command that failed changes the key set', how=how)
  mon.event('fault')
  cpp.done()


def create(mon, case):
  """Which sets can be created, and that create never replaces one."""
  rng = random.Random(case['salt'])
  cpp = foreign.Cpp(mon)
  for purpose in ('crypt', 'sign', 'x', ''):
    for alg in (None, 'rsa', 'dsa', 'ecdsa'):
      loc = mon.tmpdir()
      ok = cpp.tool('create', '--location=' + loc, '--purpose=' + purpose, *(['--asymmetric=' + alg] if alg else []))
      good = purpose == 'sign' or (purpose == 'crypt' and alg in (None, 'rsa'))
      mon.check(ok == good, 'C++: create gives %s' % ok, purpose=purpose, alg=alg)
      mon.distinct('create', purpose, alg)
      if not good:
        mon.check(not os.listdir(loc), 'C++: a refused create leaves files', purpose=purpose, alg=alg)
        mon.event('refused')
        continue
      if alg != 'rsa' and alg != 'dsa':
        cpp.tool('addkey', '--location=' + loc, '--status=primary')
      before = life.snapshot(loc)
      mon.check(not cpp.tool('create', '--location=' + loc, '--purpose=' + rng.choice(('crypt', 'sign'))), 'C++: create replaces a key set')
      mon.check(life.snapshot(loc) == before, 'C++: a refused create changes the key set')
      mon.event('created')
      mon.event('unchanged')
  cpp.done()


def run(mon, case):
  {'life': history, 'pubkey': pubkey, 'pem': pem, 'fault': fault, 'create': create}[case['k']](mon, case)
