"""C27: secrets appear only where the interface puts them."""
import contextlib
import io
import json
import logging
import os
import random
import sys
import traceback
import warnings

from checks import c08
from kzmon import gen, kit, life, ref
from kzmon.env import B, LIBS, S, CryptLib, errors, keyczart, keyinfo, keys, kz, readers, writers

ID = 'C27'
LEVEL = 'exploration'
RULE = ('one operation, successful or refused, with everything it showed searched for the secrets it worked with (result, '
        'exception, output, warnings, log, files, environment): distinct by operation, key and construction')
REQUIRED = ('product:Encrypt', 'product:stream', 'product:Sign', 'product:AttachedSign', 'product:unversioned',
            'product:session-material', 'product:signed-session-material', 'product:session-ciphertext', 'product:str', 'product:repr',
            'product:export', 'product:usekey', 'error:tag', 'error:short', 'error:unknown-key', 'error:oaep', 'error:oaep-block', 'error:too-long',
            'error:no-primary', 'error:purpose', 'error:need-reader', 'error:wrong-crypter', 'error:damaged-key', 'error:damaged-meta',
            'error:material', 'error:tool', 'output', 'files', 'sandbox', 'control')
ASSUMPTIONS = ('str() of a key is its JSON form by design', 'attached signatures carry their data by design')

CRYPT = ('aes128', 'aes192', 'aes256', 'rsa1024', 'rsa2048')
SIGN = ('hmac', 'dsa', 'rsa1024', 'rsa2048')


def cases(rng, tier):
  n = 6 if tier == 'quick' else 120
  for i in range(n):
    for t in CRYPT:
      yield {'k': 'crypt', 'key': '%s:%d' % (t, i % 4), 'salt': rng.randrange(1 << 30), 'lib': LIBS[i % 2]}
      yield {'k': 'damage', 'key': '%s:%d' % (t, i % 4), 'purpose': 'crypt', 'salt': rng.randrange(1 << 30), 'lib': LIBS[i % 2]}
    for t in SIGN:
      yield {'k': 'sign', 'key': '%s:%d' % (t, i % 4), 'salt': rng.randrange(1 << 30), 'lib': LIBS[i % 2]}
      yield {'k': 'damage', 'key': '%s:%d' % (t, i % 4), 'purpose': 'sign', 'salt': rng.randrange(1 << 30), 'lib': LIBS[i % 2]}
    for t in ('aes128', 'rsa1024'):
      yield {'k': 'session', 'key': '%s:%d' % (t, i % 4), 'salt': rng.randrange(1 << 30), 'lib': LIBS[i % 2]}
    for kind in ('aes', 'hmac', 'rsa-crypt', 'rsa-sign', 'dsa'):
      yield {'k': 'tool', 'kind': kind, 'spec': life.start_spec(rng, kind, 3), 'salt': rng.randrange(1 << 30)}


# ---------------------------------------------------------------- watching

ACTIONS = []      # what the process did to the outside, while watching
WATCHING = [False]


def _Audit(event, args):
  if not WATCHING[0]:
    return
  if event == 'open':
    path, mode, flags = args
    if isinstance(path, int):
      return
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_APPEND | os.O_TRUNC):
      ACTIONS.append(('writes', os.path.abspath(os.fsdecode(path))))
  elif event in ('socket.connect', 'socket.sendto', 'socket.bind', 'subprocess.Popen', 'os.system', 'os.exec',
                 'os.posix_spawn', 'os.fork', 'os.putenv', 'syslog.syslog'):
    ACTIONS.append((event, repr(args)[:300]))


sys.addaudithook(_Audit)


class Watch(object):
  """Records what is shown while the body runs: output, warnings, log records, actions."""

  def __enter__(self):
    self.out = io.StringIO()
    self.stack = contextlib.ExitStack()
    self.stack.enter_context(contextlib.redirect_stdout(self.out))
    self.stack.enter_context(contextlib.redirect_stderr(self.out))
    self.warned = self.stack.enter_context(warnings.catch_warnings(record=True))
    warnings.simplefilter('always')
    self.log = logging.StreamHandler(self.out)
    self.root = logging.getLogger()
    self.level = self.root.level
    self.root.addHandler(self.log)
    self.root.setLevel(1)
    del ACTIONS[:]
    WATCHING[0] = True
    return self

  def __exit__(self, *a):
    WATCHING[0] = False
    self.root.removeHandler(self.log)
    self.root.setLevel(self.level)
    self.stack.close()
    self.actions = list(ACTIONS)

  def shown(self):
    return self.out.getvalue() + '\n'.join(str(w.message) for w in self.warned)


def raw(v):
  if isinstance(v, bytes):
    return v
  if not isinstance(v, str):
    v = repr(v)
  try:
    return v.encode('latin-1')
  except UnicodeEncodeError:
    return v.encode('utf-8')


def clean(mon, what, value, secrets):
  found = kit.leaks(raw(value), secrets)
  mon.check(not found, lambda: '%s contains a secret (%s)' % (what, found), value=lambda: repr(value)[:400])


def error_text(o):
  """Everything that a program which reports the exception would show."""
  texts = [str(o.exc)]
  e, seen = o.exc, []
  while e is not None and e not in seen:
    seen.append(e)
    texts.append(str(e))
    if isinstance(e, errors.KeyczarError):
      texts.append(repr(e.args))
      texts.append(repr(vars(e)))
    e = e.__cause__ or e.__context__
  texts.append(o.tb or '')
  return '\n'.join(texts)


def attempt(mon, name, fn, secrets, fails=None, writes=()):
  """Runs fn under watch; returns its outcome after searching what it showed."""
  with Watch() as w:
    o = mon.call(fn)
  shown = w.shown()
  clean(mon, 'the output of %s' % name, shown, secrets)
  mon.event('output')
  for what, where in w.actions:
    if what == 'writes' and any(where == p or where.startswith(p + os.sep) for p in tuple(writes) + ('/dev/null',)):
      continue
    mon.violate('%s reaches outside: %s %s' % (name, what, where))
  mon.event('sandbox')
  mon.judged += 1
  if o.exc is not None:
    clean(mon, 'the exception of %s' % name, error_text(o), secrets)
  if fails:
    mon.check(o.exc is not None or o.value is False or o.value is None, lambda: '%s is not refused: %r' % (name, o))
    mon.event('error:' + fails)
  else:
    mon.check(o.ok, lambda: '%s: %r' % (name, o), traceback=o.tb)
  return o


def objects(mon, name, objs, secrets):
  for x in objs:
    clean(mon, 'repr of %s (%s)' % (type(x).__name__, name), repr(x), secrets)
    mon.event('product:repr')
    if isinstance(x, kz.Keyczar):
      clean(mon, 'str of %s (%s)' % (type(x).__name__, name), str(x), secrets)
      for y in (x.metadata,) + tuple(x.metadata.versions):
        clean(mon, 'str of %s' % type(y).__name__, str(y), secrets)
        clean(mon, 'repr of %s' % type(y).__name__, repr(y), secrets)
      for v in x.versions:
        clean(mon, 'repr of a key (%s)' % name, repr(x.GetKey(v)), secrets)
        clean(mon, 'the identifier of a key (%s)' % name, repr(x.GetKey(v).hash_id), secrets)
      mon.event('product:str')


def control(mon, secrets):
  for s in secrets:
    s = s.lstrip(b'\0') or s
    for form in (s, ref.b64(s).encode(), s.hex().encode(), repr(s[:16])[2:-1].encode(), json.dumps(S(s[:16])).encode()):
      if len(s) >= 12 and not kit.leaks(b'....' + form + b'....', [s]):
        raise RuntimeError('the search for secrets does not work')
  mon.event('control')


# ---------------------------------------------------------------- workloads


def _crypt(mon, case):
  rng = random.Random(case['salt'])
  key = gen.key(case['key'])
  rsa = case['key'].startswith('rsa')
  spec = {'keys': [case['key']], 'purpose': 'crypt'}
  ks = gen.keyset(spec)
  data = rng.randbytes(40)
  secrets = key.secrets() + [data]
  control(mon, secrets)
  with CryptLib(case['lib']):
    c = attempt(mon, 'Crypter', lambda: kz.Crypter(ref.MemReader(ks)), secrets).value
    objects(mon, 'Crypter', [c], secrets)
    for enc in (True, False):
      ct = attempt(mon, 'Encrypt', lambda: c.Encrypt(S(data), *(() if enc else (None,))), secrets).value
      clean(mon, 'a ciphertext', ct, secrets)
      mon.event('product:Encrypt')
    attempt(mon, 'Decrypt', lambda: c.Decrypt(ct, None), secrets)
    ct = B(ct)
    if not rsa:
      sink = kit.Sink()
      w = attempt(mon, 'stream', lambda: c.CreateEncryptingStreamWriter(sink, None), secrets).value
      attempt(mon, 'write', lambda: w.write(S(data)), secrets)
      attempt(mon, 'flush', w.flush, secrets)
      clean(mon, 'a stream', sink.value(), secrets)
      objects(mon, 'writer', [w], secrets)
      mon.event('product:stream')
      r = c.CreateDecryptingStreamReader(io.StringIO(sink.value(), newline=''), None)
      attempt(mon, 'read', lambda: (r.read(), r.read(), r.read(), r.read())[-1] and None, secrets)
      objects(mon, 'reader', [r], secrets)
    # refused
    for i in (len(ct) - 1, len(ct) - 15, len(ct) // 2, 6):
      bad = kit.flip(ct, i, 1)
      if rsa:
        em = key.raw_private(ref.b2i(bad[5:]) % key.n).to_bytes(key.k, 'big')
        attempt(mon, 'Decrypt of an altered ciphertext', lambda: c.Decrypt(S(bad), None), secrets + [em[:40], em[-40:]], 'oaep')
      else:
        plain = ref.cbc_dec(key.key, bad[5:21], bad[21:-20])
        tag = ref.hmac_sha1(key.hmac, bad[:-20])
        attempt(mon, 'Decrypt of an altered ciphertext', lambda: c.Decrypt(S(bad), None), secrets + [plain, plain[16:], tag], 'tag')

        def stream():
          x = c.CreateDecryptingStreamReader(io.StringIO(S(bad), newline=''), None)
          while x.read(200) != '':
            pass
        attempt(mon, 'reading an altered stream', stream, secrets + [plain, plain[16:], tag], 'tag')
    if rsa:
      # proper encodings with a wrong label, and with a correct one but without the delimiter
      for how in (0, 1):
        seed = rng.randbytes(20)
        db = ref.sha1(b'other' if how else b'') + b'\0' * (key.k - 41 - len(data)) + data
        if how == 0:
          db = db[:20] + b'\0' * (key.k - 41 - len(data)) + b'\2' + data[1:]
        em = ref.oaep_mask(db, seed)
        bad = b'\0' + key.id + pow(ref.b2i(em), key.e, key.n).to_bytes(key.k, 'big')
        attempt(mon, 'Decrypt of a wrong encoding', lambda: c.Decrypt(S(bad), None),
                secrets + [em[:40], em[-40:], seed, db[:40], db[-40:]], 'oaep-block')
      attempt(mon, 'Encrypt of too much', lambda: c.Encrypt(S(data * 20)), secrets + [data * 20], 'too-long')
    for n in (0, 3, 5, 20, 40):
      attempt(mon, 'Decrypt of %d bytes' % n, lambda: c.Decrypt(S(ct[:n]), None), secrets, 'short')
    attempt(mon, 'Decrypt of another key set', lambda: c.Decrypt(S(b'\0abcd' + ct[5:]), None), secrets, 'unknown-key')
    attempt(mon, 'Decrypt of other text', lambda: c.Decrypt('!' + ref.b64(ct)), secrets, 'text')
    np = gen.keyset(dict(spec, status='A'))
    attempt(mon, 'Encrypt without primary', lambda: kz.Crypter(ref.MemReader(np)).Encrypt(S(data)), secrets, 'no-primary')
    attempt(mon, 'Signer of a crypting set', lambda: kz.Signer(ref.MemReader(ks)), secrets, 'purpose')
  mon.distinct('crypt', case['key'], case['salt'], case['lib'])


def _sign(mon, case):
  rng = random.Random(case['salt'])
  key = gen.key(case['key'])
  spec = {'keys': [case['key']], 'purpose': 'sign'}
  ks = gen.keyset(spec)
  data, nonce = rng.randbytes(40), rng.randbytes(24)
  secrets = key.secrets()
  control(mon, secrets)
  with CryptLib(case['lib']):
    s = attempt(mon, 'Signer', lambda: kz.Signer(ref.MemReader(ks)), secrets).value
    u = attempt(mon, 'UnversionedSigner', lambda: kz.UnversionedSigner(ref.MemReader(ks)), secrets).value
    objects(mon, 'Signer', [s, u], secrets)
    sig = attempt(mon, 'Sign', lambda: s.Sign(S(data)), secrets).value
    clean(mon, 'a signature', sig, secrets)
    mon.event('product:Sign')
    att = attempt(mon, 'AttachedSign', lambda: s.AttachedSign(S(data), S(nonce)), secrets).value
    clean(mon, 'an attached signature', att, secrets + [nonce])
    mon.event('product:AttachedSign')
    un = attempt(mon, 'unversioned Sign', lambda: u.Sign(S(data)), secrets).value
    clean(mon, 'an unversioned signature', un, secrets)
    mon.event('product:unversioned')
    other = rng.randbytes(20)
    if case['key'].startswith('hmac'):
      more = [ref.hmac_sha1(key.key, other + b'\0'), ref.hmac_sha1(key.key, other)]
    else:
      more = []
    # what would be the right signature is secret, too
    attempt(mon, 'Verify', lambda: s.Verify(S(other), sig), secrets + more, 'verify')
    attempt(mon, 'unversioned Verify', lambda: u.Verify(S(other), un), secrets + more, 'verify')
    attempt(mon, 'AttachedVerify', lambda: s.AttachedVerify(att, 'other'), secrets, 'verify')
    for n in (0, 3, 5, 6):
      attempt(mon, 'Verify of %d bytes' % n, lambda: s.Verify(S(data), S(ref.unb64(sig)[:n]), None), secrets, 'short')
    attempt(mon, 'Verify of an unknown key', lambda: s.Verify(S(data), S(b'\0abcd' + ref.unb64(sig)[5:]), None), secrets, 'unknown-key')
    np = gen.keyset(dict(spec, status='A'))
    attempt(mon, 'Sign without primary', lambda: kz.Signer(ref.MemReader(np)).Sign(S(data)), secrets, 'no-primary')
    attempt(mon, 'Crypter of a signing set', lambda: kz.Crypter(ref.MemReader(ks)), secrets, 'purpose')
  mon.distinct('sign', case['key'], case['salt'], case['lib'])


def _session(mon, case):
  rng = random.Random(case['salt'])
  outer = gen.key(case['key'])
  ks = gen.keyset({'keys': [case['key']], 'purpose': 'crypt'})
  signing = gen.key('hmac:3')
  data = rng.randbytes(40)
  with CryptLib(case['lib']):
    c = kit.opened(mon, kz.Crypter, ks)
    s = kit.opened(mon, kz.Signer, gen.keyset({'keys': ['hmac:3']}))
    long_term = outer.secrets() + signing.secrets() + [data]
    e = attempt(mon, 'SessionEncrypter', lambda: kz.SessionEncrypter(c), long_term).value
    a, h = c08.unpack(outer.decrypt(ref.unb64(e.session_material))[0])
    secrets = long_term + [a, h]
    control(mon, secrets)
    clean(mon, 'session material', e.session_material, secrets)
    mon.event('product:session-material')
    ct = attempt(mon, 'session Encrypt', lambda: e.Encrypt(S(data)), secrets).value
    clean(mon, 'a session ciphertext', ct, secrets)
    mon.event('product:session-ciphertext')
    d = attempt(mon, 'SessionDecrypter', lambda: kz.SessionDecrypter(c, e.session_material), secrets).value
    attempt(mon, 'session Decrypt', lambda: d.Decrypt(ct), secrets)
    objects(mon, 'session', [e, d, e._session if hasattr(e, '_session') else e], secrets)
    bad = ref.b64(kit.flip(ref.unb64(ct), -3 + len(ref.unb64(ct)), 4))
    attempt(mon, 'session Decrypt of an altered ciphertext', lambda: d.Decrypt(bad), secrets, 'tag')
    m = ref.unb64(e.session_material)
    attempt(mon, 'altered session material', lambda: kz.SessionDecrypter(c, ref.b64(kit.flip(m, len(m) - 1, 1))), secrets, 'material')
    # signed
    if case['key'].startswith('rsa') and outer.k < 250:
      # too long for this key
      with Watch() as w:
        o = mon.call(kz.SignedSessionEncrypter, c, s)
      clean(mon, 'output', w.shown(), secrets)
      if o.exc is not None:
        clean(mon, 'an exception', error_text(o), secrets)
      mon.distinct('session', case['key'], case['salt'])
      return
    e = attempt(mon, 'SignedSessionEncrypter', lambda: kz.SignedSessionEncrypter(c, s), long_term).value
    j = json.loads(outer.decrypt(ref.unb64(e.session_material))[0].decode())
    k = ref.AesK.parse(j['key'])
    secrets = long_term + k.secrets() + [ref.unb64(j['nonce'])]
    clean(mon, 'signed session material', e.session_material, secrets)
    mon.event('product:signed-session-material')
    ct = attempt(mon, 'signed session Encrypt', lambda: e.Encrypt(S(data)), secrets).value
    clean(mon, 'a signed session ciphertext', ct, secrets)
    d = attempt(mon, 'SignedSessionDecrypter', lambda: kz.SignedSessionDecrypter(c, s, e.session_material), secrets).value
    attempt(mon, 'signed session Decrypt', lambda: d.Decrypt(ct), secrets)
    objects(mon, 'signed session', [e, d], secrets)
    bad = ref.b64(kit.flip(ref.unb64(ct), len(ref.unb64(ct)) - 3, 4))
    attempt(mon, 'signed session Decrypt of an altered message', lambda: d.Decrypt(bad), secrets, 'tag')
    plain = json.dumps(j)
    for t in (plain[:-1], plain.replace('nonce', 'once'), plain.replace('CBC', 'CTR'), plain.replace('aesKeyString', 'key'),
              '[]', plain.replace(j['nonce'], '*' + j['nonce'][:-1])):
      m = c.Encrypt(t)
      with Watch() as w:
        o = mon.call(kz.SignedSessionDecrypter, c, s, m)
      clean(mon, 'the output for damaged session material', w.shown(), secrets)
      if o.exc is not None:
        clean(mon, 'the exception for damaged session material', error_text(o), secrets)
      mon.event('error:material')
  mon.distinct('session', case['key'], case['salt'])


def _damage(mon, case):
  """Key files that cannot be used: the error names the problem, not the key."""
  rng = random.Random(case['salt'])
  key = gen.key(case['key'])
  ks = gen.keyset({'keys': [case['key']], 'purpose': case['purpose']})
  secrets = key.secrets()
  cls = kz.Crypter if case['purpose'] == 'crypt' else kz.Signer
  text = json.dumps(ks.key_json(ks.versions[0]))
  loc = mon.tmpdir()

  def load(t):
    ks.write(loc)
    with open(os.path.join(loc, '1'), 'w') as f:
      f.write(t)
    with Watch() as w:
      o = mon.call(lambda: cls.Read(loc))
    clean(mon, 'the output for a damaged key file', w.shown(), secrets)
    if o.exc is not None:
      clean(mon, 'the exception for a damaged key file', error_text(o), secrets)
      mon.event('error:damaged-key')
  j = json.loads(text)

  def paths(x, p=()):
    for n in x:
      yield p + (n,)
      if isinstance(x[n], dict):
        for y in paths(x[n], p + (n,)):
          yield y
  with CryptLib(case['lib']):
    for cut in (0, 1, len(text) // 2, len(text) - 1, len(text) - 2):
      load(text[:cut])
    load(text + '}')
    load(text.replace('"', "'"))
    load('[' + text + ']')
    load(json.dumps(text))
    load(text.replace(':', ''))
    for p in paths(j):
      for v in (None, 0, -1, 7, '', 'x', '!!!', [], {}, 'keep', 'gone', 'long', 'cut', 'star'):
        k = json.loads(text)
        at = k
        for n in p[:-1]:
          at = at[n]
        old = at[p[-1]]
        if v == 'gone':
          del at[p[-1]]
        elif v == 'keep':
          at[p[-1]] = [old]
        elif v == 'long':
          at[p[-1]] = old + 'AAAA' if isinstance(old, str) else {'a': old}
        elif v == 'cut':
          at[p[-1]] = old[:-3] if isinstance(old, str) else [old]
        elif v == 'star':
          at[p[-1]] = old[:-3] + '\u1234' if isinstance(old, str) else str(old)
        else:
          at[p[-1]] = v
        load(json.dumps(k))
        mon.distinct('damage', case['key'], p, v)
    # metadata
    meta = json.dumps(ks.meta())
    for t in (meta[:-1], meta.replace('PRIMARY', 'SECONDARY'), meta.replace('"versions"', '"version"'), '',
              meta.replace('AES', 'DES').replace('RSA', 'RSB').replace('DSA', 'DSB').replace('HMAC', 'HMAD'), meta.replace('_AND_', '_OR_')):
      ks.write(loc)
      with open(os.path.join(loc, 'meta'), 'w') as f:
        f.write(t)
      attempt(mon, 'opening with damaged metadata', lambda: cls.Read(loc), secrets, 'damaged-meta')
    # encrypted
    ck, wrong = gen.key('aes128:6'), gen.keyset({'keys': ['aes128:5']})
    ks.encrypted = True
    ks.write(loc, lambda t: ref.b64(ck.encrypt(t.encode(), rng.randbytes(16))))
    ks.encrypted = False
    more = secrets + ck.secrets() + wrong.versions[0].key.secrets()
    attempt(mon, 'opening without the key', lambda: cls.Read(loc), more, 'need-reader')
    wc = kz.Crypter(ref.MemReader(wrong))
    attempt(mon, 'opening with another key',
            lambda: cls(readers.EncryptedReader(readers.CreateReader(loc), wc)), more, 'wrong-crypter')
    rc = kz.Crypter(ref.MemReader(gen.keyset({'keys': ['aes128:6']})))
    er = readers.EncryptedReader(readers.CreateReader(loc), rc)
    x = attempt(mon, 'opening with the key', lambda: cls(er), more).value
    objects(mon, 'encrypted set', [x, er, rc], more)
    with open(os.path.join(loc, '1'), 'w') as f:
      f.write(ref.b64(ck.encrypt(text[:-1].encode(), rng.randbytes(16))))
    with Watch() as w:
      o = mon.call(lambda: cls(readers.EncryptedReader(readers.CreateReader(loc), rc)))
    clean(mon, 'the output for a damaged encrypted key', w.shown(), more)
    if o.exc is not None:
      clean(mon, 'the exception for a damaged encrypted key', error_text(o), more)
    # generating
    with Watch() as w:
      g = keys.GenKey(keyinfo.AES)
    parts = [B(g.key_bytes), B(g.hmac_key.key_bytes)]
    clean(mon, 'the output of GenKey', w.shown(), parts)
    clean(mon, 'repr of a generated key', repr(g), parts)


def _tool(mon, case):
  """Commands print nothing of the keys and write them only into the key set."""
  rng = random.Random(case['salt'])
  loc, dest, cwd = mon.tmpdir(), mon.tmpdir(), mon.tmpdir()
  tmp = mon.tmpdir()
  ks, model = life.start(case['spec'], loc)
  aset = mon.tmpdir()
  gen.keyset({'keys': ['aes128:6']}).write(aset)
  old, home = os.getcwd(), dict(os.environ)
  os.chdir(cwd)
  os.environ['TMPDIR'] = tmp

  def secrets():
    out = [s for v in ks.versions for s in v.key.secrets()] + gen.key('aes128:6').secrets()
    try:
      out += [s for v in ref.read_keyset(loc).versions for s in v.key.secrets()]
    except Exception:
      pass
    return out
  try:
    cmds = []
    size = ['--size=1024'] if case['kind'].startswith(('rsa', 'dsa')) else []
    cmds += [(['addkey', '--location=' + loc, '--status=primary'] + size, None)]
    cmds += [(['promote', '--location=' + loc, '--version=%d' % n], None) for n in (1, 2, 3, 99)]
    cmds += [(['demote', '--location=' + loc, '--version=%d' % n], None) for n in (1, 1, 2, 2, 99)]
    cmds += [(['revoke', '--location=' + loc, '--version=%d' % n], None) for n in (1, 2, 99)]
    cmds += [(['addkey', '--location=' + loc, '--size=7'], None), (['create', '--location=' + loc, '--purpose=crypt'], None),
             (['pubkey', '--location=' + loc, '--destination=' + dest], None), (['pubkey', '--location=' + loc], None),
             (['addkey', '--location=' + loc, '--crypter=' + aset], None),
             (['nonsense', '--location=' + loc], None), (['promote', '--location=' + loc, '--version=x'], None)]
    for args, _ in cmds:
      before = secrets()
      with Watch() as w:
        o = mon.call(keyczart.main, list(args))
      every = before + secrets()
      shown = w.shown()
      clean(mon, 'the output of %s' % args[0], shown, every)
      mon.event('output')
      if o.exc is not None:
        clean(mon, 'the exception of %s' % args[0], error_text(o), every)
        mon.event('error:tool')
      for what, where in w.actions:
        if what == 'writes' and (where.startswith((loc + '/', dest + '/')) or where == '/dev/null'):
          continue
        mon.violate('%s reaches outside: %s %s' % (args[0], what, where))
      mon.event('sandbox')
      for d in (cwd, tmp):
        mon.check(os.listdir(d) == [], lambda: '%s left %s' % (args[0], os.listdir(d)))
      meta = open(os.path.join(loc, 'meta'), 'rb').read()
      clean(mon, 'the metadata after %s' % args[0], meta, every)
      names = set(os.listdir(loc))
      mon.check(all(n == 'meta' or n.isdigit() for n in names), lambda: '%s left files: %s' % (args[0], sorted(names)))
      mon.event('files')
      mon.distinct('tool', case['kind'], args[0], o.kind)
    every = secrets()
    for n in os.listdir(dest):
      clean(mon, 'the exported file', open(os.path.join(dest, n), 'rb').read(), every)
      mon.event('product:export')
    # using a key
    out = os.path.join(dest, 'out')
    purpose = keyinfo.DECRYPT_AND_ENCRYPT if case['kind'] in ('aes', 'rsa-crypt') else keyinfo.SIGN_AND_VERIFY
    loc2 = mon.tmpdir()
    k2 = gen.keyset({'keys': case['spec']['keys'][:1], 'purpose': 'crypt' if case['kind'] in ('aes', 'rsa-crypt') else 'sign'})
    k2.write(loc2)
    msg = rng.randbytes(30)
    sec = [s for v in k2.versions for s in v.key.secrets()] + ([msg] if purpose == keyinfo.DECRYPT_AND_ENCRYPT else [])
    attempt(mon, 'UseKey', lambda: keyczart.UseKey(purpose, loc2, out, None, S(msg)), sec, writes=(dest,))
    clean(mon, 'the result of UseKey', open(out, 'rb').read(), sec)
    mon.event('product:usekey')
    mon.check(set(os.environ) <= set(home) | {'TMPDIR'}, 'a command changed the environment')
  finally:
    os.chdir(old)
    os.environ.clear()
    os.environ.update(home)


def run(mon, case):
  {'crypt': _crypt, 'sign': _sign, 'session': _session, 'damage': _damage, 'tool': _tool}[case['k']](mon, case)
