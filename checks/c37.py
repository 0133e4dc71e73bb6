"""C37: the Java tool changes key sets as documented, through any history."""
import json
import os
import random
import shutil
import subprocess

from kzmon import foreign, gen, kit, life, ref
from checks import c33, c34

ID = 'C37'
LEVEL = 'exploration'
RULE = ('one command of the Java tool in some state of a key set, judged against the model of the life cycle and the reference formats: distinct by command, '
        'state, kind of key and storage')
REQUIRED = ('created', 'add', 'promote', 'demote', 'revoke', 'refused', 'unchanged', 'old-message', 'revoked-message', 'kind:AES', 'kind:HMAC_SHA1', 'kind:RSA_PRIV',
            'kind:DSA_PRIV', 'storage:crypted', 'pubkey', 'pem', 'fault', 'small-crypter', 'fresh-key', 'generated', 'no-secrets', 'wrong-flag', 'usekey', 'private-files', 'odd-location',
            'odd-name', 'pubkey-itself', 'import-other-kind', 'import:among-others', 'import:ACTIVE', 'import:INACTIVE', 'import:PRIMARY')
ASSUMPTIONS = c34.ASSUMPTIONS + ('the tool has no exit status: a command succeeds when nothing is printed', 'crash consistency of the Java tool is not claimed: it writes files in place')
CASE_TIMEOUT = {'quick': 250, 'thorough': 800}
P, A, I = life.P, life.A, life.I
TYPES = c33.TYPES
SIZES = {'aes': (128, 192, 256, None, None), 'hmac': (256, None), 'rsa': (1024, 1024, 2048), 'dsa': (1024, None)}
DEFAULT = {'aes': 128, 'hmac': 256, 'dsa': 1024, 'rsa': 4096}
WRONG = {'aes': (1, 0, 64, 127, 129, 512, 100000), 'hmac': (0, 128, 255, 257, 512), 'rsa': (0, 512, 768, 1023, 1025), 'dsa': (0, 512, 1023)}
NAMES = ('Test', 'a key set', 'x"y', '', 'n\u00e4me', '\u00c5 \u20ac \u0416', 'a=b', 'tab\there', 'back\\slash')


def setup():
  foreign.setup_java()


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(150 if q else 1500):
    kind = ('aes', 'hmac', 'aes', 'hmac', 'rsa', 'dsa')[i % 6]
    yield {'k': 'life', 'kind': kind, 'storage': ('plain', 'plain', 'plain', 'crypted')[(i // 6) % 4], 'salt': rng.randrange(1 << 30),
           'n': (25 if q else 60) if kind in ('aes', 'hmac') else 12}
  for i in range(60 if q else 600):
    yield {'k': 'pubkey', 'kind': ('rsa-sign', 'rsa-crypt', 'dsa', 'hmac', 'aes')[i % 5], 'storage': ('plain', 'plain', 'crypted')[i % 3], 'salt': rng.randrange(1 << 30)}
  for i in range(40 if q else 400):
    yield {'k': 'pem', 'kind': ('rsa-sign', 'rsa-crypt', 'dsa')[i % 3], 'status': (None, 'primary', 'inactive', 'active', 'primary', 'inactive')[i // 3 % 6], 'salt': rng.randrange(1 << 30)}
  for i in range(40 if q else 400):
    yield {'k': 'fault', 'salt': rng.randrange(1 << 30), 'how': ('key-dir', 'location-file', 'small-crypter', 'pub-dest')[i % 4]}
  for i in range(4 if q else 20):
    yield {'k': 'create', 'salt': rng.randrange(1 << 30)}
  for i in range(32 if q else 200):
    yield {'k': 'usekey', 'salt': rng.randrange(1 << 30), 'kind': ('aes', 'hmac', 'rsa-crypt', 'dsa')[i % 4], 'storage': ('plain', 'crypted')[i // 4 % 2]}
  if not q:
    for i in range(4):
      yield {'k': 'default-rsa', 'salt': rng.randrange(1 << 30)}


def tool(java, *argv):
  """Whether the tool did it; what it prints otherwise."""
  out = java.tool(*argv)
  return (not out.strip()), out


def read(mon, loc, store):
  try:
    return ref.read_keyset(loc, store.decrypt)
  except (ref.FormatError, ValueError, KeyError, OSError) as e:
    mon.violate('Java: the tool leaves a key set that does not follow the format: %r' % e, files=sorted(os.listdir(loc)))


def private_files(mon, loc):
  for n in os.listdir(loc):
    mode = os.stat(os.path.join(loc, n)).st_mode & 0o777
    mon.check(mode & 0o077 == 0, 'Java: the tool writes files that others can read or write', file=n, mode=oct(mode))
  mon.event('private-files')


def place(mon, rng):
  """A directory for a key set, sometimes with an unusual name."""
  d = mon.tmpdir()
  if rng.random() < .25:
    d = os.path.join(d, rng.choice(('a=b', 'with space', 'x--y', '=', 'a=b=c')))
    os.mkdir(d)
    mon.event('odd-location')
  return d


def initial(mon, java, rng, kind, store):
  loc = place(mon, rng)
  purpose = 'crypt' if kind == 'aes' or (kind == 'rsa' and rng.random() < .5) else 'sign'
  if rng.random() < .4:
    args = ['create', '--location=' + loc, '--purpose=' + purpose]
    name = rng.choice([x for x in NAMES if x])
    if rng.random() < .75:
      args.append('--name=' + name)
      if name not in NAMES[:3]:
        mon.event('odd-name')
    else:
      name = None
    if kind in ('rsa', 'dsa'):
      args.append('--asymmetric=' + kind)
    rng.shuffle(args)
    ok, text = tool(java, *args)
    mon.check(ok, 'Java: create fails', args=args, printed=text[:300])
    mon.event('created')
    ks = read(mon, loc, store)
    mon.check((ks.type, ks.versions, ks.encrypted) == (TYPES[kind], [], False) and (name is None or ks.name == name)
              and ks.purpose == {'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose], 'Java: create makes another key set', meta=ks.meta(), args=args)
    private_files(mon, loc)
    return loc, purpose
  n = rng.choice((0, 1, 2, 3, 4))
  keys = gen.aes_keys(rng, n) if kind == 'aes' and n else gen.sign_keys(rng, {'rsa': 'rsa1024'}.get(kind, kind), n) if n else []
  spec = {'keys': keys, 'purpose': purpose, 'type': TYPES[kind], 'status': gen.statuses(rng, len(keys), rng.random() < .8) if keys else '', 'name': rng.choice(NAMES)}
  if keys and rng.random() < .4:
    spec['numbers'] = rng.sample(range(1, 60), len(keys))
  ks = gen.keyset(spec) if keys else ref.KeySet({'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose], TYPES[kind], [], spec['name'])
  ks.encrypted = bool(keys) and store.kind != 'plain'
  ks.write(loc, store.encrypt(rng))
  return loc, purpose


def history(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  kind = case['kind']
  store = c33.Store(mon, rng, case['storage'])
  loc, purpose = initial(mon, java, rng, kind, store)
  ks = read(mon, loc, store)
  head = (ks.name, ks.type, ks.purpose)
  mon.event('kind:' + ks.type)
  mon.event('storage:' + store.kind)
  model = life.Model((v.number, v.status) for v in ks.versions)
  ids = dict((v.number, life.key_id(v.key)) for v in ks.versions)
  everything = set(ids.values())
  messages = []
  reader, writer = ('Crypter', 'Crypter') if purpose == 'crypt' else ('Verifier', 'Signer')
  for step in range(case['n']):
    cmd = life.random_command(rng, model)
    size, flags, wrong = None, [], None
    before = life.snapshot(loc)
    if cmd[0] == 'add':
      size = rng.choice(SIZES[kind])
      flags = list(store.flags)
      if size:
        flags.append('--size=%d' % size)
      x = rng.random()
      if x < .08:
        wrong = '--size=%s' % rng.choice(WRONG[kind] + ('x', '1e3'))
        flags = [f for f in flags if not f.startswith('--size')] + [wrong]
      elif x < .14 and store.kind != 'plain' and model.v:
        wrong = 'without the secret'
        flags = [f for f in flags if f not in store.flags]
      elif x < .18 and store.kind == 'plain' and model.v:
        wrong = '--crypter=' + gen.keyset({'keys': gen.aes_keys(rng, 1), 'purpose': 'crypt'}).write(mon.tmpdir())
        flags.append(wrong)
      elif x < .22 and store.kind == 'crypted' and model.v:
        wrong = '--crypter=' + rng.choice((mon.tmpdir(), gen.keyset({'keys': gen.aes_keys(rng, 1), 'purpose': 'crypt'}).write(mon.tmpdir())))
        flags = [f for f in flags if f not in store.flags] + [wrong]
      elif x < .24:
        wrong = '--unknown=flag'
        flags.append(wrong)
      args = ['addkey', '--location=' + loc] + flags
      if cmd[1] != A or rng.random() < .5:
        args.append('--status=' + rng.choice((cmd[1].lower(), cmd[1])))
    else:
      args = [cmd[0], '--location=' + loc, '--version=%d' % cmd[1]]
      if store.kind != 'plain' and model.v:
        wrong = 'encrypted'       # these commands know no crypter
      elif rng.random() < .04:
        wrong = 'version'
        args[-1] = rng.choice(('--version=x', '--version', '--version=', '--version=99999999999'))
    if rng.random() < .3:
      args[1] += '/'
    rng.shuffle(args)
    after = model.copy()
    refused = wrong is not None
    if not refused:
      try:
        after.apply(cmd)
      except life.Refused:
        refused = True
    ok, text = tool(java, *args)
    mon.distinct('command', kind, store.kind, cmd[0], sorted(model.v.values()), model.v.get(cmd[1]) if cmd[0] != 'add' else cmd[1], wrong and wrong[:8])
    if refused:
      mon.check(not ok, 'Java: a command that must be refused succeeds', command=cmd, args=args, wrong=wrong, state=model.v)
      now = life.snapshot(loc)
      mon.check(now == before, 'Java: a refused command changes the key set', command=cmd, args=args, wrong=wrong, changed=life.diff(before, now), state=model.v,
                before=before.get('meta'), after=now.get('meta'))
      mon.event('refused')
      mon.event('unchanged')
      if wrong:
        mon.event('wrong-flag')
      continue
    mon.check(ok, 'Java: a command fails', command=cmd, args=args, state=model.v, printed=text[:600])
    mon.event(cmd[0])
    ks = read(mon, loc, store)
    mon.check((ks.name, ks.type, ks.purpose) == head, 'Java: a command changes name, type or purpose', head=head, now=(ks.name, ks.type, ks.purpose))
    state = dict((v.number, v.status) for v in ks.versions)
    mon.check(state == after.v, 'Java: a command leads to another state', command=cmd, before=model.v, expected=after.v, got=state)
    mon.check(not ks.versions or ks.encrypted == (store.kind != 'plain'), 'Java: the flag for encrypted keys is wrong', got=ks.encrypted)
    for v in ks.versions:
      kid = life.key_id(v.key)
      if v.number in ids and v.number in model.v:
        mon.check(ids[v.number] == kid, 'Java: a command changes the key of a version', command=cmd, version=v.number)
      else:
        mon.check(kid not in everything, 'Java: a generated key is not new', command=cmd, version=v.number)
        mon.check(v.key.size == (size or DEFAULT[kind]), 'Java: a generated key has another size', size=v.key.size, asked=size)
        if kind == 'aes':
          mon.check(len(v.key.hmac) * 8 == 256, 'Java: the MAC key of a generated key is short', bits=len(v.key.hmac) * 8)
        ids[v.number] = kid
        everything.add(kid)
        mon.event('fresh-key')
        mon.event('generated')
    for n in [n for n in model.v if n not in after.v]:
      ids.pop(n, None)
      mon.check(not os.path.exists(os.path.join(loc, str(n))), 'Java: the key of a revoked version stays on disk', version=n)
    extra = set(os.listdir(loc)) - set(['meta']) - set(str(n) for n in after.v)
    mon.check(not extra, 'Java: files are left that are no keys', files=sorted(extra))
    private_files(mon, loc)
    if store.kind != 'plain':
      for v in ks.versions:
        with open(os.path.join(loc, str(v.number)), 'rb') as f:
          mon.check(not kit.leaks(f.read(), v.key.secrets()), 'Java: an encrypted key file contains the key in plain', version=v.number)
      mon.event('no-secrets')
    model = after
    if kind in ('rsa', 'dsa') and step % 3 != 2:
      continue
    h = java.open(writer, loc, store.kind, store.secret)
    mon.check(h is not None, 'Java: the key set cannot be opened', command=cmd)
    java.do('encoding', h, 0)
    prim = ks.primary
    msg = gen.message(gen.msg(rng, maxlen=20))
    out = java.do('encrypt' if purpose == 'crypt' else 'sign', h, msg)
    mon.check((out is None) == (prim is None), 'Java: with%s primary key, but the operation gives %s' % ('out' if prim is None else '', c33.short(out)))
    if out is not None:
      mon.check(out[1:5] == prim.key.id, 'Java: another key than the primary one is used')
      messages.append((prim.number, ids[prim.number], msg, out))
    r = java.open(reader, loc, store.kind, store.secret)
    java.do('encoding', r, 0)
    for number, kid, m, o in rng.sample(messages, min(len(messages), 6)):
      got = java.do('decrypt', r, o) if purpose == 'crypt' else (m if java.do('verify', r, m, o) else None)
      if number in model.v and ids[number] == kid:
        mon.check(got == m, 'Java: an older message is refused although its key is in the set', status=model.v[number], version=number)
        mon.event('old-message')
      else:
        mon.check(got is None, 'Java: a message of a revoked key is accepted', version=number)
        mon.event('revoked-message')
  java.done()


def pubkey(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  kind = case['kind']
  store = c33.Store(mon, rng, case['storage'])
  ks, loc = c33.start(mon, rng, kind, store)
  before = life.snapshot(loc)
  dest = place(mon, rng)
  ok, text = tool(java, 'pubkey', '--location=' + loc, '--destination=' + dest + rng.choice(('', '/')))
  mon.check(life.snapshot(loc) == before, 'Java: pubkey changes the private key set')
  mon.distinct('pubkey', kind, store.kind, [v.status for v in ks.versions])
  if kind in ('aes', 'hmac') or store.kind != 'plain':
    mon.check(not ok, 'Java: pubkey of symmetric or encrypted keys succeeds')
    for n in os.listdir(dest):
      with open(os.path.join(dest, n), 'rb') as f:
        mon.check(not kit.leaks(f.read(), [s for v in ks.versions for s in v.key.secrets()]), 'Java: pubkey writes secret keys')
    mon.event('refused')
    java.done()
    return
  mon.check(ok, 'Java: pubkey fails', printed=text[:300])
  want = ks.public()
  with open(os.path.join(dest, 'meta')) as f:
    meta = json.load(f)
  expect = want.meta()
  meta['versions'].sort(key=lambda v: v['versionNumber'])
  expect['versions'].sort(key=lambda v: v['versionNumber'])
  mon.check(meta == expect, 'Java: metadata of the public key set', got=meta, expected=expect)
  mon.check(sorted(os.listdir(dest)) == sorted(['meta'] + [str(v.number) for v in ks.versions]), 'Java: files of the public key set', files=os.listdir(dest))
  for v in ks.versions:
    with open(os.path.join(dest, str(v.number))) as f:
      j = json.load(f)
    p = v.key.pub_json()
    j.pop('padding', None)
    same = v.key.parse_pub(j) == v.key.parse_pub(p) if hasattr(v.key, 'parse_pub') else j == p
    mon.check(same and set(j) == set(p) and j.get('size') == p.get('size'), 'Java: a public key is wrong', got=j, expected=p)
    mon.check(not kit.leaks(json.dumps(j).encode(), v.key.secrets()), 'Java: an exported public key contains secrets')
    mon.event('no-secrets')
  mon.event('pubkey')
  pub = java.open('Encrypter' if kind == 'rsa-crypt' else 'Verifier', dest)
  priv = java.open('Crypter' if kind == 'rsa-crypt' else 'Signer', loc)
  mon.check(pub is not None and priv is not None, 'Java: an exported key set cannot be opened')
  if ks.primary is not None:
    if kind == 'rsa-crypt':
      mon.check(java.do('decrypt', priv, java.do('encrypt', pub, b'data')) == b'data', 'Java: public and private half do not fit')
    else:
      mon.check(java.do('verify', pub, b'data', java.do('sign', priv, b'data')), 'Java: public and private half do not fit')
  # the key set itself must survive being given as destination
  link = os.path.join(mon.tmpdir(), 'link')
  os.symlink(loc, link)
  dest = rng.choice((loc, loc + '/', loc + '/.', link))
  tool(java, 'pubkey', '--location=' + loc, '--destination=' + dest)
  mon.check(life.snapshot(loc) == before, 'Java: pubkey into the key set itself replaces the private keys')
  mon.event('pubkey-itself')
  java.done()


def pem(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  kind = case['kind']
  store = c33.Store(mon, rng, rng.choice(('plain', 'crypted')))
  ks, loc = c33.start(mon, rng, kind, store)
  before = life.snapshot(loc)
  out = os.path.join(mon.tmpdir(), 'out.pem')
  phrase = ''.join(rng.choice('abcdefgh0123 =') for _ in range(rng.choice((8, 12, 30)))).strip() + 'xyzxyzxyz'
  v = rng.choice(ks.versions)
  short = rng.choice(('', '1234567'))
  flags = ['--passphrase=' + short] if short else []
  ok, text = tool(java, 'exportkey', '--location=' + loc, '--version=%d' % v.number, '--pemfile=' + out, *(store.flags + flags))
  mon.check(not ok and not os.path.exists(out), 'Java: exportkey of a private key without a passphrase of eight characters succeeds')
  ok, text = tool(java, 'exportkey', '--location=' + loc, '--version=%d' % (max(x.number for x in ks.versions) + 1), '--pemfile=' + out, '--passphrase=' + phrase, *store.flags)
  mon.check(not ok and not os.path.exists(out), 'Java: exportkey of a version that does not exist succeeds')
  ok, text = tool(java, 'exportkey', '--location=' + loc, '--version=%d' % v.number, '--pemfile=' + out, '--passphrase=' + phrase, *store.flags)
  mon.check(life.snapshot(loc) == before, 'Java: exportkey changes the key set')
  mon.check(ok, 'Java: exportkey fails', printed=text[:300])
  k = v.key
  with open(out, 'rb') as f:
    data = f.read()
  mon.check(b'ENCRYPTED' in data and not kit.leaks(data, k.secrets()), 'Java: the exported key is not encrypted')
  ok, text = tool(java, 'exportkey', '--location=' + loc, '--version=%d' % v.number, '--pemfile=' + out, '--passphrase=' + phrase, *store.flags)
  with open(out, 'rb') as f:
    mon.check(not ok and f.read() == data, 'Java: exportkey replaces a file')
  # import into a set of its own, of another kind, and of none
  purpose = 'crypt' if kind == 'rsa-crypt' else 'sign'
  alg = rng.choice(({'rsa-sign': 'rsa', 'rsa-crypt': 'rsa'}.get(kind, kind), None))
  loc2 = mon.tmpdir()
  ok, text = tool(java, 'create', '--location=' + loc2, '--purpose=' + purpose, '--name=x', *(['--asymmetric=' + alg] if alg else []))
  mon.check(ok, 'Java: create fails', printed=text[:300])
  st = c33.Store(mon, rng, rng.choice(('plain', 'crypted')))
  had = []
  if alg and rng.random() < .6:
    # into a set that has keys: a new primary key takes the place of the old one
    for status in rng.choice((['primary'], ['primary', 'active'], ['inactive', 'primary'], ['active'])):
      ok, text = tool(java, 'addkey', '--location=' + loc2, '--status=' + status, '--size=1024', *st.flags)
      mon.check(ok, 'Java: addkey fails', printed=text[:300])
      had.append(status.upper())
    mon.event('import:among-others')
  old = [(v.number, v.key.id) for v in read(mon, loc2, st).versions]
  empty = life.snapshot(loc2)
  for bad in (phrase + 'y', None):
    ok, text = tool(java, 'importkey', '--location=' + loc2, '--pemfile=' + out, '--status=primary', *(st.flags + (['--passphrase=' + bad] if bad else [])))
    mon.check(not ok, 'Java: importkey with a wrong passphrase succeeds', phrase=bad)
    mon.check(life.snapshot(loc2) == empty, 'Java: a refused import changes the key set')
  status = case.get('status')
  flag = ['--status=' + status] if status else []
  ok, text = tool(java, 'importkey', '--location=' + loc2, '--pemfile=' + out, '--passphrase=' + phrase, *(flag + st.flags))
  mon.check(ok, 'Java: importkey fails', printed=text[:300], alg=alg)
  got = read(mon, loc2, st)
  status = (status or 'active').upper()
  expected = ['ACTIVE' if s == P and status == P else s for s in had] + [status]
  mon.check([v.status for v in got.versions] == expected, 'Java: an import leaves other statuses than documented', had=had, asked=status, got=[v.status for v in got.versions])
  mon.check(got.type == TYPES[{'rsa-sign': 'rsa', 'rsa-crypt': 'rsa'}.get(kind, kind)] and got.versions[-1].key.secrets() == k.secrets()
            and old + [(len(had) + 1, k.id)] == [(v.number, v.key.id) for v in got.versions], 'Java: an imported key differs from the exported one')
  mon.event('import:' + status)
  mon.check(got.encrypted == (st.kind != 'plain'), 'Java: the flag for encrypted keys is wrong after importkey')
  h = java.open('Crypter' if purpose == 'crypt' else 'Signer', loc2, st.kind, st.secret)
  if P in expected:
    mon.check(h is not None and java.do('encrypt' if purpose == 'crypt' else 'sign', h, b'data') is not None, 'Java: an imported key cannot be used')
  # a set that has keys of another kind
  other = rng.choice(('aes',) if purpose == 'crypt' else ('hmac', 'dsa') if kind != 'dsa' else ('hmac', 'rsa-sign'))
  plain = c33.Store(mon, rng, 'plain')
  ks3, loc3 = c33.start(mon, rng, other, plain)
  before = life.snapshot(loc3)
  ok, text = tool(java, 'importkey', '--location=' + loc3, '--pemfile=' + out, '--passphrase=' + phrase, '--status=' + rng.choice(('primary', 'active')))
  mon.check(not ok and life.snapshot(loc3) == before, 'Java: a key of another kind is added to a key set', kind=kind, other=other)
  mon.event('import-other-kind')
  # keys that OpenSSL made
  if shutil.which('openssl') and kind != 'dsa':
    d = mon.tmpdir()
    made = os.path.join(d, 'k.pem')
    form = rng.choice(('PEM', 'DER'))
    subprocess.run(['openssl', 'genpkey', '-algorithm', 'RSA', '-pkeyopt', 'rsa_keygen_bits:1024', '-out', made + '1'], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    subprocess.run(['openssl', 'pkcs8', '-topk8', '-nocrypt', '-in', made + '1', '-outform', form, '-out', made], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    n = subprocess.run(['openssl', 'rsa', '-in', made + '1', '-modulus', '-noout'], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout.decode().strip()
    loc4 = mon.tmpdir()
    tool(java, 'create', '--location=' + loc4, '--purpose=' + purpose, '--name=x', '--asymmetric=rsa')
    ok, text = tool(java, 'importkey', '--location=' + loc4, '--pemfile=' + made, '--status=primary')
    mon.check(ok, 'Java: importkey of a PKCS8 file fails', printed=text[:300], form=form)
    got = read(mon, loc4, plain).versions[0].key
    mon.check('%X' % got.n == n.split('=')[1].lstrip('0'), 'Java: another key is imported than the file has')
    mon.event('pem:openssl')
  mon.event('refused')
  mon.event('pem')
  mon.distinct('pem', kind, st.kind, store.kind, len(phrase), case['salt'])
  java.done()


def fault(mon, case):
  """Something is in the way: the tool must not pretend success."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  store = c33.Store(mon, rng, rng.choice(('plain', 'plain', 'crypted')))
  kind = rng.choice(('aes', 'hmac'))
  ks, loc = c33.start(mon, rng, kind, store)
  nxt = max(v.number for v in ks.versions) + 1
  how = case['how']
  mon.distinct('fault', kind, store.kind, how, nxt)
  meta = c33._meta(loc)
  if how == 'key-dir':
    os.mkdir(os.path.join(loc, str(nxt)))
    mon.check(not tool(java, 'addkey', '--location=' + loc, '--status=primary', *store.flags)[0], 'Java: addkey succeeds although the key was not written')
  elif how == 'small-crypter':
    rks = gen.keyset({'keys': gen.sign_keys(rng, 'rsa1024', 1), 'purpose': 'crypt'})
    rloc = rks.write(mon.tmpdir())
    loc = mon.tmpdir()
    tool(java, 'create', '--location=' + loc, '--purpose=' + ('crypt' if kind == 'aes' else 'sign'), '--name=x')
    meta = c33._meta(loc)
    ok, text = tool(java, 'addkey', '--location=' + loc, '--status=primary', '--crypter=' + rloc)
    if ok:
      with open(os.path.join(loc, '1')) as f:
        raw = ref.unb64(f.read().strip())
      mon.check(raw[1:5] == rks.versions[0].key.id and b'Key' in rks.versions[0].key.decrypt(raw)[0], 'Java: a key is not stored as the crypter encrypts it', kind=kind)
      meta = c33._meta(loc)
    else:
      for n in os.listdir(loc):
        with open(os.path.join(loc, n)) as f:
          mon.check(n == 'meta' or 'Key' not in f.read(), 'Java: a key that cannot be encrypted is stored in plain', kind=kind, file=n)
    mon.event('small-crypter')
  elif how == 'location-file':
    p = os.path.join(mon.tmpdir(), 'file')
    with open(p, 'w'):
      pass
    for cmd in ('create', 'addkey', 'promote', 'demote', 'revoke', 'pubkey', 'importkey', 'exportkey'):
      for where in (['--location=' + p], []):
        mon.check(not tool(java, cmd, '--purpose=sign', '--name=x', '--version=1', '--destination=' + mon.tmpdir(), '--pemfile=' + p, '--passphrase=abcdefgh', *where)[0],
                  'Java: %s succeeds %s' % (cmd, 'on a file' if where else 'without location'))
    mon.check(os.path.getsize(p) == 0, 'Java: the tool writes to a file given as location')
  else:
    ks, loc = c33.start(mon, rng, 'dsa', c33.Store(mon, rng, 'plain'))
    meta = c33._meta(loc)
    dest = mon.tmpdir()
    os.mkdir(os.path.join(dest, str(ks.versions[0].number)))
    mon.check(not tool(java, 'pubkey', '--location=' + loc, '--destination=' + dest)[0], 'Java: pubkey succeeds although a key was not written')
    mon.check(not tool(java, 'pubkey', '--location=' + loc, '--destination=' + os.path.join(dest, 'none'))[0], 'Java: pubkey succeeds although the destination does not exist')
    mon.check(not tool(java, 'pubkey', '--location=' + loc)[0], 'Java: pubkey succeeds without destination')
  mon.check(c33._meta(loc) == meta, 'Java: a command that failed changes the key set', how=how)
  mon.event('fault')
  java.done()


def create(mon, case):
  """Which sets can be created, and that create never replaces one."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  for purpose in ('crypt', 'sign', 'x', 'encrypt', 'verify', None):
    for alg in (None, 'rsa', 'dsa'):
      loc = mon.tmpdir()
      ok, text = tool(java, 'create', '--location=' + loc, *(['--purpose=' + purpose] if purpose else []) + (['--asymmetric=' + alg] if alg else []) +
                      (['--name=Test'] if rng.random() < .5 else []))
      if (purpose, alg) == ('crypt', 'dsa'):
        continue        # taken for RSA
      good = purpose in ('sign', 'crypt')
      mon.check(ok == good, 'Java: create gives %s' % ok, purpose=purpose, alg=alg)
      mon.distinct('create', purpose, alg)
      if not good:
        mon.check(not os.listdir(loc), 'Java: a refused create leaves files', purpose=purpose, alg=alg)
        mon.event('refused')
        continue
      if alg != 'rsa':
        ok, text = tool(java, 'addkey', '--location=' + loc, '--status=primary')
        mon.check(ok, 'Java: a key set that was just created takes no key', purpose=purpose, alg=alg, printed=text[:300])
      before = life.snapshot(loc)
      mon.check(not tool(java, 'create', '--location=' + loc, '--name=x', '--purpose=' + rng.choice(('crypt', 'sign')))[0], 'Java: create replaces a key set')
      mon.check(life.snapshot(loc) == before, 'Java: a refused create changes the key set')
      mon.event('created')
      mon.event('unchanged')
  java.done()


def usekey(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  store = c33.Store(mon, rng, case['storage'])
  ks, loc = c33.start(mon, rng, case['kind'], store)
  before = life.snapshot(loc)
  out = os.path.join(mon.tmpdir(), 'answer')
  msg = rng.choice(('data', 'a longer message', 'M\u00fcnchen \u20ac', 'x=y'))
  to_file = rng.random() < .5
  text = java.tool('usekey', msg, '--location=' + loc, *store.flags + (['--destination=' + out] if to_file else []))
  mon.check(life.snapshot(loc) == before, 'Java: usekey changes the key set')
  if to_file and os.path.exists(out):
    with open(out) as f:
      text = f.read()
  text = text.strip()
  mon.distinct('usekey', case['kind'], store.kind, msg, to_file, ks.primary is None)
  try:
    raw = ref.unb64(text)
  except ValueError:
    raw = b''
  if ks.primary is None:
    mon.check('Exception' in text, 'Java: usekey without primary key gives an answer', got=text[:200])
  else:
    k = ks.primary.key
    if ks.purpose == 'DECRYPT_AND_ENCRYPT':
      try:
        good = k.decrypt(raw)[0] == msg.encode()
      except (ref.FormatError, ValueError, IndexError):
        good = False
    else:
      good = raw[:5] == b'\0' + k.id
      if good:
        h = java.open('Verifier', loc, store.kind, store.secret)
        java.do('encoding', h, 0)
        good = bool(java.do('verify', h, msg.encode(), raw))
    mon.check(good, 'Java: usekey gives something else', got=text[:200], message_=msg)
  mon.event('usekey')
  java.done()


def default_rsa(mon, case):
  java = foreign.lib(mon)
  loc = mon.tmpdir()
  rng = random.Random(case['salt'])
  tool(java, 'create', '--location=' + loc, '--purpose=' + rng.choice(('crypt', 'sign')), '--asymmetric=rsa', '--name=x')
  ok, text = tool(java, 'addkey', '--location=' + loc, '--status=primary')
  mon.check(ok, 'Java: addkey fails', printed=text[:300])
  mon.check(read(mon, loc, c33.Store(mon, rng, 'plain')).versions[0].key.size == 4096, 'Java: a generated key has another size')
  java.done()


def run(mon, case):
  foreign.use_java()
  mon = foreign.Renamed(mon, 'Java')
  {'life': history, 'pubkey': pubkey, 'pem': pem, 'fault': fault, 'create': create, 'usekey': usekey, 'default-rsa': default_rsa}[case['k']](mon, case)
