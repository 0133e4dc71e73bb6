"""C17: refused commands change nothing and existing key sets are not overwritten."""
import json
import os
import random

from kzmon import gen, kit, life, ref
from kzmon.env import errors, keyczart, keyinfo, kz, readers, writers

ID = 'C17'
LEVEL = 'exploration'
RULE = ('a refused command in a key set state, with all files and the object compared before and after: distinct by key type, '
        'versions, statuses, storage, way of issuing and refusal')
REASONS = ('size', 'size-text', 'status', 'version', 'version-status', 'version-missing', 'version-text', 'location-missing',
           'location-absent', 'location-file', 'location-empty', 'crypter-absent', 'crypter-purpose', 'crypter-none',
           'crypter-wrong', 'crypter-noprimary', 'crypter-public', 'unknown-flag', 'unknown-command', 'purpose', 'exists',
           'not-asymmetric', 'destination-missing', 'destination-absent', 'destination-file', 'public-set', 'damaged-key',
           'several-primaries', 'missing-key')
REQUIRED = tuple('reason:' + r for r in REASONS) + (
    'how:tool', 'how:functions', 'how:classes', 'how:memory', 'usable-after', 'type:aes', 'type:hmac', 'type:rsa-crypt',
    'type:rsa-sign', 'type:dsa', 'encrypted')
ASSUMPTIONS = ('the "encrypted" mark of an object whose Write was refused is not judged', 'the undocumented genkey command is not judged')

KINDS = ('aes', 'hmac', 'rsa-crypt', 'rsa-sign', 'dsa')
GOOD = {'aes': (128, 192, 256), 'hmac': (256,), 'rsa-crypt': (1024, 2048, 4096), 'rsa-sign': (1024, 2048, 4096), 'dsa': (1024,)}


def cases(rng, tier):
  for i in range(14 if tier == 'quick' else 200):
    for kind in KINDS:
      yield {'kind': kind, 'spec': life.start_spec(rng, kind, i % 5), 'salt': rng.randrange(1 << 30),
             'enc': i % 3 == 2}


def bad_sizes(rng, kind):
  """Sizes of no key of that type; 512 and 768 bits of RSA are left out."""
  l = [0, 1, 8, 64, 127, 129, 160, 255, 257, 384, 1000, 1023, 1025, 3000, 8192, 16384, -2, -128, -1024, 10 ** 6, 2 ** 40]
  l += [s for k in GOOD for s in GOOD[k] if s not in GOOD[kind]]
  if kind == 'rsa-crypt' or kind == 'rsa-sign':
    l = [s for s in l if s not in (512, 768)]
  return rng.sample(l, 5)


class World(object):
  """Some key sets in one directory, in which everything happens."""

  def __init__(self, mon, rng, case):
    self.mon, self.rng, self.kind = mon, rng, case['kind']
    self.root = mon.tmpdir()
    self.d = os.path.join(self.root, 'work')
    os.mkdir(self.d)
    self.loc = self.path('set')
    self.ks, self.model = life.start(case['spec'], self.loc)
    self.crypter = None
    ck = gen.keyset({'keys': gen.aes_keys(rng, 2)})
    ck.write(self.path('crypter'))
    gen.keyset({'keys': gen.aes_keys(rng, 2)}).write(self.path('other'))
    gen.keyset({'keys': ['hmac:1']}).write(self.path('hmac'))
    gen.keyset({'keys': gen.aes_keys(rng, 2), 'status': 'AA'}).write(self.path('noprimary'))
    gen.keyset({'keys': ['rsa1024:1'], 'purpose': 'crypt'}).public().write(self.path('public'))
    self.ck = ck
    if case['enc']:
      self.crypter = self.path('crypter')
      self.ks.encrypted = True
      pk = ck.primary.key
      self.ks.write(self.loc, lambda t: ref.b64(pk.encrypt(t.encode(), gen.stream('iv%s' % t[-9:], 16))))
      mon.event('encrypted')
    with open(self.path('file'), 'w') as f:
      f.write('not a directory')
    os.mkdir(self.path('empty'))
    mon.event('type:' + self.kind)

  def path(self, name):
    return os.path.join(self.d, name)

  def refused(self, why, how, what, fn):
    """fn, a call, has to be refused and to leave all files alone."""
    mon = self.mon
    before = life.snapshot(self.root)
    o = fn()
    mon.check(not o.ok, lambda: '%s (%s) is not refused (%s)' % (what, how, why))
    mon.check(isinstance(o.exc, errors.KeyczarError),
              lambda: '%s (%s) is not refused with a KeyczarError (%s): %r' % (what, how, why, o), traceback=o.tb)
    after = life.snapshot(self.root)
    mon.check(after == before,
              lambda: '%s (%s) was refused (%s) but changed files: %s' % (what, how, why, life.diff(before, after)))
    mon.event('reason:' + why)
    mon.event('how:' + how)
    mon.distinct(self.kind, sorted(self.model.v.items()), self.crypter is not None, how, why, what)

  def tool(self, why, args, encrypted_ok=False):
    show = ' '.join(a.replace(self.d + '/', '') for a in args)
    self.refused(why, 'tool', show, lambda: life.tool(self.mon, args))

  def call(self, why, how, what, fn, *args):
    self.refused(why, how, what, lambda: self.mon.call(fn, *args))


def run(mon, case):
  rng = random.Random(case['salt'])
  cwd = os.getcwd()
  w = World(mon, rng, case)
  os.chdir(w.d)      # no stray file may appear here either
  try:
    _commands(mon, rng, w)
    _create(mon, rng, w)
    _damaged(mon, rng, w, case)
    _memory(mon, rng, w)
  finally:
    os.chdir(cwd)


def _commands(mon, rng, w):
  kind, loc = w.kind, w.loc
  L = '--location=' + loc
  C = ['--crypter=' + w.crypter] if w.crypter else []

  def cobj():
    return kz.Crypter.Read(w.crypter) if w.crypter else None

  status = rng.choice(('primary', 'active', 'inactive'))
  for s in bad_sizes(rng, kind):
    w.tool('size', ['addkey', L, '--status=' + status, '--size=%d' % s] + C)
    st = rng.choice((keyinfo.PRIMARY, keyinfo.ACTIVE))
    w.call('size', 'functions', 'AddKey(%s, size %d)' % (st, s), keyczart.AddKey, loc, st, cobj(), s)
  for s in rng.sample(('', 'x', '1e3', '128.0', '12 8', '0x80', '1_0_', 'None'), 3):
    w.tool('size-text', ['addkey', L, '--status=primary', '--size=' + s] + C)
  for s in rng.sample(('', 'x', 'primar', 'active ', 'revoked', 'scheduled_for_revocation', '0', 'None', 'PRIMARY,ACTIVE'), 4):
    w.tool('status', ['addkey', L, '--status=' + s] + C)
  w.tool('location-missing', ['addkey', '--status=primary'])
  w.tool('location-missing', ['addkey', '--status=primary', '--location'])
  for why, p in (('location-absent', w.path('nowhere')), ('location-absent', w.path('empty/x')), ('location-absent', ''),
                 ('location-file', w.path('file')), ('location-empty', w.path('empty')), ('location-absent', w.path('file/x'))):
    n = rng.choice(sorted(w.model.v) or [1])
    w.tool(why, ['addkey', '--location=' + p, '--status=primary'])
    for c in ('promote', 'demote', 'revoke'):
      w.tool(why, [c, '--location=' + p, '--version=%d' % n])
    w.tool(why, ['pubkey', '--location=' + p, '--destination=' + w.path('empty')])
    w.call(why, 'functions', 'AddKey', keyczart.AddKey, p, keyinfo.PRIMARY)
    w.call(why, 'functions', 'Promote', keyczart.Promote, p, n)
    w.call(why, 'classes', 'GenericKeyczar.Read', kz.GenericKeyczar.Read, p)
  # crypters
  bad = [('crypter-absent', w.path('nowhere')), ('crypter-absent', w.path('empty')), ('crypter-purpose', w.path('hmac')),
         ('crypter-public', w.path('public'))]
  if w.model.v:
    bad.append(('crypter-wrong', w.path('other')))
    if not w.crypter:
      bad.append(('crypter-wrong', w.path('crypter')))     # the keys are not encrypted
  if not w.model.v or not w.crypter:
    bad.append(('crypter-noprimary', w.path('noprimary')))
  for why, p in bad:
    w.tool(why, ['addkey', L, '--status=primary', '--crypter=' + p])
    if why in ('crypter-wrong', 'crypter-noprimary'):
      w.call(why, 'functions', 'AddKey', lambda: keyczart.AddKey(loc, keyinfo.PRIMARY, kz.Crypter.Read(p)))
  if w.crypter:
    w.tool('crypter-none', ['addkey', L, '--status=primary'])
    n = rng.choice(sorted(w.model.v) or [1])
    for c in ('promote', 'demote', 'revoke'):
      w.tool('crypter-none', [c, L, '--version=%d' % n])
    w.tool('crypter-none', ['pubkey', L, '--destination=' + w.path('empty')])
    w.call('crypter-none', 'classes', 'GenericKeyczar.Read', kz.GenericKeyczar.Read, loc)
  # versions
  hi = max(w.model.v) + 1 if w.model.v else 1
  absent = [n for n in (0, 1, 2, hi, hi + 1, 99, 2 ** 31, 2 ** 63) if n not in w.model.v]
  for c in ('promote', 'demote', 'revoke'):
    fn = {'promote': keyczart.Promote, 'demote': keyczart.Demote, 'revoke': keyczart.Revoke}[c]
    for n in rng.sample(absent, 3):
      w.tool('version', [c, L, '--version=%d' % n])
      w.call('version', 'functions', '%s %d' % (c, n), fn, loc, n)
    w.tool('version-missing', [c, L])
    w.tool('version-missing', [c, L, '--version'])
    for n in (-1, -5):
      w.tool('version-missing', [c, L, '--version=%d' % n])
      w.call('version-missing', 'functions', '%s %d' % (c, n), fn, loc, n)
    for n in rng.sample(('', 'x', '1.0', 'one', 'meta', '../1', '1,2'), 3):
      w.tool('version-text', [c, L, '--version=' + n])
    w.tool('location-missing', [c, '--version=%d' % rng.choice(sorted(w.model.v) or [1])])
    for n in w.model.v:
      try:
        w.model.copy().apply((c, n))
      except life.Refused:
        w.tool('version-status', [c, L, '--version=%d' % n])
        w.call('version-status', 'functions', '%s %d' % (c, n), fn, loc, n)
  # public keys
  dest = '--destination=' + w.path('empty')
  if kind in ('aes', 'hmac'):
    w.tool('not-asymmetric', ['pubkey', L, dest])
    w.call('not-asymmetric', 'functions', 'PubKey', keyczart.PubKey, loc, w.path('empty'))
  w.tool('destination-missing', ['pubkey', L])
  w.tool('destination-missing', ['pubkey', L, '--destination'])
  w.tool('location-missing', ['pubkey', dest])
  w.tool('destination-absent', ['pubkey', L, '--destination=' + w.path('nowhere')])
  w.tool('destination-absent', ['pubkey', L, '--destination=' + w.path('empty/x/y')])
  w.tool('destination-file', ['pubkey', L, '--destination=' + w.path('file')])
  if kind not in ('aes', 'hmac') and w.ks.versions:
    p = w.path('pub')
    w.ks.public().write(p)
    w.tool('public-set', ['addkey', '--location=' + p, '--status=primary'])
    w.tool('public-set', ['addkey', '--location=' + p, '--size=%d' % GOOD[kind][0]])
    w.tool('public-set', ['pubkey', '--location=' + p, dest])
    w.call('public-set', 'functions', 'AddKey', keyczart.AddKey, p, keyinfo.ACTIVE)
  # the tool itself
  for c in rng.sample(('', 'bogus', 'Create', 'CREATE', 'addkeys', '--location=' + loc, 'import', 'delete'), 3):
    w.tool('unknown-command', [c, L, '--version=1', '--purpose=sign', '--status=primary'])
  for f in rng.sample(('bogus=1', 'Location=' + loc, 'versions=1', 'crypters=x', '=x', 'force=1'), 3):
    for c in (['addkey', L, '--status=primary'], ['promote', L, '--version=1'], ['create', '--location=' + w.path('empty'), '--purpose=sign']):
      w.tool('unknown-flag', c + ['--' + f] + (C if c[0] == 'addkey' else []))


def _create(mon, rng, w):
  asym = rng.choice(([], ['--asymmetric=rsa'], ['--asymmetric=dsa']))
  for p in ('crypt', 'sign'):
    w.tool('exists', ['create', '--location=' + w.loc, '--purpose=' + p, '--name=other'] + asym)
    w.tool('location-absent', ['create', '--location=' + w.path('nowhere'), '--purpose=' + p] + asym)
    w.tool('location-absent', ['create', '--location=' + w.path('empty/a/b'), '--purpose=' + p] + asym)
    w.tool('location-file', ['create', '--location=' + w.path('file'), '--purpose=' + p] + asym)
    w.tool('location-missing', ['create', '--purpose=' + p] + asym)
  for purpose in (keyinfo.SIGN_AND_VERIFY, keyinfo.DECRYPT_AND_ENCRYPT):
    w.call('exists', 'functions', 'Create', keyczart.Create, w.loc, 'other', purpose, rng.choice((None, 'rsa', 'dsa')))
  # any metadata is protected, whatever it holds
  d = w.path('strange')
  os.mkdir(d)
  with open(os.path.join(d, 'meta'), 'w') as f:
    f.write(rng.choice(('', '{}', 'garbage', 'x' * 5000)))
  w.tool('exists', ['create', '--location=' + d, '--purpose=crypt'])
  for p in rng.sample(('', 'x', 'encrypt', 'verify', 'sign_and_verify', 'test', 'Sign', 'crypt '), 3) + [None]:
    w.tool('purpose', ['create', '--location=' + w.path('empty')] + (['--purpose=' + p] if p is not None else []) + asym)
  for p in (None, keyinfo.ENCRYPT, keyinfo.VERIFY):
    w.call('purpose', 'functions', 'Create(%s)' % p, keyczart.Create, w.path('empty'), 'n', p, rng.choice((None, 'rsa', 'dsa')))
  # the writer
  meta = kz.GenericKeyczar(ref.MemReader(gen.keyset({'keys': ['hmac:9']}))).metadata
  wr = writers.CreateWriter(w.loc)
  w.call('exists', 'classes', 'WriteMetadata(overwrite=False)', wr.WriteMetadata, meta, False)


def _damaged(mon, rng, w, case):
  """A key set that cannot be read is left as it is."""
  if not w.model.v or w.crypter:
    return
  for why in ('missing-key', 'several-primaries'):
    p = w.path(why)
    ks, _ = life.start(case['spec'], p)
    if why == 'missing-key':
      os.remove(os.path.join(p, str(rng.choice(ks.versions).number)))
    else:
      if len(ks.versions) < 2:
        continue
      for v in rng.sample(ks.versions, 2):
        v.status = 'PRIMARY'
      for v in ks.versions:
        if v.status == 'INACTIVE':
          v.status = 'ACTIVE'
      ks.write(p)
    n = rng.choice(sorted(v.number for v in ks.versions))
    w.tool(why, ['addkey', '--location=' + p, '--status=primary'])
    for c in ('promote', 'demote', 'revoke'):
      w.tool(why, [c, '--location=' + p, '--version=%d' % n])
    w.tool(why, ['pubkey', '--location=' + p, '--destination=' + w.path('empty')])
  # an encrypted key damaged
  p = w.path('damaged')
  ks, _ = life.start(case['spec'], p)
  ks.encrypted = True
  pk = w.ck.primary.key
  ks.write(p, lambda t: ref.b64(pk.encrypt(t.encode(), gen.stream('iv%s' % t[-9:], 16))))
  f = os.path.join(p, str(rng.choice(ks.versions).number))
  with open(f) as h:
    raw = ref.unb64(h.read())
  with open(f, 'w') as h:
    h.write(ref.b64(kit.flip(raw, rng.randrange(len(raw)), 1 << rng.randrange(8))))
  w.tool('damaged-key', ['addkey', '--location=' + p, '--status=primary', '--crypter=' + w.path('crypter')])
  w.call('damaged-key', 'classes', 'GenericKeyczar',
         lambda: kz.GenericKeyczar(readers.EncryptedReader(readers.CreateReader(p), kz.Crypter.Read(w.path('crypter')))))


def state(g):
  m = json.loads(str(g))
  p = g.primary_version
  return (m, sorted((v.version_number, str(v.status), str(v.exportable), json.dumps(json.loads(str(g.GetKey(v))), sort_keys=True))
                    for v in g.versions), p and p.version_number)


def _memory(mon, rng, w):
  """Refusals by the object itself, between commands that work."""
  model = w.model.copy()
  r = readers.CreateReader(w.loc)
  if w.crypter:
    r = readers.EncryptedReader(r, kz.Crypter.Read(w.crypter))
  g = mon.must('reading the key set', kz.GenericKeyczar, r)
  size = GOOD[w.kind][0]
  for _ in range(6):
    ways = []
    for s in bad_sizes(rng, w.kind):
      for st in (keyinfo.PRIMARY, keyinfo.ACTIVE):
        ways.append(('size', 'AddVersion(%s, %d)' % (st, s), lambda st=st, s=s: g.AddVersion(st, s)))
    for c in ('promote', 'demote', 'revoke'):
      for n in [0, -1, 99, 2 ** 40] + sorted(model.v):
        try:
          model.copy().apply((c, n))
        except life.Refused:
          ways.append(('version-status' if n in model.v else 'version', '%s %d' % (c, n),
                       lambda c=c, n=n: life.in_memory(g, (c, n))))
    if w.kind in ('aes', 'hmac'):
      ways.append(('not-asymmetric', 'PublicKeyExport', lambda: g.PublicKeyExport(w.path('empty'))))
    elif model.v:
      ways.append(('destination-absent', 'PublicKeyExport', lambda: g.PublicKeyExport(w.path('nowhere'))))
    rng.shuffle(ways)
    before = state(g)
    for why, what, fn in ways[:12]:
      w.call(why, 'memory', what, fn)
      after = state(g)
      mon.check(after == before, lambda: '%s was refused (%s) but the key set in memory changed from %s to %s' % (
          what, why, before[0]['versions'], after[0]['versions']))
    # writing with an encrypter that cannot encrypt, or to nowhere
    if model.v:
      bad = kz.Encrypter.Read(w.path('noprimary'))
      wr = writers.CreateWriter(w.loc)
      w.call('crypter-noprimary', 'memory', 'Write', g.Write, wr, bad)
      w.call('location-absent', 'memory', 'Write', g.Write, w.path('nowhere'))
      mon.check(state(g)[1:] == before[1:], 'a refused Write changed the key set in memory')
    # and it still works
    cmd = life.random_command(rng, model, 1)
    while w.kind not in ('aes', 'hmac') and cmd[0] == 'add' and model.v:
      cmd = (rng.choice(('promote', 'demote')), rng.choice(sorted(model.v)))
      try:
        model.copy().apply(cmd)
      except life.Refused:
        cmd = ('add', 'ACTIVE')
        if w.kind == 'dsa' or rng.random() < .3:
          break
    o = mon.call(life.in_memory, g, cmd, size)
    mon.check(o.ok, lambda: 'after refusals, %s does not work: %r' % (cmd, o), traceback=o.tb)
    model.apply(cmd)
    m = json.loads(str(g))
    mon.check(dict((v['versionNumber'], v['status']) for v in m['versions']) == model.v,
              lambda: 'after refusals, %s leads to %s' % (cmd, m['versions']))
    p = g.primary_version
    mon.check((p and p.version_number) == model.primary, 'the primary version is wrong after refusals')
    mon.event('usable-after')
  if w.kind in ('rsa-crypt', 'rsa-sign'):
    _small(mon, rng, w, g)


def _small(mon, rng, w, g):
  """RSA keys of 512 or 768 bits: whether they can be made depends on the library, but a refusal is a refusal."""
  for s in (512, 768):
    before, files = state(g), life.snapshot(w.root)
    o = mon.call(g.AddVersion, keyinfo.PRIMARY, s)
    if not o.ok:
      mon.check(kit.refused(o), lambda: 'AddVersion(PRIMARY, %d): %r' % (s, o))
      mon.check(state(g) == before, lambda: 'AddVersion(PRIMARY, %d) was refused but the key set in memory changed from %s to %s' % (
          s, before, state(g)))
      mon.event('small-refused')
    args = ['addkey', '--location=' + w.loc, '--status=primary', '--size=%d' % s] + (['--crypter=' + w.crypter] if w.crypter else [])
    o = life.tool(mon, args)
    if not o.ok:
      mon.check(kit.refused(o), lambda: 'addkey --size=%d: %r' % (s, o))
      mon.check(life.snapshot(w.root) == files, 'addkey --size=%d was refused but changed files' % s)
