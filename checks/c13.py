"""C13: key sets survive storage; encrypted key sets need their key."""
import os
import random

from kzmon import gen, kit, life, ref
from kzmon.env import B, S, errors, keyczart, keyinfo, kz, readers, util, writers

ID = 'C13'
LEVEL = 'exploration'
RULE = ('a stored key set whose files were parsed by the reference and compared with what was written, or a refusal to read '
        'it: distinct by type, statuses, key sizes, name, storage mode, crypter and history of rewrites')
REQUIRED = ('write:plain', 'write:encrypted', 'rewrite:plain>encrypted', 'rewrite:encrypted>plain',
            'rewrite:encrypted>encrypted', 'rewrite:plain>plain', 'via:writer', 'via:string', 'via:tool', 'name:odd',
            'no-crypter', 'wrong-crypter', 'damaged', 'scanned-files', 'recrypted', 'use:encrypted', 'scan-control',
            'type:aes', 'type:hmac', 'type:rsa-crypt', 'type:rsa-sign', 'type:dsa', 'read-plain-as-encrypted')
ASSUMPTIONS = ('metadata is not encrypted or authenticated, by design',)

KINDS = ('aes', 'hmac', 'rsa-crypt', 'rsa-sign', 'dsa')
NAMES = ('Test', '', ' ', 'a "quoted" name', 'back\\slash', 'line\nbreak\ttab\r', '\u20ac\u00fc\u4e2d', '\U0001f511',
         'nul\0', 'x' * 3000, '{"name": 1}', '/', '\ud800', '\x7f\x80\xff', '%s %d', "';--")
READERS = {'DECRYPT_AND_ENCRYPT': (kz.Crypter, kz.Encrypter, kz.GenericKeyczar),
           'SIGN_AND_VERIFY': (kz.Signer, kz.Verifier, kz.UnversionedSigner, kz.UnversionedVerifier, kz.GenericKeyczar)}


def cases(rng, tier):
  for i in range(50 if tier == 'quick' else 600):
    for kind in KINDS:
      if kind in ('aes', 'hmac') or i % 3 == 0:
        spec = life.start_spec(rng, kind, rng.choice((0, 1, 1, 2, 3, 6)))
        if kind.startswith('rsa') and spec['keys']:
          spec['keys'] = [rng.choice((k, 'rsa%d:%d' % (rng.choice((512, 768, 2048, 4096)), j)))
                          for j, k in enumerate(spec['keys'])]
        spec['name'] = NAMES[i % len(NAMES)]
        yield {'k': 'history', 'kind': kind, 'spec': spec, 'salt': rng.randrange(1 << 30),
               'steps': [rng.choice(('plain', 'enc0', 'enc1')) for _ in range(rng.choice((1, 3, 5)))]}
  for i, n in enumerate((17, 34, 66, 130)):
    for kind in KINDS:
      if kind in ('aes', 'hmac') or n == 34:
        yield {'k': 'history', 'kind': kind, 'spec': life.start_spec(rng, kind, n), 'salt': rng.randrange(1 << 30),
               'steps': ['plain', 'enc0', 'plain', 'enc1'][:2 + i % 3]}
  for i in range(30 if tier == 'quick' else 300):
    yield {'k': 'tool', 'kind': ('aes', 'hmac')[i % 2], 'salt': rng.randrange(1 << 30), 'adds': rng.choice((1, 2, 4))}


class CrypterSet(object):
  """A key set that encrypts other key sets."""

  def __init__(self, mon, rng, salt):
    self.ks = gen.keyset({'keys': ['aes%d:%d' % (rng.choice((128, 192, 256)), salt * 10 + i) for i in range(3)],
                          'status': rng.choice(('PAI', 'APA', 'IAP'))})
    self.loc = self.ks.write(mon.tmpdir())
    self.crypter = mon.must('Crypter.Read', kz.Crypter.Read, self.loc)
    self.byid = dict((v.key.id, v.key) for v in self.ks.versions)

  def decrypt(self, text):
    raw = ref.unb64(text)
    return self.byid[raw[1:5]].decrypt(raw)[0].decode()

  def encrypt(self, text, salt):
    return ref.b64(self.ks.primary.key.encrypt(text.encode(), gen.stream('iv%s' % salt, 16)))


def content(ks):
  return (ks.name, ks.purpose, ks.type,
          sorted((v.number, v.status, v.exportable, life.key_id(v.key)) for v in ks.versions))


def judge(mon, loc, want, cs, what):
  """The files at loc are exactly the key set want, encrypted by cs if given."""
  try:
    got = ref.read_keyset(loc, cs.decrypt if cs else None)
  except (OSError, ref.FormatError, ValueError, KeyError) as e:
    mon.violate('%s: the files cannot be read: %s: %s' % (what, type(e).__name__, e), files=sorted(os.listdir(loc)))
  mon.check(got.encrypted is (cs is not None), lambda: '%s: the encrypted flag is %r' % (what, got.encrypted))
  mon.check(content(got) == content(want), lambda: '%s: what was stored is not what was written' % what,
            wrote=lambda: repr(content(want))[:2000], stored=lambda: repr(content(got))[:2000])
  if cs:
    scan(mon, loc, want, what)


def scan(mon, loc, want, what):
  secrets = [s for v in want.versions for s in v.key.secrets()]
  if want.versions:
    # positive control: the scan finds the secrets in the plain key files
    import json
    for v in want.versions:
      if kit.leaks(json.dumps(want.key_json(v)).encode(), v.key.secrets()):
        mon.event('scan-control')
      else:
        raise RuntimeError('the secret scan does not work')
  for n, blob in life.snapshot(loc).items():
    if isinstance(blob, bytes):
      found = kit.leaks(blob, secrets)
      mon.check(not found, lambda: '%s: file %s of an encrypted key set contains key material (%s)' % (what, n, found))
      if n.isdigit():
        for word in (b'hmacKeyString', b'aesKeyString', b'modulus', b'primeP', b'"size"', b'publicKey'):
          mon.check(word not in blob, '%s: key file %s is not encrypted' % (what, n))
      mon.event('scanned-files')


def memory(mon, loc, want, cs, how):
  """The key set as keyczar reads it back."""
  r = readers.CreateReader(loc)
  if cs:
    r = readers.EncryptedReader(r, cs.crypter)
  g = mon.must('reading back (%s)' % how, kz.GenericKeyczar, r)
  import json
  m = json.loads(str(g))
  vs = []
  for v in g.versions:
    k = ref.CLASSES[want.type].parse(json.loads(str(g.GetKey(v))))
    vs.append((v.version_number, str(v.status), v.exportable, life.key_id(k)))
  mon.check((m['name'], m['purpose'], m['type'], sorted(vs)) == content(want),
            lambda: 'what is read back differs from what was written (%s)' % how)
  return g


def use(mon, rng, loc, want, cs):
  """Works with its key, and only with it."""
  cls = rng.choice(READERS[want.purpose])
  o = mon.call(cls, readers.CreateReader(loc))
  mon.check(kit.refused(o), lambda: '%s opens an encrypted key set without a crypter: %r' % (cls.__name__, o),
            traceback=o.tb)
  o = mon.call(cls.Read, loc)
  mon.check(kit.refused(o), lambda: '%s.Read opens an encrypted key set without a crypter: %r' % (cls.__name__, o))
  mon.event('no-crypter')
  r = readers.EncryptedReader(readers.CreateReader(loc), cs.crypter)
  c = mon.must('%s with the right crypter' % cls.__name__, cls, r)
  if cls in (kz.Crypter, kz.Signer) and want.primary:
    if cls is kz.Crypter:
      o = mon.call(lambda: c.Decrypt(c.Encrypt('some data')))
      mon.check(o.ok and o.value == 'some data', lambda: 'an encrypted key set does not work: %r' % o)
    else:
      o = mon.call(lambda: c.Verify('some data', c.Sign('some data')))
      mon.check(o.ok and o.value, lambda: 'an encrypted key set does not work: %r' % o)
    mon.event('use:encrypted')


def attack(mon, rng, loc, want, cs, other):
  if not want.versions:
    return
  cls = rng.choice(READERS[want.purpose])
  o = mon.call(lambda: cls(readers.EncryptedReader(readers.CreateReader(loc), other.crypter)))
  mon.check(kit.refused(o), lambda: 'a wrong crypter is not refused with a KeyczarError: %r' % o, traceback=o.tb)
  mon.event('wrong-crypter')
  v = rng.choice(want.versions)
  path = os.path.join(loc, str(v.number))
  with open(path) as f:
    text = f.read()
  raw = ref.unb64(text)
  bad = []
  for _ in range(6):
    i = rng.randrange(len(raw))
    bad.append(ref.b64(kit.flip(raw, i, rng.randrange(1, 256))))
  bad.append(ref.b64(raw[:-1]))
  bad.append(ref.b64(raw[:rng.randrange(len(raw))]))
  bad.append(ref.b64(raw + b'x'))
  bad.append('')
  bad.append(text[:(len(text) - 1) // 4 * 4 + 1])
  import json
  bad.append(json.dumps(want.key_json(v)))     # the key in plain
  for t in bad:
    with open(path, 'w') as f:
      f.write(t)
    o = mon.call(lambda: cls(readers.EncryptedReader(readers.CreateReader(loc), cs.crypter)))
    mon.check(kit.refused(o), lambda: 'a damaged encrypted key file is not refused with a KeyczarError: %r' % o,
              traceback=o.tb, file=t)
    mon.event('damaged')
  with open(path, 'w') as f:
    f.write(text)


def _history(mon, case):
  rng = random.Random(case['salt'])
  kind = case['kind']
  mon.event('type:' + kind)
  loc = mon.tmpdir()
  want, model = life.start(case['spec'], loc)
  for v in want.versions:
    v.exportable = rng.random() < .5
  want.write(loc)
  if case['spec']['name'] != 'Test':
    mon.event('name:odd')
  sets = [CrypterSet(mon, rng, case['salt'] % 100000 + i) for i in range(2)]
  cs = None
  for i, step in enumerate(case['steps']):
    r = readers.CreateReader(loc)
    if cs:
      r = readers.EncryptedReader(r, cs.crypter)
    g = mon.must('reading the key set', kz.GenericKeyczar, r)
    new = None if step == 'plain' else sets[int(step[3])]
    dest = loc if rng.random() < .6 else mon.tmpdir()
    how = rng.choice(('writer', 'string'))
    enc = new.crypter if new else None
    if new and rng.random() < .3:
      enc = kz.Encrypter.Read(new.loc)
    if how == 'writer':
      w = writers.CreateWriter(dest)
      mon.must('Write', g.Write, w, enc)
      w.Close()
    else:
      mon.must('Write', g.Write, dest, enc)
    mon.event('via:' + how)
    mon.event('write:%s' % ('encrypted' if new else 'plain'))
    if dest == loc:
      mon.event('rewrite:%s>%s' % ('encrypted' if cs else 'plain', 'encrypted' if new else 'plain'))
      if cs and new and cs is not new:
        mon.event('recrypted')
    judge(mon, dest, want, new, 'step %d (%s)' % (i, step))
    # the object that was written is unharmed
    if rng.random() < .5:
      d2 = mon.tmpdir()
      mon.must('Write', g.Write, writers.CreateWriter(d2))
      judge(mon, d2, want, None, 'a second write of the same object')
    loc, cs = dest, new
    memory(mon, loc, want, cs, step)
    if cs:
      use(mon, rng, loc, want, cs)
      attack(mon, rng, loc, want, cs, sets[1 - sets.index(cs)])
    elif want.versions:
      o = mon.call(lambda: kz.GenericKeyczar(readers.EncryptedReader(readers.CreateReader(loc), sets[0].crypter)))
      mon.check(kit.refused(o), lambda: 'a plain key set read as encrypted: %r' % o, traceback=o.tb)
      mon.event('read-plain-as-encrypted')
    mon.distinct(case['spec'], case['steps'][:i + 1])


def _tool(mon, case):
  rng = random.Random(case['salt'])
  cs = CrypterSet(mon, rng, case['salt'] % 100000)
  loc = mon.tmpdir()
  kind = case['kind']
  name = rng.choice([n for n in NAMES if '\ud800' not in n and '\0' not in n])
  o = life.tool(mon, ['create', '--location=' + loc, '--name=' + name,
                      '--purpose=' + ('crypt' if kind == 'aes' else 'sign')])
  mon.check(o.ok, lambda: 'create: %r' % o)
  ids = {}
  model = life.Model()
  for i in range(case['adds']):
    cmd = ('add', rng.choice((life.P, life.A)))
    o = life.tool(mon, life.argv(cmd, loc, crypter=cs.loc))
    mon.check(o.ok, lambda: 'addkey with a crypter: %r' % o, traceback=o.tb)
    model.apply(cmd)
    ks = ref.read_keyset(loc, cs.decrypt)
    mon.check(ks.encrypted is True, 'addkey with a crypter does not mark the key set as encrypted')
    mon.check(ks.name == name, lambda: 'the name became %r' % ks.name)
    mon.check(dict((v.number, v.status) for v in ks.versions) == model.v, 'statuses after addkey with a crypter')
    for v in ks.versions:
      k = life.key_id(v.key)
      mon.check(ids.setdefault(v.number, k) == k, lambda: 'version %d changed' % v.number)
    scan(mon, loc, ks, 'addkey --crypter')
    use(mon, rng, loc, ks, cs)
    mon.event('via:tool')
    mon.distinct('tool', case['salt'], i)
  # without its crypter nothing can be changed
  snap = life.snapshot(loc)
  other = CrypterSet(mon, rng, case['salt'] % 100000 + 7)
  for args in (life.argv(('add', life.P), loc), life.argv(('add', life.P), loc, crypter=other.loc)):
    o = life.tool(mon, args)
    mon.check(kit.refused(o), lambda: '%s on an encrypted key set: %r' % (args[2:], o))
    mon.check(life.snapshot(loc) == snap, 'a refused addkey changed an encrypted key set')
  attack(mon, rng, loc, ks, cs, other)


def run(mon, case):
  (_tool if case['k'] == 'tool' else _history)(mon, case)
