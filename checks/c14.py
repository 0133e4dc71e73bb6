"""C14: public key export is complete, usable and reveals nothing private."""
import json
import os
import random

from kzmon import gen, kit, life, ref
from kzmon.env import B, S, errors, keyczart, kz, readers, writers

ID = 'C14'
LEVEL = 'exploration'
RULE = ('an export of a key set that was parsed, used and scanned, or an export that had to be refused: distinct by key '
        'type, purpose, versions, statuses, keys and way of exporting')
REQUIRED = ('via:tool', 'via:function', 'via:class', 'type:rsa-crypt', 'type:rsa-sign', 'type:dsa', 'refused:aes',
            'refused:hmac', 'refused:public', 'used:encrypt', 'used:verify', 'used:attached', 'used:unversioned',
            'scanned-files', 'encrypted-source', 'no-primary', 'scan-control', 'after-history', 'same-location')
ASSUMPTIONS = ('the destination exists, as the tool requires',)

KINDS = ('rsa-crypt', 'rsa-sign', 'dsa')


def cases(rng, tier):
  for i in range(24 if tier == 'quick' else 400):
    for kind in KINDS:
      spec = life.start_spec(rng, kind, 1 + i % 8)
      if kind.startswith('rsa') and i % 3 == 0:
        spec['keys'] = [rng.choice((k, k, 'rsa%d:%d' % (rng.choice((512, 768, 2048, 4096)), j)))
                        for j, k in enumerate(spec['keys'])]
        if kind == 'rsa-crypt':   # 512 bits leave room for 22 bytes, still enough
          pass
      yield {'k': 'export', 'kind': kind, 'spec': spec, 'salt': rng.randrange(1 << 30),
             'how': ('tool', 'function', 'class')[i % 3], 'enc': i % 4 == 3}
  for i, kind in enumerate(KINDS):
    yield {'k': 'export', 'kind': kind, 'spec': life.start_spec(rng, kind, 34), 'salt': rng.randrange(1 << 30),
           'how': ('tool', 'function', 'class')[i % 3], 'enc': False}
  for i in range(6 if tier == 'quick' else 60):
    for kind in ('aes', 'hmac'):
      yield {'k': 'refuse', 'kind': kind, 'spec': life.start_spec(rng, kind, rng.choice((0, 1, 3))),
             'salt': rng.randrange(1 << 30)}
    for kind in KINDS:
      yield {'k': 'refuse', 'kind': kind, 'public': True, 'spec': life.start_spec(rng, kind, rng.choice((1, 3))),
             'salt': rng.randrange(1 << 30)}
  for i in range(3 if tier == 'quick' else 30):
    for kind in KINDS:
      yield {'k': 'same', 'kind': kind, 'spec': life.start_spec(rng, kind, rng.choice((1, 3))),
             'salt': rng.randrange(1 << 30)}
  for i in range(3 if tier == 'quick' else 40):
    for kind in KINDS:
      yield {'k': 'history', 'kind': kind, 'spec': life.start_spec(rng, kind, 3), 'salt': rng.randrange(1 << 30)}


FIELDS = {'RSA_PRIV': set(('modulus', 'publicExponent', 'size')), 'DSA_PRIV': set(('p', 'q', 'g', 'y', 'size'))}


def judge(mon, ks, dest):
  """dest holds exactly the public half of ks."""
  files = life.snapshot(dest)
  want = set(['meta'] + [str(v.number) for v in ks.versions])
  mon.check(set(files) == want, lambda: 'the export consists of %s, must be %s' % (sorted(files), sorted(want)))
  m = json.loads(files['meta'])
  pub = ks.public()
  mon.check((m['name'], m['purpose'], m['type'], m['encrypted']) == (ks.name, pub.purpose, pub.type, False),
            lambda: 'metadata of the export: %s' % m)
  got = sorted((v['versionNumber'], v['status'], v['exportable']) for v in m['versions'])
  mon.check(got == sorted((v.number, v.status, v.exportable) for v in ks.versions),
            lambda: 'versions of the export are %s' % got)
  for v in ks.versions:
    j = json.loads(files[str(v.number)])
    mon.check(set(j) == FIELDS[ks.type], lambda: 'an exported key has the fields %s' % sorted(j))
    mon.check(j['size'] == v.key.size, lambda: 'exported size %r' % j['size'])
    if ks.type == 'RSA_PRIV':
      mon.check(ref.RsaK.parse_pub(j) == (v.key.n, v.key.e), lambda: 'version %d was exported with another key' % v.number)
    else:
      mon.check(ref.DsaK.parse_pub(j) == ref.DsaK.parse_pub(v.key.pub_json()),
                lambda: 'version %d was exported with another key' % v.number)
  secrets = [s for v in ks.versions for s in v.key.secrets()]
  for n, blob in files.items():
    found = kit.leaks(blob, secrets)
    mon.check(not found, lambda: 'exported file %s contains private key material (%s)' % (n, found))
    mon.event('scanned-files')
  for v in ks.versions:
    if not kit.leaks(json.dumps(ks.key_json(v)).encode(), v.key.secrets()):
      raise RuntimeError('the secret scan does not work')
    mon.event('scan-control')


def usable(mon, rng, ks, dest):
  """Every version of the exported key set works with the private one."""
  priv = ref.MemReader(ks)
  if ks.purpose == 'DECRYPT_AND_ENCRYPT':
    crypter = mon.must('Crypter', kz.Crypter, priv)
    for cls in (kz.Crypter, kz.Signer, kz.Verifier):
      o = mon.call(cls.Read, dest)
      mon.check(kit.refused(o), lambda: '%s opens an exported encryption key set: %r' % (cls.__name__, o))
    e = mon.must('Encrypter.Read of the export', kz.Encrypter.Read, dest)
    data = gen.message(gen.msg(rng, maxlen=20))
    o = mon.call(e.Encrypt, S(data))
    if ks.primary is None:
      mon.check(kit.refused(o), lambda: 'an exported key set without primary encrypts: %r' % o)
      mon.event('no-primary')
    else:
      mon.check(o.ok, lambda: 'Encrypt with the export: %r' % o)
      d = mon.call(crypter.Decrypt, o.value)
      mon.check(d.ok and d.value == S(data), lambda: 'the private key set cannot decrypt: %r' % d)
      mon.check(ref.unb64(o.value)[1:5] == ks.primary.key.id, 'the export encrypts with another identifier')
      mon.event('used:encrypt')
    # each version in turn as primary
    meta = os.path.join(dest, 'meta')
    with open(meta) as f:
      text = f.read()
    for v in ks.versions:
      m = json.loads(text)
      for x in m['versions']:
        x['status'] = 'PRIMARY' if x['versionNumber'] == v.number else 'ACTIVE'
      with open(meta, 'w') as f:
        json.dump(m, f)
      ct = mon.must('Encrypt with version %d' % v.number, lambda: kz.Encrypter.Read(dest).Encrypt(S(data)))
      mon.check(ref.unb64(ct)[1:5] == v.key.id, lambda: 'exported version %d has another identifier' % v.number)
      d = mon.call(crypter.Decrypt, ct)
      mon.check(d.ok and d.value == S(data), lambda: 'version %d cannot decrypt what its export encrypted: %r' % (v.number, d))
    with open(meta, 'w') as f:
      f.write(text)
    return
  for cls in (kz.Signer, kz.UnversionedSigner, kz.Encrypter, kz.Crypter):
    o = mon.call(cls.Read, dest)
    mon.check(kit.refused(o), lambda: '%s opens an exported verification key set: %r' % (cls.__name__, o))
  ver = mon.must('Verifier.Read of the export', kz.Verifier.Read, dest)
  unv = mon.must('UnversionedVerifier.Read of the export', kz.UnversionedVerifier.Read, dest)
  for v in ks.versions:
    one = ref.KeySet(ks.purpose, ks.type, [ref.Version(v.number, 'PRIMARY', v.key)])
    s = mon.must('Signer', kz.Signer, ref.MemReader(one))
    data = gen.message(gen.msg(rng, maxlen=80))
    o = mon.call(lambda: ver.Verify(S(data), s.Sign(S(data))))
    mon.check(o.ok and o.value, lambda: 'the export does not verify a signature of version %d (%s): %r' % (v.number, v.status, o))
    mon.event('used:verify')
    o = mon.call(lambda: ver.AttachedVerify(s.AttachedSign(S(data), 'nonce'), 'nonce'))
    mon.check(o.ok and o.value == S(data), lambda: 'the export does not verify an attached signature of version %d: %r' % (v.number, o))
    mon.event('used:attached')
    u = mon.must('UnversionedSigner', kz.UnversionedSigner, ref.MemReader(one))
    o = mon.call(lambda: unv.Verify(S(data), u.Sign(S(data))))
    mon.check(o.ok and o.value, lambda: 'the export does not verify an unversioned signature of version %d: %r' % (v.number, o))
    mon.event('used:unversioned')
    o = mon.call(lambda: ver.Verify(S(data + b'x'), s.Sign(S(data))))
    mon.check(kit.rejected(o), 'the export verifies a wrong signature')


def export(mon, how, loc, dest, cs=None):
  if how == 'tool':
    return life.tool(mon, ['pubkey', '--location=' + loc, '--destination=' + dest])
  if how == 'function':
    return mon.call(keyczart.PubKey, loc, dest)

  def classes():
    r = readers.CreateReader(loc)
    if cs:
      r = readers.EncryptedReader(r, cs)
    g = kz.GenericKeyczar(r)
    before = str(g)
    g.PublicKeyExport(dest)
    if json.loads(str(g)) != json.loads(before):
      mon.violate('exporting changed the key set in memory')
    # the object still is the private key set
    d = mon.tmpdir()
    g.Write(writers.CreateWriter(d))
    return d
  return mon.call(classes)


def content(ks):
  return (ks.name, ks.purpose, ks.type, sorted((v.number, v.status, v.exportable, life.key_id(v.key)) for v in ks.versions))


def _export(mon, case):
  rng = random.Random(case['salt'])
  loc, dest = mon.tmpdir(), mon.tmpdir()
  ks, _ = life.start(case['spec'], loc)
  for v in ks.versions:
    v.exportable = rng.random() < .3
  rng.shuffle(ks.versions)
  ks.write(loc)
  how, cs = case['how'], None
  if case['enc']:
    ck = gen.keyset({'keys': gen.aes_keys(rng)})
    cs = kz.Crypter(ref.MemReader(ck))
    ks.encrypted = True
    ks.write(loc, lambda t: ref.b64(ck.primary.key.encrypt(t.encode(), gen.stream(t[-8:], 16))))
    ks.encrypted = False    # from here on, ks is the content
    if how != 'class':
      snap = life.snapshot(loc)
      o = export(mon, how, loc, dest)
      mon.check(kit.refused(o), lambda: 'export of an encrypted key set without a crypter: %r' % o)
      mon.check(life.snapshot(dest) == {} and life.snapshot(loc) == snap, 'a refused export changed files')
      how = 'class'
    mon.event('encrypted-source')
  snap = life.snapshot(loc)
  o = export(mon, how, loc, dest, cs)
  mon.check(o.ok, lambda: 'the export (%s) failed: %r' % (how, o), traceback=o.tb)
  mon.check(life.snapshot(loc) == snap, lambda: 'the export changed the source: %s' % life.diff(life.snapshot(loc), snap))
  if how == 'class':
    mon.check(content(ref.read_keyset(o.value)) == content(ks), 'exporting changed the keys in memory')
  mon.event('via:' + how)
  mon.event('type:' + case['kind'])
  judge(mon, ks, dest)
  usable(mon, rng, ks, dest)
  mon.distinct(case['kind'], case['spec'], how)


def _refuse(mon, case):
  loc = mon.tmpdir()
  ks, _ = life.start(case['spec'], loc)
  if case.get('public'):
    loc = mon.tmpdir()
    ks.public().write(loc)
  for how in ('tool', 'function', 'class'):
    dest = mon.tmpdir()
    snap = life.snapshot(loc)
    o = export(mon, how, loc, dest)
    mon.check(kit.refused(o), lambda: 'the export of a %s key set is not refused with a KeyczarError: %r'
              % ('public' if case.get('public') else case['kind'], o), traceback=o.tb)
    mon.check(life.snapshot(dest) == {}, lambda: 'a refused export wrote %s' % sorted(life.snapshot(dest)))
    mon.check(life.snapshot(loc) == snap, 'a refused export changed the source')
    mon.event('refused:' + ('public' if case.get('public') else case['kind']))
    mon.distinct('refuse', case['kind'], case.get('public'), case['spec'], how)


def _same(mon, case):
  """Asked to export onto the key set itself, the tool must not replace the private keys."""
  top = mon.tmpdir()
  loc = os.path.join(top, 'set')
  os.mkdir(loc)
  life.start(case['spec'], loc)
  link = os.path.join(top, 'link')
  os.symlink(loc, link)
  snap = life.snapshot(loc)
  for how in ('tool', 'function'):
    for a, b in ((loc, loc), (loc, loc + '/'), (loc, os.path.join(top, '.', 'set')), (loc, link), (link, loc)):
      o = export(mon, how, a, b)
      mon.check(life.snapshot(loc) == snap, lambda: 'an export onto the key set itself (%s to %s) changed it: %s' % (
          os.path.basename(a), os.path.relpath(b, top), life.diff(life.snapshot(loc), snap)))
      mon.check(kit.refused(o), lambda: 'an export onto the key set itself is not refused: %r' % o)
      mon.event('same-location')
  mon.distinct('same', case['kind'], case['spec'])


def _history(mon, case):
  """Export into the same place again and again along a history."""
  rng = random.Random(case['salt'])
  loc, dest = mon.tmpdir(), mon.tmpdir()
  ks, model = life.start(case['spec'], loc)
  for i in range(5):
    cmd = life.random_command(rng, model, 1)
    if cmd[0] == 'add' and i > 1 or cmd[0] == 'revoke':
      continue
    o = life.on_disk(mon, loc, 'tool', cmd, 1024)
    mon.check(o.ok, lambda: '%s: %r' % (cmd, o))
    model.apply(cmd)
    ks = ref.read_keyset(loc)
    o = export(mon, rng.choice(('tool', 'function', 'class')), loc, dest)
    mon.check(o.ok, lambda: 'the export failed: %r' % o)
    judge(mon, ks, dest)
    usable(mon, rng, ks, dest)
    mon.event('after-history')
    mon.distinct('history', case['salt'], i)


def run(mon, case):
  {'export': _export, 'refuse': _refuse, 'same': _same, 'history': _history}[case['k']](mon, case)
