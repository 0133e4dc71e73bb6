"""C11: key status changes follow the documented life cycle."""
import itertools
import json
import os
import random

from kzmon import gen, kit, life, ref
from kzmon.env import errors, keyczart, kz, readers, writers
from kzmon.life import A, I, P

ID = 'C11'
LEVEL = 'exploration'
RULE = ('a (key set state, command) pair whose outcome was compared with the life-cycle model: distinct by statuses of all '
        'versions, command, key type, way of issuing it and storage')
REQUIRED = tuple('%s:%s' % (h, o) for h in ('tool', 'functions', 'classes', 'memory')
                 for o in ('add', 'promote', 'demote', 'revoke', 'refused')) + (
    'create', 'encrypted', 'former-primary', 'no-primary', 'reread', 'memory:gone',
    'type:aes', 'type:hmac', 'type:rsa-crypt', 'type:rsa-sign', 'type:dsa')
ASSUMPTIONS = ('the number of a revoked highest version may be given out again (as documented: highest plus one)',)

KINDS = ('aes', 'hmac', 'rsa-crypt', 'rsa-sign', 'dsa')
ALPHABET = [('add', s) for s in (P, A, I)] + [(o, n) for o in ('promote', 'demote', 'revoke') for n in (1, 2, 3)]
CREATES = [(p, a) for p in ('crypt', 'sign') for a in (None, 'rsa', 'RSA', 'dsa', 'DSA')]
TYPES = {('crypt', None): 'AES', ('sign', None): 'HMAC_SHA1', ('sign', 'rsa'): 'RSA_PRIV',
         ('sign', 'dsa'): 'DSA_PRIV', ('crypt', 'rsa'): 'RSA_PRIV', ('crypt', 'dsa'): 'RSA_PRIV'}


def cases(rng, tier):
  deep = tier != 'quick'
  for a in ALPHABET:
    for b in ALPHABET:
      yield {'k': 'enum-memory', 'prefix': [a, b], 'more': 3 if deep else 2}
      yield {'k': 'enum-disk', 'prefix': [a, b], 'more': 2 if deep else 1,
             'how': rng.choice(('tool', 'functions', 'classes'))}
  for i, n in enumerate((9, 10, 11, 17, 33, 65, 100, 130) if not deep else (9, 10, 11, 12, 17, 30, 33, 65, 100, 129, 257, 300) * 4):
    kind = ('hmac', 'aes')[i % 2]
    yield {'k': 'random', 'kind': kind, 'spec': life.start_spec(rng, kind, n), 'salt': rng.randrange(1 << 30), 'steps': 12,
           'how': ('tool', 'functions', 'classes', 'memory', 'mixed')[i % 5], 'enc': i % 3 == 0}
  for kind in ('rsa-crypt', 'rsa-sign', 'dsa'):
    yield {'k': 'random', 'kind': kind, 'spec': life.start_spec(rng, kind, 34), 'salt': rng.randrange(1 << 30), 'steps': 5,
           'how': 'mixed', 'enc': False}
  for p, a in CREATES:
    yield {'k': 'create', 'purpose': p, 'asym': a, 'name': rng.choice((None, 'a name', '', 'x=y', 'q"\\'))}
  for i in range(60 if not deep else 900):
    for kind in KINDS:
      if kind in ('aes', 'hmac') or i % 6 == 0:
        yield {'k': 'random', 'kind': kind, 'spec': life.start_spec(rng, kind),
               'salt': rng.randrange(1 << 30), 'steps': rng.choice((6, 14, 25)) if kind in ('aes', 'hmac') else 7,
               'how': rng.choice(('tool', 'functions', 'classes', 'memory', 'mixed')),
               'enc': kind in ('aes', 'hmac') and rng.random() < .25}


class Track(object):
  """What is known about a key set along a history."""

  def __init__(self, mon, ks, model, kind):
    self.mon, self.ks, self.model, self.kind = mon, ks, model, kind
    self.keys = dict((v.number, life.key_id(v.key)) for v in ks.versions)
    self.exportable = dict((v.number, v.exportable) for v in ks.versions)
    self.ever = set(self.keys.values())

  def adopt(self, cmd, got):
    """got: number -> (status, fingerprint, exportable) after cmd succeeded."""
    mon, m = self.mon, self.model
    mon.check(dict((n, g[0]) for n, g in got.items()) == m.v,
              lambda: 'after %s the versions are %s, must be %s' % (
                  ' '.join(map(str, cmd)), show(dict((n, g[0]) for n, g in got.items())), show(m.v)))
    for n in list(self.keys):
      if n not in m.v:
        del self.keys[n], self.exportable[n]
    for n, (s, k, e) in got.items():
      if n in self.keys:
        mon.check(self.keys[n] == k, lambda: 'the key of version %d changed by %s' % (n, cmd))
        mon.check(self.exportable[n] is e, lambda: 'the exportable flag of version %d changed by %s' % (n, cmd))
      else:
        mon.check(k not in self.ever, lambda: 'the new version %d has the key of an earlier one' % n)
        mon.check(e is False, 'a new version is marked exportable')
        self.keys[n], self.exportable[n] = k, e
        self.ever.add(k)


def show(v):
  return ' '.join('%s:%s' % (n, v[n][:3]) for n in sorted(v)) or 'none'


def disk_state(mon, loc, decrypt=None):
  try:
    ks = ref.read_keyset(loc, decrypt)
  except (OSError, ref.FormatError, ValueError, KeyError) as e:
    mon.violate('the files cannot be read after a command: %s: %s' % (type(e).__name__, e))
  files = set(os.listdir(loc))
  want = set(['meta'] + [str(v.number) for v in ks.versions])
  mon.check(files == want, lambda: 'files are %s, must be %s' % (sorted(files), sorted(want)))
  return ks


def disk_versions(ks):
  return dict((v.number, (v.status, life.key_id(v.key), v.exportable)) for v in ks.versions)


def memory_versions(mon, g, ks):
  m = json.loads(str(g))
  mon.check((m['name'], m['purpose'], m['type']) == (ks.name, ks.purpose, ks.type),
            lambda: 'name, purpose or type in memory changed: %s' % m)
  nums = [v['versionNumber'] for v in m['versions']]
  mon.check(len(nums) == len(set(nums)), 'a version is listed twice in memory')
  byno = dict((v.version_number, v) for v in g.versions)
  mon.check(set(byno) == set(nums) and len(g.versions) == len(nums),
            lambda: 'versions of the object are %s but the metadata lists %s' % (sorted(byno), sorted(nums)))
  out = {}
  for v in m['versions']:
    o = byno[v['versionNumber']]
    mon.check(str(o.status) == v['status'], 'status of a version and of the metadata differ in memory')
    key = g.GetKey(o)
    k = ref.CLASSES[ks.type].parse(json.loads(str(key)))
    mon.check(g.GetKey(ref.b64(k.id)) is key, lambda: 'the identifier of version %d leads to another key' % o.version_number)
    out[v['versionNumber']] = (v['status'], life.key_id(k), v['exportable'])
  prim = [n for n, x in out.items() if x[0] == P]
  pv = g.primary_version
  mon.check([pv.version_number] == prim if pv is not None else prim == [],
            lambda: 'primary_version is %s, the metadata says %s' % (pv, prim))
  o = mon.call(lambda: g.primary_key)
  if prim:
    mon.check(o.ok and o.value is g.GetKey(byno[prim[0]]), 'primary_key is not the key of the primary version')
  else:
    mon.check(not o.ok and isinstance(o.exc, errors.KeyczarError), 'primary_key without a primary version: %r' % o)
    mon.event('no-primary')
  return out


def judge_refusal(mon, o, cmd, m):
  mon.check(not o.ok, lambda: '%s in state %s is accepted, must be refused' % (' '.join(map(str, cmd)), show(m.v)))
  mon.check(isinstance(o.exc, errors.KeyczarError),
            lambda: '%s in state %s is refused with %r, not with a KeyczarError' % (cmd, show(m.v), o), traceback=o.tb)


def step_disk(mon, t, loc, how, cmd, size=None, crypter=None, decrypt=None):
  before = dict(t.model.v)
  snap = life.snapshot(loc)
  want = True
  try:
    t.model.apply(cmd)
  except life.Refused:
    want = False
  o = life.on_disk(mon, loc, how, cmd, size, crypter)
  mon.distinct(t.kind, how, cmd, tuple(sorted(before.items())), bool(crypter))
  if not want:
    judge_refusal(mon, o, cmd, t.model)
    mon.check(life.snapshot(loc) == snap, lambda: 'the refused %s changed files: %s'
              % (cmd, life.diff(life.snapshot(loc), snap)))
    mon.event(how + ':refused')
    return
  mon.check(o.ok, lambda: '%s in state %s failed: %r' % (' '.join(map(str, cmd)), show(before), o), traceback=o.tb)
  ks = disk_state(mon, loc, decrypt)
  mon.check((ks.name, ks.purpose, ks.type) == (t.ks.name, t.ks.purpose, t.ks.type),
            'name, purpose or type changed')
  t.adopt(cmd, disk_versions(ks))
  mon.event('%s:%s' % (how, cmd[0]))
  if P in before.values() and before != t.model.v and [n for n, s in before.items() if s == P and t.model.v.get(n) == A]:
    mon.event('former-primary')


def step_memory(mon, t, g, cmd, size=None):
  before = dict(t.model.v)
  want = True
  try:
    t.model.apply(cmd)
  except life.Refused:
    want = False
  o = mon.call(life.in_memory, g, cmd, size)
  mon.distinct(t.kind, 'memory', cmd, tuple(sorted(before.items())))
  if not want:
    judge_refusal(mon, o, cmd, t.model)
    mon.event('memory:refused')
  else:
    mon.check(o.ok, lambda: '%s in state %s failed: %r' % (' '.join(map(str, cmd)), show(before), o), traceback=o.tb)
    mon.event('memory:' + cmd[0])
  old = dict(t.keys)
  t.adopt(cmd, memory_versions(mon, g, t.ks))
  for n in set(old) - set(t.keys):      # revoked
    o = mon.call(g.GetKey, ref.b64(ref.CLASSES[t.ks.type].parse(json.loads(old[n])).id))
    mon.check(kit.refused(o), lambda: 'the key of the revoked version %d is still found by its identifier: %r' % (n, o))
    mon.event('memory:gone')


EMPTY = {'keys': [], 'type': 'HMAC_SHA1', 'purpose': 'sign'}


def _enum(mon, case):
  disk = case['k'] == 'enum-disk'
  for tail in itertools.product(ALPHABET, repeat=case['more']):
    cmds = [tuple(c) for c in case['prefix']] + list(tail)
    loc = mon.tmpdir()
    ks, model = life.start(EMPTY, loc)
    t = Track(mon, ks, model, 'hmac')
    if disk:
      for c in cmds:
        step_disk(mon, t, loc, case['how'], c)
      g = mon.must('reading the key set', kz.GenericKeyczar.Read, loc)
      t.adopt(('reread',), memory_versions(mon, g, ks))
      mon.clean()
    else:
      g = mon.must('reading an empty key set', kz.GenericKeyczar, ref.MemReader(ks))
      for c in cmds:
        step_memory(mon, t, g, c)
      os.remove(os.path.join(loc, 'meta'))
      os.rmdir(loc)


def _create(mon, case):
  loc = mon.tmpdir()
  args = ['create', '--location=' + loc, '--purpose=' + case['purpose']]
  if case['asym'] is not None:
    args.append('--asymmetric=' + case['asym'])
  if case['name'] is not None:
    args.append('--name=' + case['name'])
  o = life.tool(mon, args)
  mon.check(o.ok, lambda: '%s failed: %r' % (args, o))
  ks = disk_state(mon, loc)
  mon.check(ks.versions == [] and ks.encrypted is False, 'a new key set is not empty')
  mon.check(ks.name == (case['name'] if case['name'] is not None else 'Test'), lambda: 'the name is %r' % ks.name)
  want = TYPES[case['purpose'], case['asym'] and case['asym'].lower()]
  mon.check(ks.type == want, lambda: 'create made a %s key set, must be %s' % (ks.type, want))
  mon.check(ks.purpose == {'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[case['purpose']],
            lambda: 'purpose is %s' % ks.purpose)
  t = Track(mon, ks, life.Model(), 'create')
  size = 1024 if want == 'RSA_PRIV' else None
  for cmd in (('add', A), ('promote', 1), ('demote', 1), ('demote', 1), ('revoke', 1)):
    step_disk(mon, t, loc, 'tool', cmd, size)
  mon.event('create')
  mon.distinct('create', args[2:])


def _random(mon, case):
  rng = random.Random(case['salt'])
  kind = case['kind']
  loc = mon.tmpdir()
  ks, model = life.start(case['spec'], loc)
  for v in ks.versions:
    v.exportable = rng.random() < .3
  crypter = decrypt = None
  enc = case['enc']
  if enc:
    crypter = mon.tmpdir()
    ck = gen.keyset({'keys': gen.aes_keys(rng)})
    ck.write(crypter)
    ks.encrypted = True
    pk = ck.primary.key
    byid = dict((v.key.id, v.key) for v in ck.versions)

    def decrypt(text):
      raw = ref.unb64(text)
      return byid[raw[1:5]].decrypt(raw)[0].decode()
    ks.write(loc, lambda text: ref.b64(pk.encrypt(text.encode(), gen.stream('iv%s' % text[-9:], 16))))
    mon.event('encrypted')
  else:
    ks.write(loc)
  rng.shuffle(ks.versions)
  t = Track(mon, ks, model, kind)
  mon.event('type:' + kind)
  g = None
  for i in range(case['steps']):
    cmd = life.random_command(rng, model)
    size = 1024 if kind.startswith('rsa') else rng.choice((None, 128, 192, 256)) if kind == 'aes' else None
    if kind in ('rsa-crypt', 'rsa-sign', 'dsa') and cmd[0] == 'add' and rng.random() < .6:
      cmd = (rng.choice(('promote', 'demote')), rng.choice(sorted(model.v) or [1]))
    how = case['how']
    if how == 'mixed':
      how = rng.choice(('tool', 'functions', 'classes'))
    if how == 'memory':
      if g is None:
        r = readers.CreateReader(loc)
        if enc:
          r = readers.EncryptedReader(r, kz.Crypter.Read(crypter))
        g = mon.must('reading the key set', kz.GenericKeyczar, r)
      step_memory(mon, t, g, cmd, size)
      if rng.random() < .3:
        # what is stored is what is in memory; the removal of key files is up to the caller
        w = writers.CreateWriter(loc)
        mon.must('Write', g.Write, w, kz.Crypter.Read(crypter) if enc else None)
        for n in os.listdir(loc):
          if n.isdigit() and int(n) not in model.v:
            w.Remove(int(n))
        t.adopt(('write',), disk_versions(disk_state(mon, loc, decrypt)))
        mon.event('reread')
        if rng.random() < .5:
          g = None
    elif enc and cmd[0] != 'add':
      # the tool has no crypter flag for these commands
      step_disk(mon, t, loc, 'classes', cmd, size, crypter, decrypt)
    else:
      step_disk(mon, t, loc, how, cmd, size, crypter, decrypt)
  if g is None and not enc:
    g = mon.must('reading the key set', kz.GenericKeyczar.Read, loc)
    t.adopt(('reread',), memory_versions(mon, g, ks))
    mon.event('reread')


def run(mon, case):
  if case['k'].startswith('enum'):
    _enum(mon, case)
  elif case['k'] == 'create':
    _create(mon, case)
  else:
    _random(mon, case)
