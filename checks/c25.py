"""C25: custom storage back ends get exactly the documented calls."""
import json
import os
import pickle
import random
import sys
import traceback

from kzmon import env, gen, kit, life, ref
from kzmon.env import B, S, errors, keyczart, keyinfo, kz, readers, util, writers
from kzmon.life import A, I, P

ID = 'C25'
LEVEL = 'exploration'
RULE = ('one operation through a recording storage back end (a subclass of the program or a plug-in) whose calls were checked against the '
        'protocol and whose content was compared with the model: distinct by entry point or command, back end, key set state and outcome')
REQUIRED = ('entry:GenericKeyczar', 'entry:Encrypter', 'entry:Crypter', 'entry:Verifier', 'entry:Signer', 'entry:UnversionedVerifier',
            'entry:UnversionedSigner', 'entry:CreateReader', 'entry:CreateWriter', 'entry:Write', 'backend:subclass', 'backend:plugin',
            'backend:file', 'cmd:create', 'cmd:addkey', 'cmd:addkey-encrypted', 'cmd:promote', 'cmd:demote', 'cmd:revoke', 'cmd:pubkey',
            'refused', 'closed', 'closed-after-failure', 'fault:GetMetadata', 'fault:GetKey', 'fault:WriteKey', 'fault:WriteMetadata',
            'fault:Remove', 'unknown-location', 'plugins:none', 'plugins:one', 'plugins:many', 'plugins:late', 'imported-once', 'metadata-last', 'first:create', 'first:writer',
            'crypter:custom', 'crypter:file')
ASSUMPTIONS = ('the destination of pubkey is a directory: exports do not go through writers',
               'readers that library calls such as Crypter.Read open are not closed by them; only those of the tool are judged')


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(60 if q else 600):
    yield {'k': 'entry', 'kind': ('aes', 'hmac', 'rsa-crypt', 'rsa-sign', 'dsa')[i % 5], 'backend': ('mem', 'plug', 'file')[i % 3],
           'salt': rng.randrange(1 << 30)}
  for i in range(40 if q else 500):
    yield {'k': 'history', 'kind': ('aes', 'hmac', 'aes', 'hmac', 'rsa-sign', 'dsa')[i % 6], 'backend': ('mem', 'plug')[i // 6 % 2],
           'salt': rng.randrange(1 << 30), 'how': ('tool', 'tool', 'functions', 'classes')[i % 4], 'n': 14}
  for i in range(40 if q else 400):
    yield {'k': 'faults', 'kind': ('aes', 'hmac', 'dsa', 'rsa-crypt')[i % 4], 'backend': ('mem', 'plug')[i % 2],
           'salt': rng.randrange(1 << 30)}
  for i in range(8 if q else 30):
    yield {'k': 'unknown', 'salt': rng.randrange(1 << 30)}
  for i in range(16 if q else 120):
    yield {'k': 'plugins', 'n': i % 4, 'salt': rng.randrange(1 << 30)}


# ---------------------------------------------------------------- the recording back ends

class Broken(Exception):
  """An error of the storage that keyczar does not know."""


class State(object):
  """What the back ends store and record."""
  store = {}        # location -> {'meta': text, 'keys': {number: text}}
  log = []          # (operation, back end, location, instance, argument)
  live = {}         # instance number -> (kind, location), not closed
  count = 0
  fault = None      # (operation, how many calls later, exception)
  problems = []

  @classmethod
  def reset(cls):
    cls.store, cls.log, cls.live, cls.count, cls.fault, cls.problems = {}, [], {}, 0, None, []


def note(op, obj, arg=None):
  State.log.append((op, obj.scheme, obj.loc, obj.number, arg))
  if obj.number not in State.live:
    State.problems.append('%s of %s is called after Close' % (op, obj.loc))
  f = State.fault
  if f and f[0] == op:
    if f[1] == 0:
      raise f[2]
    State.fault = (op, f[1] - 1, f[2])


def opened(obj, kind, scheme, loc):
  State.count += 1
  obj.scheme, obj.loc, obj.number = scheme, loc, State.count
  State.live[obj.number] = (kind, loc)
  State.log.append(('open-' + kind, scheme, loc, obj.number, None))


def closed(obj):
  State.log.append(('Close', obj.scheme, obj.loc, obj.number, None))
  State.live.pop(obj.number, None)


def back_end(scheme):
  """Makes a reader and a writer class; defining them registers them."""

  class RecordingReader(readers.Reader):

    def __init__(self, loc):
      opened(self, 'reader', scheme, loc)

    def GetMetadata(self):
      note('GetMetadata', self)
      try:
        return State.store[self.loc]['meta']
      except KeyError:
        raise errors.KeyczarError('no metadata at ' + self.loc)

    def GetKey(self, version_number):
      note('GetKey', self, version_number)
      if not isinstance(version_number, int):
        State.problems.append('GetKey with the version number %r' % (version_number,))
      try:
        return State.store[self.loc]['keys'][version_number]
      except KeyError:
        raise errors.KeyczarError('no key %r at %s' % (version_number, self.loc))

    def Close(self):
      closed(self)

    @classmethod
    def CreateReader(cls, location):
      State.log.append(('offer-reader', scheme, location, None, None))
      if location.startswith(scheme + ':') and location in State.store:
        return cls(location)
      return None

  class RecordingWriter(writers.Writer):

    def __init__(self, loc):
      opened(self, 'writer', scheme, loc)

    def WriteMetadata(self, metadata, overwrite=True):
      note('WriteMetadata', self, overwrite)
      e = State.store[self.loc]
      if not overwrite and e['meta'] is not None:
        raise errors.KeyczarError('%s exists' % self.loc)
      text = str(metadata)
      try:
        m = json.loads(text)
        missing = [v['versionNumber'] for v in m['versions'] if v['versionNumber'] not in e['keys']]
        if missing:
          State.problems.append('metadata written that lists the keys %r, which were not' % missing)
      except (ValueError, LookupError, TypeError) as x:
        State.problems.append('metadata %r: %s' % (text, x))
      e['meta'] = text

    def WriteKey(self, key, version_number, encrypter=None):
      note('WriteKey', self, version_number)
      if not isinstance(version_number, int):
        State.problems.append('WriteKey with the version number %r' % (version_number,))
      text = str(key)
      State.store[self.loc]['keys'][version_number] = encrypter.Encrypt(text) if encrypter else text

    def Remove(self, version_number):
      note('Remove', self, version_number)
      try:
        del State.store[self.loc]['keys'][version_number]
      except KeyError:
        State.problems.append('Remove of key %r, which %s does not have' % (version_number, self.loc))

    def Close(self):
      closed(self)

    @classmethod
    def CreateWriter(cls, location):
      State.log.append(('offer-writer', scheme, location, None, None))
      if location.startswith(scheme + ':') and location in State.store:
        return cls(location)
      return None

  return RecordingReader, RecordingWriter


PLUGIN = '''
import sys
sys.modules[%r].imported(__name__)
classes = sys.modules[%r].back_end(%r)
'''
imports = []


def imported(name):
  imports.append(name)


ready = []


def prepare(mon):
  """Once per process: one back end defined here, one found through the environment."""
  if not ready:
    ready.append(back_end('mem'))
    d = os.path.join(os.path.dirname(mon.scratch), os.path.basename(mon.scratch) + '-plugins')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'kz_plug_main.py'), 'w') as f:
      f.write(PLUGIN % (__name__, __name__, 'plug'))
    os.environ['KEYCZAR_BACKEND_PATHS'] = d
    try:
      mon.call(readers.CreateReader, 'plug:nothing')
    finally:
      import shutil
      shutil.rmtree(d, ignore_errors=True)
      os.environ.pop('KEYCZAR_BACKEND_PATHS')
  State.reset()


def put(loc, ks, encrypt=None):
  State.store[loc] = {'meta': json.dumps(ks.meta()) if ks is not None else None, 'keys': {}}
  if ks is not None:
    for v in ks.versions:
      text = json.dumps(ks.key_json(v))
      State.store[loc]['keys'][v.number] = encrypt(text) if encrypt else text


def parse(mon, loc, decrypt=None):
  """What is stored, by the reference."""
  d = mon.tmpdir()
  e = State.store[loc]
  with open(os.path.join(d, 'meta'), 'w') as f:
    f.write(e['meta'])
  for n, t in e['keys'].items():
    with open(os.path.join(d, str(n)), 'w') as f:
      f.write(t)
  return ref.read_keyset(d, decrypt)


def frozen_store():
  return json.dumps(State.store, sort_keys=True)


def protocol(mon, what, loc, close=False, others=()):
  """Judges the log of one operation."""
  mon.check(not State.problems, lambda: '%s: %s' % (what, '; '.join(State.problems[:3])))
  for op, scheme, l, num, arg in State.log:
    if op.startswith('offer-'):
      continue
    mon.check(l == loc or l in others, lambda: '%s of the back end at %s is called for an operation on %s' % (op, l, loc))
    mon.check(l.startswith(scheme + ':'), 'a back end was used for a location that it does not accept')
  if close:
    mon.check(not State.live, lambda: '%s: left open: %s' % (what, ', '.join('%s for %s' % v for v in State.live.values())))
    mon.event('closed')


def reads_everything(mon, what, loc, numbers):
  """Exactly one reader for loc, asked for the metadata and for every key."""
  opens = [e for e in State.log if e[0] == 'open-reader' and e[2] == loc]
  mon.check(len(opens) == 1, lambda: '%s: %d readers were opened for %s' % (what, len(opens), loc))
  mon.check(any(e[0] == 'GetMetadata' and e[2] == loc for e in State.log), '%s: the metadata was not read' % what)
  got = set(e[4] for e in State.log if e[0] == 'GetKey' and e[2] == loc)
  mon.check(got == set(numbers), lambda: '%s: the keys %r were read, the key set has %r' % (what, sorted(got), sorted(numbers)))


# ---------------------------------------------------------------- entry points

def _entry(mon, case):
  rng = random.Random(case['salt'])
  kind, backend = case['kind'], case['backend']
  spec = life.start_spec(rng, kind, rng.choice((1, 2, 3)))
  spec['status'] = gen.statuses(rng, len(spec['keys']), True)
  ks = gen.keyset(spec)
  pub = ks.public() if kind in ('rsa-crypt', 'rsa-sign', 'dsa') else None
  decoy = gen.keyset({'keys': [{'aes': 'aes128:5', 'hmac': 'hmac:5', 'dsa': 'dsa:7'}.get(kind, 'rsa1024:7')], 'status': 'P',
                      'type': ks.type, 'purpose': spec['purpose']})

  def place(name, s):
    if backend == 'file':
      return s.write(os.path.join(mon.tmpdir(), name))
    put('%s:%s' % (backend, name), s)
    return '%s:%s' % (backend, name)
  loc = place('a set', ks)
  ploc = place('public/set', pub) if pub else None
  for b in ('mem', 'plug'):
    put(b + ':decoy', decoy)
  numbers = [v.number for v in ks.versions]
  data = gen.message(gen.msg(rng, maxlen=40))
  k = ks.primary.key
  crypt = spec['purpose'] == 'crypt'
  todo = [('GenericKeyczar', loc), ('CreateReader', loc), ('CreateWriter', loc), ('Write', loc)]
  if crypt:
    todo += [('Encrypter', loc), ('Crypter', loc)]
    if pub:
      todo += [('Encrypter', ploc), ('GenericKeyczar', ploc)]
  else:
    todo += [(n, loc) for n in ('Verifier', 'Signer', 'UnversionedVerifier', 'UnversionedSigner')]
    if pub:
      todo += [('Verifier', ploc), ('UnversionedVerifier', ploc), ('GenericKeyczar', ploc)]
  rng.shuffle(todo)
  for name, l in todo:
    State.log[:] = []
    State.live.clear()
    before = frozen_store()
    what = '%s of %s' % (name, l)
    if name == 'CreateReader':
      r = mon.must(what, readers.CreateReader, l)
      mon.check(json.loads(r.GetMetadata()) == ks.meta(), '%s: other metadata' % what)
      mon.check(all(json.loads(r.GetKey(v.number)) == v.key.json() for v in ks.versions), '%s: other keys' % what)
      r.Close()
    elif name == 'CreateWriter':
      w = mon.must(what, writers.CreateWriter, l)
      if backend != 'file':
        mon.check(len([e for e in State.log if e[0] == 'open-writer']) == 1, '%s: not one writer' % what)
      w.Close()
    elif name == 'Write':
      g = mon.must('GenericKeyczar', kz.GenericKeyczar, ref.MemReader(decoy))
      dest = l + ' copy'
      if backend == 'file':
        os.makedirs(dest)
      else:
        put(dest, None)
      mon.must(what, g.Write, dest)       # deprecated, but there
      got = ref.read_keyset(dest) if backend == 'file' else parse(mon, dest)
      mon.check([(v.number, v.status, life.key_id(v.key)) for v in got.versions] ==
                [(v.number, v.status, life.key_id(v.key)) for v in decoy.versions], '%s: something else was written' % what)
      protocol(mon, what, dest)
    else:
      obj = mon.must(what, getattr(kz, name).Read, l)
      if name in ('Encrypter', 'Crypter'):
        ct = mon.must('Encrypt', obj.Encrypt, S(data))
        mon.check(k.decrypt(ref.unb64(ct))[0] == data, '%s: the object has other keys' % what)
      elif name in ('Signer', 'UnversionedSigner'):
        sig = mon.must('Sign', obj.Sign, S(data))
        raw = ref.unb64(sig)
        ok = k.verify(data + b'\0', raw[5:]) if name == 'Signer' else k.verify(data, raw)
        mon.check(ok, '%s: the object has other keys' % what)
      elif name == 'GenericKeyczar':
        mon.check(sorted(v.version_number for v in obj.versions) == sorted(numbers), '%s: other versions' % what)
      elif name == 'Verifier':
        sig = k.sign(data + b'\0', *([rng.randrange(1, k.q)] if kind == 'dsa' else []))
        mon.check(mon.call(obj.Verify, S(data), ref.b64(b'\0' + k.id + sig)).value is True, '%s: the object has other keys' % what)
      else:
        sig = k.sign(data, *([rng.randrange(1, k.q)] if kind == 'dsa' else []))
        mon.check(bool(mon.call(obj.Verify, S(data), ref.b64(sig)).value), '%s: the object has other keys' % what)
      if backend != 'file':
        reads_everything(mon, what, l, numbers)
    if name != 'Write':
      mon.check(frozen_store() == before, '%s changed what is stored' % what)
      protocol(mon, what, l)
    if backend == 'file':
      mon.check(not [e for e in State.log if not e[0].startswith('offer-')], 'a custom back end was used for a directory')
    mon.event('entry:' + name)
    mon.event('backend:' + {'mem': 'subclass', 'plug': 'plugin'}.get(backend, backend))
    mon.distinct('entry', name, backend, kind, l == ploc, len(numbers))


# ---------------------------------------------------------------- histories

def crypter_set(mon, rng, custom):
  ks = gen.keyset({'keys': ['aes128:%d' % rng.randrange(100), 'aes256:%d' % rng.randrange(100)], 'status': 'AP'})
  byid = dict((v.key.id, v.key) for v in ks.versions)

  def decrypt(text):
    raw = ref.unb64(text)
    return byid[raw[1:5]].decrypt(raw)[0].decode()
  if custom:
    loc = custom + ':the crypter'
    put(loc, ks)
  else:
    loc = ks.write(mon.tmpdir())
  encrypt = lambda t: ref.b64(ks.primary.key.encrypt(t.encode(), rng.randbytes(16)))
  return loc, decrypt, encrypt


def _history(mon, case):
  rng = random.Random(case['salt'])
  kind, backend, how = case['kind'], case['backend'], case['how']
  loc = '%s:%s' % (backend, rng.choice(('x', 'a/b/c', '//host/path?q=1', 'with space', 'ä')))
  put('mem:decoy', gen.keyset({'keys': ['aes128:5'], 'status': 'P'}))
  put(loc + 'x', gen.keyset({'keys': ['aes128:5'], 'status': 'P'}))
  decoys = [l for l in State.store]
  put(loc, None)
  crypter = decrypt = None
  if how == 'tool' and kind in ('aes', 'hmac') and rng.random() < .4:
    custom = rng.choice((None, 'mem', 'plug'))
    crypter, decrypt, _ = crypter_set(mon, rng, custom)
    mon.event('crypter:custom' if custom else 'crypter:file')
  frozen = dict((l, json.dumps(State.store[l], sort_keys=True)) for l in State.store if l != loc)
  purpose = 'crypt' if kind in ('aes', 'rsa-crypt') else 'sign'
  model, keys_ = life.Model(), {}
  others = (crypter,) if crypter else ()

  def step(what, fn, *a, **kw):
    State.log[:] = []
    State.live.clear()
    o = fn(*a, **kw)
    protocol(mon, what, loc, True, others)
    for l, t in frozen.items():
      mon.check(json.dumps(State.store[l], sort_keys=True) == t, lambda: '%s changed %s' % (what, l))
    return o
  args = ['create', '--location=' + loc, '--purpose=' + purpose, '--name=n']
  if kind not in ('aes', 'hmac'):
    args.append('--asymmetric=' + kind[:3])
  o = step('create', life.tool, mon, args)
  mon.check(o.ok, lambda: 'create at a custom location: %r' % o, traceback=o.tb)
  ks = parse(mon, loc)
  mon.check(not ks.versions and not State.store[loc]['keys'], 'create stored versions')
  mon.event('cmd:create')
  before = frozen_store()
  o = step('second create', life.tool, mon, args)
  mon.check(kit.refused(o) and frozen_store() == before, lambda: 'create where a key set exists: %r' % o)
  mon.event('closed-after-failure')
  for i in range(case['n']):
    cmd = life.random_command(rng, model, .7)
    if crypter and cmd[0] != 'add':
      cmd = ('add', rng.choice((P, A, I)))
    if kind not in ('aes', 'hmac') and cmd[0] == 'add' and len(model.v) >= 3:
      continue
    size = 1024 if kind.startswith('rsa') and cmd[0] == 'add' else None
    what = '%s %s %s' % (how, cmd[0], cmd[1])
    want = model.copy()
    try:
      want.apply(cmd)
      refused = False
    except life.Refused:
      refused = True
    before = frozen_store()
    if how == 'classes':
      def go():
        r = readers.CreateReader(loc)
        g = kz.GenericKeyczar(r)
        r.Close()
        life.in_memory(g, cmd, size)
        w = writers.CreateWriter(loc)
        g.Write(w)
        if cmd[0] == 'revoke':
          w.Remove(cmd[1])
        w.Close()
      o = step(what, mon.call, go)
    else:
      o = step(what, life.on_disk, mon, loc, how, cmd, size, crypter)
    if refused:
      mon.check(kit.refused(o), lambda: '%s: %r, must be refused' % (what, o))
      mon.check(frozen_store() == before, '%s: refused, but the stored key set changed' % what)
      mon.event('refused')
      mon.event('closed-after-failure')
      continue
    mon.check(o.ok, lambda: '%s: %r' % (what, o), traceback=o.tb)
    model = want
    if not model.v:
      got = parse(mon, loc)
    else:
      got = parse(mon, loc, decrypt)
    mon.check(dict((v.number, v.status) for v in got.versions) == model.v, lambda: '%s: stored %r, must be %r' % (
        what, dict((v.number, v.status) for v in got.versions), model.v))
    mon.check(set(State.store[loc]['keys']) == set(model.v), lambda: '%s: the back end has the keys %r, the key set has %r' % (
        what, sorted(State.store[loc]['keys']), sorted(model.v)))
    mon.check(got.encrypted == bool(crypter), '%s: wrong encrypted flag' % what)
    for v in got.versions:
      kid = life.key_id(v.key)
      if cmd[0] == 'add' and v.number == max(model.v):
        keys_[v.number] = kid
      mon.check(keys_.get(v.number) == kid, lambda: '%s: key %d changed' % (what, v.number))
    for n in list(keys_):
      if n not in model.v:
        del keys_[n]
    if cmd[0] == 'add':
      order = [e[0] for e in State.log if e[0] in ('WriteKey', 'WriteMetadata')]
      mon.check('WriteMetadata' in order, 'no metadata was written')
      mon.event('metadata-last')
      mon.event('cmd:addkey-encrypted' if crypter else 'cmd:addkey')
    else:
      mon.event('cmd:' + cmd[0])
    mon.distinct('history', how, backend, kind, cmd[0], tuple(sorted(model.v.items())))
  if kind not in ('aes', 'hmac') and model.v:
    d = mon.tmpdir()
    before = frozen_store()
    o = step('pubkey', life.tool, mon, ['pubkey', '--location=' + loc, '--destination=' + d])
    mon.check(o.ok and frozen_store() == before, lambda: 'pubkey from a custom location: %r' % o)
    pk = ref.read_keyset(d)
    mon.check(dict((v.number, v.status) for v in pk.versions) == model.v, 'the export has other versions')
    mon.event('cmd:pubkey')
  mon.event('backend:' + {'mem': 'subclass', 'plug': 'plugin'}[backend])


# ---------------------------------------------------------------- errors of the storage

def _faults(mon, case):
  rng = random.Random(case['salt'])
  kind, backend = case['kind'], case['backend']
  spec = life.start_spec(rng, kind, 3)
  spec['status'] = rng.choice(('PAI', 'API', 'IPA'))
  ks = gen.keyset(spec)
  nums = dict((s, v.number) for s, v in zip(spec['status'], ks.versions))
  loc = backend + ':f'
  d = mon.tmpdir()
  cmds = [('promote', ['promote', '--location=' + loc, '--version=%d' % nums['A']], ('GetMetadata', 'GetKey', 'WriteKey', 'WriteMetadata')),
          ('demote', ['demote', '--location=' + loc, '--version=%d' % nums['A']], ('GetMetadata', 'GetKey', 'WriteKey', 'WriteMetadata')),
          ('revoke', ['revoke', '--location=' + loc, '--version=%d' % nums['I']],
           ('GetMetadata', 'GetKey', 'WriteKey', 'WriteMetadata', 'Remove'))]
  if kind in ('aes', 'hmac'):
    cmds.append(('addkey', ['addkey', '--location=' + loc, '--status=primary'], ('GetMetadata', 'GetKey', 'WriteKey', 'WriteMetadata')))
    custom = rng.choice(('mem', 'plug'))
    cloc, decrypt, encrypt = crypter_set(mon, rng, custom)
    cmds.append(('addkey-encrypted', ['addkey', '--location=' + loc, '--status=primary', '--crypter=' + cloc],
                 ('GetMetadata', 'GetKey', 'WriteKey', 'WriteMetadata')))
  else:
    cmds.append(('pubkey', ['pubkey', '--location=' + loc, '--destination=' + d], ('GetMetadata', 'GetKey')))
  for name, args, ops in cmds:
    for op in ops:
      nth = 0
      while True:
        enc = None
        if name == 'addkey-encrypted':
          enc = encrypt
          ks.encrypted = True
        else:
          ks.encrypted = False
        put(loc, ks, enc)
        State.log[:] = []
        State.live.clear()
        State.problems[:] = []
        exc = rng.choice((errors.KeyczarError('storage is broken'), IOError(5, 'storage is broken'), Broken('storage is broken')))
        State.fault = (op, nth, exc)
        o = life.tool(mon, args)
        hit = State.fault is not None and State.fault[1] == 0 and not (o.ok)
        pending = State.fault
        State.fault = None
        what = '%s with %s failing (call %d)' % (name, op, nth + 1)
        made = len([e for e in State.log if e[0] == op])
        if made <= nth:
          # the operation was not called that often: an ordinary success
          mon.check(o.ok, lambda: '%s: %r' % (name, o), traceback=o.tb)
          protocol(mon, name, loc, True, (cloc,) if enc else ())
          break
        mon.check(not o.ok, lambda: '%s reports success' % what)
        mon.check(not State.live, lambda: '%s: left open: %s' % (what, ', '.join('%s for %s' % v for v in State.live.values())))
        mon.check(not State.problems, lambda: '%s: %s' % (what, State.problems[0]))
        mon.event('fault:' + op)
        mon.event('closed-after-failure')
        mon.distinct('fault', name, op, nth, kind, backend, type(exc).__name__)
        nth += 1
        if nth > 12:
          break


# ---------------------------------------------------------------- nobody's locations

def _unknown(mon, case):
  rng = random.Random(case['salt'])
  d = mon.tmpdir()
  for loc in ('nobody:x', 'mem:absent', 'plug:absent', os.path.join(d, 'absent'), '', 'MEM:x', 'memx', os.path.join(d, 'a', 'b')):
    State.log[:] = []
    for name in ('GenericKeyczar', 'Encrypter', 'Crypter', 'Verifier', 'Signer', 'UnversionedVerifier', 'UnversionedSigner'):
      o = mon.call(getattr(kz, name).Read, loc)
      mon.check(kit.refused(o), lambda: '%s.Read(%r): %r' % (name, loc, o), traceback=o.tb)
    for fn in (readers.CreateReader, writers.CreateWriter):
      o = mon.call(fn, loc)
      mon.check(kit.refused(o), lambda: '%s(%r): %r' % (fn.__name__, loc, o), traceback=o.tb)
    for args in (['create', '--purpose=crypt'], ['addkey', '--status=primary'], ['promote', '--version=1'], ['demote', '--version=1'],
                 ['revoke', '--version=1'], ['pubkey', '--destination=' + d]):
      o = life.tool(mon, args + ['--location=' + loc])
      mon.check(kit.refused(o), lambda: '%s at %r: %r' % (args[0], loc, o), traceback=o.tb)
    g = kz.GenericKeyczar(ref.MemReader(gen.keyset({'keys': ['aes128:5'], 'status': 'P'})))
    o = mon.call(g.Write, loc)
    mon.check(kit.refused(o), lambda: 'Write(%r): %r' % (loc, o), traceback=o.tb)
    mon.check(not os.listdir(d), 'a refused location was created')
    mon.check(not [e for e in State.log if not e[0].startswith('offer-')], 'a back end was opened')
    mon.event('unknown-location')
    mon.distinct('unknown', loc.replace(d, ''))


# ---------------------------------------------------------------- plug-ins

def isolated(fn):
  """Runs fn in a forked child; returns its result or raises what it raised."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      try:
        out = ('ok', fn())
      except BaseException as e:
        out = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
      with os.fdopen(w, 'wb') as f:
        f.write(pickle.dumps(out))
    finally:
      os._exit(0)
  os.close(w)
  with os.fdopen(r, 'rb') as f:
    b = f.read()
  os.waitpid(pid, 0)
  return pickle.loads(b)


def _plugins(mon, case):
  rng = random.Random(case['salt'])
  n = case['n']
  dirs, schemes = [], []
  for i in range(n):
    d = mon.tmpdir()
    dirs.append(d)
    for j in range(rng.choice((1, 1, 2))):
      s = 'kz%d%d%d' % (case['salt'], i, j)
      schemes.append(s)
      with open(os.path.join(d, 'plugin_%s.py' % s), 'w') as f:
        f.write(PLUGIN % (__name__, __name__, s))
    with open(os.path.join(d, 'readme.txt'), 'w') as f:
      f.write('raise Exception("not a module")')
    with open(os.path.join(d, 'disabled.py.off'), 'w') as f:
      f.write('raise Exception("not a module")')
  paths = list(dirs)
  if rng.random() < .5:
    paths.insert(rng.randrange(len(paths) + 1), os.path.join(mon.tmpdir(), 'absent'))
  late = rng.random() < .5
  first = rng.choice(('create', 'writer', 'reader', 'Read'))
  ks = gen.keyset({'keys': ['aes128:5', 'aes192:6'], 'status': 'PA'})
  text = gen.message(gen.msg(rng, maxlen=30))
  fdir = ks.write(mon.tmpdir())

  def child():
    out = []
    for s in schemes:
      put(s + ':a', ks)
      put(s + ':b', None)
      put(s + ':c', None)
    if late or not paths:
      os.environ.pop('KEYCZAR_BACKEND_PATHS', None)
      for s in schemes or ['kzx']:
        for fn in (kz.Crypter.Read, readers.CreateReader, writers.CreateWriter):
          try:
            fn(s + ':a')
            out.append('%s accepts %s:a although no plug-in is configured' % (fn, s))
          except errors.KeyczarError:
            pass
    if paths:
      os.environ['KEYCZAR_BACKEND_PATHS'] = os.pathsep.join(paths)
    if schemes and first == 'create':       # this process has used no reader yet
      if keyczart.main(['create', '--location=%s:c' % schemes[-1], '--purpose=crypt']):
        out.append('create before anything else')
    elif schemes and first == 'writer':
      writers.CreateWriter(schemes[0] + ':c').Close()
    elif schemes and first == 'reader':
      readers.CreateReader(schemes[0] + ':a').Close()
    for s in rng.sample(schemes, len(schemes)):
      c = kz.Crypter.Read(s + ':a')
      if c.Decrypt(c.Encrypt(S(text))) != S(text):
        out.append('decryption')
      if ks.primary.key.decrypt(ref.unb64(c.Encrypt(S(text))))[0] != text:
        out.append('the plug-in was not used')
      if keyczart.main(['create', '--location=%s:b' % s, '--purpose=sign']):
        out.append('create')
      if keyczart.main(['addkey', '--location=%s:b' % s, '--status=primary']):
        out.append('addkey')
      k = kz.Signer.Read(s + ':b')
      if not k.Verify('x', k.Sign('x')):
        out.append('verify')
      for other in schemes:
        used = [e for e in State.log if e[1] == other and not e[0].startswith('offer-') and not e[2].startswith(other + ':')]
        if used:
          out.append('plug-in %s was used for %s' % (other, used[0][2]))
    State.log[:] = []
    kz.Crypter.Read(fdir)
    if [e for e in State.log if not e[0].startswith('offer-')]:
      out.append('a plug-in was used for a directory')
    mine = [m for m in imports if m.startswith('plugin_kz%d' % case['salt'])]
    if len(mine) != len(set(mine)) or len(mine) != len(schemes):
      out.append('imported plug-ins: %r, configured: %r' % (mine, schemes))
    return out
  status, out = isolated(child)
  mon.check(status == 'ok', lambda: 'with %d plug-in directories: %s' % (n, out))
  mon.check(not out, lambda: 'with %d plug-in directories: %s' % (n, '; '.join(out)))
  mon.event('plugins:' + ('none', 'one', 'many', 'many')[n])
  if n:
    mon.event('imported-once')
    if late:
      mon.event('plugins:late')
  mon.event('first:' + first)
  mon.distinct('plugins', n, len(schemes), late, len(paths), first)


def run(mon, case):
  prepare(mon)
  {'entry': _entry, 'history': _history, 'faults': _faults, 'unknown': _unknown, 'plugins': _plugins}[case['k']](mon, case)
