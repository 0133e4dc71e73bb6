"""C16: a crash or I/O error never leaves a broken key set."""
import errno
import json
import os
import pickle
import random
import shutil
import signal

from kzmon import gen, kit, life, ref, shim
from kzmon.env import S, errors, keyczart, kz, readers, writers
from kzmon.life import A, I, P

ID = 'C16'
LEVEL = 'fault_enumeration'
RULE = ('one run of a command with one injected fault that was hit: distinct by command, key set, file system call '
        '(counted from the start of the command), and fault (kill before, kill after, kill in the middle of a write, error, '
        'short write followed by an error, persistent error)')
REQUIRED = ('cmd:create', 'cmd:addkey', 'cmd:promote', 'cmd:demote', 'cmd:revoke', 'cmd:pubkey', 'cmd:addkey-encrypted',
            'killed', 'errors-injected', 'op:open', 'op:write', 'state:old', 'state:new', 'reported', 'retried',
            'read-errors')
ASSUMPTIONS = ('file system calls take effect in program order (a power failure may lose or reorder unsynced data)',
               'one fault per run, or one from which point on everything fails')
WORKERS = 8


def setup():
  shim.Preload()


ERRNO = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES}


def cases(rng, tier):
  reps = 1 if tier == 'quick' else 8
  for r in range(reps):
    for p, a in (('crypt', None), ('sign', None), ('sign', 'rsa'), ('sign', 'dsa'), ('crypt', 'rsa')):
      yield {'cmd': ['create', p, a], 'spec': None, 'salt': rng.randrange(1 << 30)}
    for kind in ('aes', 'hmac'):
      for n in (0, 1, 3):
        for st in (P, A):
          spec = life.start_spec(rng, kind, n)
          yield {'cmd': ['add', st], 'spec': spec, 'salt': rng.randrange(1 << 30)}
      for n in (0, 2):
        yield {'cmd': ['add', P], 'spec': life.start_spec(rng, kind, n), 'salt': rng.randrange(1 << 30), 'enc': True}
    for kind in ('aes', 'hmac', 'rsa-sign', 'dsa', 'rsa-crypt'):
      for op, st in (('promote', 'PAI'), ('promote', 'IPA'), ('demote', 'PAA'), ('demote', 'APA'), ('revoke', 'IPA'),
                     ('revoke', 'IAP'), ('promote', 'AIP')):
        if kind in ('aes', 'hmac') or rng.random() < (.35 if tier == 'quick' else 1):
          spec = life.start_spec(rng, kind, 3)
          spec['status'] = st
          yield {'cmd': [op, 0], 'spec': spec, 'salt': rng.randrange(1 << 30)}
    for kind in ('rsa-sign', 'dsa', 'rsa-crypt'):
      for again in (False, True):
        yield {'cmd': ['pubkey', None], 'spec': life.start_spec(rng, kind, 3), 'again': again,
               'salt': rng.randrange(1 << 30)}


class World(object):
  """A scratch directory with the key set (and the crypter's), before the command."""

  def __init__(self, mon, case):
    rng = random.Random(case['salt'])
    self.mon, self.case = mon, case
    self.root = mon.tmpdir()
    self.template = os.path.join(self.root, 'template')
    self.ks = self.model = self.ck = None
    t = os.path.join(self.template, 'keys')
    os.makedirs(t)
    op = case['cmd'][0]
    if case['spec'] is not None:
      self.ks, self.model = life.start(case['spec'], t)
      if case.get('enc'):
        self.ck = gen.keyset({'keys': gen.aes_keys(rng, 2)})
        self.ck.write(os.path.join(self.template, 'crypter'))
        self.ks.encrypted = bool(self.ks.versions)
        if self.ks.versions:
          self.ks.write(t, lambda x: ref.b64(self.ck.primary.key.encrypt(x.encode(), gen.stream(x[-8:], 16))))
      self.old_state = self.state(self.ks)
      # data protected earlier
      self.data = b'earlier data'
      self.protected = []
      for v in self.ks.versions:
        k = v.key
        if self.ks.purpose == 'DECRYPT_AND_ENCRYPT':
          self.protected.append((v.number, ref.b64(k.encrypt(self.data, gen.stream('s%d' % v.number,
                                                                                  16 if k.kind == 'aes' else 20)))))
        else:
          m = self.data + b'\0'
          sig = k.sign(m, 12345) if k.kind == 'dsa' else k.sign(m)
          self.protected.append((v.number, ref.b64(b'\0' + k.id + sig)))
    if op == 'pubkey':
      d = os.path.join(self.template, 'dest')
      os.makedirs(d)
      if case['again']:
        # an export of an earlier state is there already
        old = ref.KeySet(self.ks.purpose, self.ks.type, self.ks.versions[:2], self.ks.name)
        old.public().write(d)
        self.old_export = self.export_state(d)
      else:
        self.old_export = None
    self.n = 0

  def fresh(self):
    self.n += 1
    d = os.path.join(self.root, 'r%d' % self.n)
    shutil.copytree(self.template, d)
    return d

  def decrypt(self, text):
    raw = ref.unb64(text)
    for v in self.ck.versions:
      if v.key.id == raw[1:5]:
        return v.key.decrypt(raw)[0].decode()
    raise ref.FormatError('key file encrypted by an unknown key')

  @staticmethod
  def state(ks):
    return (ks.name, ks.purpose, ks.type, dict((v.number, (v.status, v.exportable, life.key_id(v.key)))
                                               for v in ks.versions))

  @staticmethod
  def export_state(d):
    with open(os.path.join(d, 'meta')) as f:
      m = json.load(f)
    keys = {}
    for v in m['versions']:
      with open(os.path.join(d, str(v['versionNumber']))) as f:
        keys[v['versionNumber']] = json.load(f)
    return m, keys

  def command(self, d):
    """The arguments of the tool."""
    loc = os.path.join(d, 'keys')
    op, x = self.case['cmd'][:2]
    if op == 'create':
      args = ['create', '--location=' + loc, '--purpose=' + x, '--name=nm']
      if self.case['cmd'][2]:
        args.append('--asymmetric=' + self.case['cmd'][2])
      return args
    if op == 'add':
      return life.argv(('add', x), loc, crypter=os.path.join(d, 'crypter') if self.ck else None)
    if op == 'pubkey':
      return ['pubkey', '--location=' + loc, '--destination=' + os.path.join(d, 'dest')]
    return life.argv((op, self.number()), loc)

  def number(self):
    """The version the scripted command is about: the first that it can be applied to."""
    op = self.case['cmd'][0]
    good = []
    for n in sorted(self.model.v):
      m = self.model.copy()
      try:
        m.apply((op, n))
        good.append(n)
      except life.Refused:
        pass
    return good[self.case['salt'] % len(good)]

  # ---- judging what is on disk

  def judge(self, d, how):
    """-> 'old', 'new' or 'both'; a violation if neither."""
    mon = self.mon
    loc = os.path.join(d, 'keys')
    op = self.case['cmd'][0]
    if op == 'create':
      if not os.path.exists(os.path.join(loc, 'meta')):
        return 'old'
      try:
        ks = ref.read_keyset(loc)
      except (OSError, ValueError, KeyError, ref.FormatError) as e:
        mon.violate('%s: the new metadata is broken: %s: %s' % (how, type(e).__name__, e))
      mon.check(ks.versions == [] and ks.name == 'nm', '%s: the metadata is incomplete' % how)
      return 'new'
    try:
      got = self.state(ref.read_keyset(loc, self.decrypt if self.ck else None))
    except (OSError, ValueError, KeyError, ref.FormatError) as e:
      mon.violate('%s: the key set is broken: %s: %s' % (how, type(e).__name__, e), files=sorted(os.listdir(loc)))
    if op == 'pubkey':
      mon.check(got == self.old_state, '%s: the source of the export changed' % how)
      dest = os.path.join(d, 'dest')
      if not os.path.exists(os.path.join(dest, 'meta')):
        mon.check(self.old_export is None, '%s: the earlier export is gone' % how)
        return 'old'
      try:
        m, keys = self.export_state(dest)
      except (OSError, ValueError, KeyError) as e:
        mon.violate('%s: the exported key set is broken: %s: %s' % (how, type(e).__name__, e),
                    files=sorted(os.listdir(dest)))
      pub = self.ks.public()
      want = dict((v.number, pub.key_json(v)) for v in pub.versions)

      def same(a, b):
        return a == b or self._pub(a) == self._pub(b)
      o = mon.call((kz.Encrypter if pub.purpose == 'ENCRYPT' else kz.Verifier).Read, dest)
      mon.check(o.ok, lambda: '%s: the exported key set cannot be opened: %r' % (how, o))
      for n, k in keys.items():
        mon.check(n in want and same(k, want[n]), '%s: an exported key is wrong' % how)
      if self.old_export is not None and m == self.old_export[0]:
        return 'old'
      mon.check(set(keys) == set(want), lambda: '%s: the export has versions %s' % (how, sorted(keys)))
      return 'new'
    if got == self.old_state:
      result = 'old'
    else:
      m = self.model.copy()
      m.apply(('add', self.case['cmd'][1]) if op == 'add' else (op, self.number()))
      mon.check(got[:3] == self.old_state[:3], '%s: name, purpose or type changed' % how)
      mon.check(dict((n, x[0]) for n, x in got[3].items()) == m.v,
                lambda: '%s: the versions are neither those before nor those after the command: %s' % (
                    how, sorted((n, x[0]) for n, x in got[3].items())))
      for n, x in got[3].items():
        if n in self.old_state[3]:
          mon.check(x[1:] == self.old_state[3][n][1:], lambda: '%s: the key of version %d changed' % (how, n))
      result = 'new'
    # keyczar itself opens it, and earlier data is safe
    cls = kz.Crypter if self.ks.purpose == 'DECRYPT_AND_ENCRYPT' else kz.Signer

    def read():
      r = readers.CreateReader(loc)
      if self.ck and got[3]:
        r = readers.EncryptedReader(r, kz.Crypter.Read(os.path.join(d, 'crypter')))
      return cls(r)
    o = mon.call(read)
    mon.check(o.ok, lambda: '%s: the key set cannot be opened: %r' % (how, o), traceback=o.tb)
    for n, blob in self.protected:
      if n in got[3]:
        if cls is kz.Crypter:
          x = mon.call(o.value.Decrypt, blob)
          mon.check(x.ok and x.value == S(self.data), lambda: '%s: earlier data of version %d is lost: %r' % (how, n, x))
        else:
          x = mon.call(o.value.Verify, S(self.data), blob)
          mon.check(x.ok and x.value, lambda: '%s: an earlier signature of version %d is lost: %r' % (how, n, x))
    return result

  @staticmethod
  def _pub(j):
    return dict((k, ref.b2i(ref.unb64(v)) if isinstance(v, str) else v) for k, v in j.items())


def child(mon, w, d, mode, k, err):
  """Runs the command in a forked child with a fault; returns (killed, outcome, log, hit)."""
  r, wr = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      lib = shim.Shim.lib
      args = w.command(d)
      lib.kz_arm(os.path.realpath(d).encode(), mode, k, err)
      o = life.tool(mon, args)
      lib.kz_disarm()
      blob = pickle.dumps((o.ok, repr(o), isinstance(o.exc, errors.KeyczarError), lib.kz_log().decode(), lib.kz_hit()))
      with os.fdopen(wr, 'wb') as f:
        f.write(blob)
    finally:
      os._exit(0)
  os.close(wr)
  chunks = []
  while True:
    c = os.read(r, 1 << 16)
    if not c:
      break
    chunks.append(c)
  os.close(r)
  _, status = os.waitpid(pid, 0)
  if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
    return True, None, None, 1
  if not chunks:
    raise RuntimeError('a child vanished')
  ok, text, documented, log, hit = pickle.loads(b''.join(chunks))
  return False, (ok, text, documented), log, hit


NAMES = {shim.KILL_BEFORE: 'kill before', shim.KILL_AFTER: 'kill after', shim.ERROR: 'error', shim.SHORT_KILL:
         'kill within', shim.SHORT_ERROR: 'short write and error', shim.ERROR_ON: 'persistent error'}


def run(mon, case):
  w = World(mon, case)
  cname = 'addkey' if case['cmd'][0] == 'add' else case['cmd'][0]
  # without faults
  d = w.fresh()
  killed, out, log, _ = child(mon, w, d, shim.NONE, 0, 0)
  mon.check(out[0], lambda: 'the command fails without a fault: %s' % out[1])
  mon.check(w.judge(d, 'no fault') == 'new', 'the command has no effect')
  shutil.rmtree(d)
  mon.event('cmd:' + cname)
  if case.get('enc'):
    mon.event('cmd:addkey-encrypted')
  ops = [l.split(' ', 2) for l in log.splitlines()]
  mon.check(any(o[0] in 'WD' for o in ops), 'the command did not touch any file')
  retry = random.Random(case['salt'])
  for k, (cls, op, path) in enumerate(ops, 1):
    rel = os.path.relpath(path, os.path.realpath(d))
    if cls == 'R':
      modes = [(shim.ERROR, 'eio')]
    elif cls == 'D':
      modes = [(shim.KILL_BEFORE, 'eio'), (shim.KILL_AFTER, 'eio'), (shim.SHORT_KILL, 'eio'), (shim.ERROR, 'enospc'),
               (shim.SHORT_ERROR, 'enospc'), (shim.ERROR_ON, 'eio')]
    else:
      modes = [(shim.KILL_BEFORE, 'eio'), (shim.KILL_AFTER, 'eio'), (shim.ERROR, 'eacces' if op == 'open' else 'eio'),
               (shim.ERROR_ON, 'eio')]
    for mode, err in modes:
      d = w.fresh()
      killed, out, log, hit = child(mon, w, d, mode, k, ERRNO[err])
      how = '%s: %s at call %d (%s %s)' % (cname, NAMES[mode], k, op, rel)
      if not hit:
        shutil.rmtree(d)
        continue
      state = w.judge(d, how)
      mon.event('state:' + state)
      mon.event('op:' + op)
      mon.event('fault:' + NAMES[mode].replace(' ', '-'))
      mon.distinct(case['cmd'], case['spec'], k, op, mode)
      if killed:
        mon.event('killed')
      else:
        mon.event('errors-injected')
        if cls == 'R':
          mon.event('read-errors')
        ok, text, documented = out
        if ok:
          mon.check(state == 'new', lambda: '%s: the command reports success, but nothing happened' % how)
          mon.check(cls in 'MRS', lambda: '%s: the error is not reported' % how)
        else:
          mon.event('reported')
      if retry.random() < .15:
        # the tool still works on what is left
        loc = os.path.join(d, 'keys')
        if os.path.exists(os.path.join(loc, 'meta')):
          before = ref.read_keyset(loc, w.decrypt if w.ck else None)
          if not (before.type.startswith(('RSA', 'DSA'))):
            o = life.tool(mon, life.argv(('add', A), loc, crypter=os.path.join(d, 'crypter') if w.ck else None))
            mon.check(o.ok, lambda: '%s: a later addkey fails: %r' % (how, o))
            after = ref.read_keyset(loc, w.decrypt if w.ck else None)
            have = set(v.number for v in before.versions)
            mon.check(len(after.versions) == len(have) + 1, 'a later addkey did not work')
            for v in before.versions:
              mon.check(any(x.number == v.number and life.key_id(x.key) == life.key_id(v.key) for x in after.versions),
                        '%s: a later addkey lost a key' % how)
        else:
          o = life.tool(mon, w.command(d))
          mon.check(o.ok, lambda: '%s: a second attempt fails: %r' % (how, o))
        mon.event('retried')
      shutil.rmtree(d)
