"""C12: new data uses the primary, old data works until its version is revoked."""
import random

from kzmon import gen, kit, life, ref
from kzmon.env import B, S, errors, kz, util
from kzmon.life import A, I, P

ID = 'C12'
LEVEL = 'exploration'
RULE = ('a (key set state, piece of old data or new operation) pair that was judged: distinct by key type, status of the '
        'version concerned (including revoked), operation and state of the key set')
REQUIRED = tuple('%s:%s' % (w, s) for w in ('old', 'stream-old') for s in (P, A, I)) + (
    'revoked-refused', 'number-reused', 'new:Encrypt', 'new:stream', 'new:Sign', 'new:AttachedSign', 'new:unversioned',
    'new:session', 'noprimary:Encrypt', 'noprimary:stream', 'noprimary:Sign', 'noprimary:AttachedSign',
    'noprimary:unversioned', 'noprimary:session', 'public', 'public-noprimary', 'unversioned-revoked',
    'type:aes', 'type:hmac', 'type:rsa-crypt', 'type:rsa-sign', 'type:dsa', 'kept-object')
ASSUMPTIONS = ()

KINDS = ('aes', 'hmac', 'rsa-crypt', 'rsa-sign', 'dsa')


def cases(rng, tier):
  for i in range(30 if tier == 'quick' else 500):
    for kind in KINDS:
      if kind in ('aes', 'hmac') or i % 3 == 0:
        yield {'kind': kind, 'spec': life.start_spec(rng, kind, rng.choice((1, 2, 3, 5))),
               'salt': rng.randrange(1 << 30), 'steps': 24 if kind in ('aes', 'hmac') else 10}
  for i, n in enumerate((17, 34, 66, 130)):
    for kind in KINDS:
      if kind in ('aes', 'hmac') or n == 34:
        yield {'kind': kind, 'spec': life.start_spec(rng, kind, n), 'salt': rng.randrange(1 << 30), 'steps': 3}
  for kind in KINDS:
    spec = dict(life.start_spec(rng, kind, 3), numbers=[1, 2, 3])
    yield {'kind': kind, 'spec': spec, 'salt': rng.randrange(1 << 30), 'steps': 0,
           'script': 'reuse'}


class Item(object):

  def __init__(self, what, keyid, number, data, blob, nonce=None):
    self.what, self.keyid, self.number, self.data, self.blob, self.nonce = what, keyid, number, data, blob, nonce


def write_stream(c, data):
  sink = kit.Sink()
  w = c.CreateEncryptingStreamWriter(sink)
  w.write(data)
  w.flush()
  return sink.value()


def read_stream(c, blob):
  r = c.CreateDecryptingStreamReader(kit.Source(blob))
  out = []
  while True:
    x = r.read()
    if x == '':
      return ''.join(out)
    if x is not None:
      out.append(x)


def produce(mon, rng, kind, loc, ks, ledger, state):
  """One of each kind of new data from fresh objects; judges that the primary made it."""
  prim = ks.primary
  data = gen.message(gen.msg(rng, maxlen=50))
  nonce = gen.stream('n%d' % rng.randrange(1 << 30), 7)
  ops = []
  if kind in ('aes', 'rsa-crypt'):
    c = mon.must('Crypter.Read', kz.Crypter.Read, loc)
    ops.append(('Encrypt', lambda: c.Encrypt(S(data))))
    ops.append(('Encrypt', lambda: kz.Encrypter.Read(loc).Encrypt(S(data))))
    if kind == 'aes':
      ops.append(('stream', lambda: write_stream(c, S(data))))
      ops.append(('session', lambda: kz.SessionEncrypter(c).session_material))
  else:
    s = mon.must('Signer.Read', kz.Signer.Read, loc)
    ops.append(('Sign', lambda: s.Sign(S(data))))
    ops.append(('AttachedSign', lambda: s.AttachedSign(S(data), S(nonce))))
    ops.append(('unversioned', lambda: kz.UnversionedSigner.Read(loc).Sign(S(data))))
  for what, fn in ops:
    o = mon.call(fn)
    if prim is None:
      mon.check(kit.refused(o), lambda: '%s without a primary version: %r' % (what, o), state=state)
      mon.event('noprimary:' + what)
      mon.distinct(kind, what, 'none', state)
      continue
    mon.check(o.ok, lambda: '%s failed in state %s: %r' % (what, state, o), traceback=o.tb)
    raw = ref.unb64(o.value)
    k = prim.key
    mon.event('new:' + what)
    mon.distinct(kind, what, 'new', state)
    if what == 'unversioned':
      mon.check(k.verify(data, raw), lambda: 'an unversioned signature was not made by primary version %d (state %s)'
                % (prim.number, state))
    else:
      mon.check(raw[:1] == b'\0' and raw[1:5] == k.id, lambda: '%s used key %s, the primary is version %d with key %s '
                '(state %s)' % (what, raw[1:5].hex(), prim.number, k.id.hex(), state))
      if what == 'Sign':
        mon.check(k.verify(data + b'\0', raw[5:]), 'a signature was not made by the key it names')
      elif what == 'AttachedSign':
        mon.check(k.verify(ref.attached_message(data, nonce), ref.attached_parts(raw)[2]),
                  'an attached signature was not made by the key it names')
      elif what != 'session':
        mon.check(k.decrypt(raw)[0] == data, '%s was not made by the key it names' % what)
    if what != 'session':
      ledger.append(Item(what, k.id, prim.number, data, o.value, nonce))
  if kind in ('rsa-crypt', 'rsa-sign', 'dsa') and rng.random() < .5:
    dest = mon.tmpdir()
    o = life.tool(mon, ['pubkey', '--location=' + loc, '--destination=' + dest])
    mon.check(o.ok, lambda: 'pubkey failed: %r' % o)
    if kind == 'rsa-crypt':
      o = mon.call(lambda: kz.Encrypter.Read(dest).Encrypt(S(data)))
      if prim is None:
        mon.check(kit.refused(o), lambda: 'Encrypt with a public key set without primary: %r' % o)
        mon.event('public-noprimary')
      else:
        mon.check(o.ok and prim.key.decrypt(ref.unb64(o.value))[0] == data,
                  lambda: 'the exported key set does not encrypt with the primary: %r' % o)
        ledger.append(Item('Encrypt', prim.key.id, prim.number, data, o.value))
        mon.event('public')
    else:
      old(mon, rng, kind, dest, ks, ledger, state, public=True)


def old(mon, rng, kind, loc, ks, ledger, state, public=False, objs=None):
  """All data made so far against the present state."""
  here = dict((v.key.id, v) for v in ks.versions)
  if objs:
    crypter, signer, unv = objs
  elif kind in ('aes', 'rsa-crypt'):
    crypter = mon.must('Crypter.Read', kz.Crypter.Read, loc)
  else:
    signer = mon.must('Verifier.Read', (kz.Verifier if public or rng.random() < .5 else kz.Signer).Read, loc)
    unv = mon.must('UnversionedVerifier.Read', kz.UnversionedVerifier.Read, loc)
  items = ledger if len(ledger) < 40 else rng.sample(ledger, 40)
  for it in items:
    v = here.get(it.keyid)
    calls = []
    if it.what in ('Encrypt', 'stream'):
      calls.append(('old', mon.call(crypter.Decrypt, it.blob)))
      if kind == 'aes':
        calls.append(('stream-old', mon.call(read_stream, crypter, it.blob)))
    elif it.what == 'Sign':
      calls.append(('old', mon.call(signer.Verify, S(it.data), it.blob)))
    elif it.what == 'AttachedSign':
      calls.append(('old', mon.call(signer.AttachedVerify, it.blob, S(it.nonce))))
    else:
      calls.append(('old', mon.call(unv.Verify, S(it.data), it.blob)))
    for name, o in calls:
      if v is None:
        if it.what == 'unversioned':
          mon.check(kit.rejected(o), lambda: 'an unversioned signature of a revoked key still verifies: %r' % o)
          mon.event('unversioned-revoked')
        else:
          mon.check(kit.refused(o), lambda: '%s data of revoked version %d is not refused with a KeyczarError: %r '
                    '(state %s)' % (it.what, it.number, o, state), traceback=o.tb)
        mon.event('revoked-refused')
      else:
        ok = o.ok and (o.value is True or o.value == 1 if it.what in ('Sign', 'unversioned') else o.value == S(it.data))
        mon.check(ok, lambda: '%s data of version %d, now %s, does not %s: %r (state %s)' % (
            it.what, it.number, v.status, 'decrypt' if kind in ('aes', 'rsa-crypt') else 'verify', o, state),
            traceback=o.tb)
        mon.event('%s:%s' % (name, v.status))
        if public:
          mon.event('public')
      mon.distinct(kind, it.what, name, v and v.status, state, public)


def open_all(mon, kind, loc):
  if kind in ('aes', 'rsa-crypt'):
    return mon.must('Crypter.Read', kz.Crypter.Read, loc), None, None
  return None, mon.must('Signer.Read', kz.Signer.Read, loc), mon.must('Read', kz.UnversionedSigner.Read, loc)


def run(mon, case):
  rng = random.Random(case['salt'])
  kind = case['kind']
  loc = mon.tmpdir()
  ks, model = life.start(case['spec'], loc)
  mon.event('type:' + kind)
  ledger = []
  revoked = set()
  size = 1024 if kind.startswith('rsa') else None
  script = []
  if case.get('script'):
    top = max(model.v)
    # revoke the highest version and let its number be reused
    script = {P: [('demote', top), ('demote', top)], A: [('demote', top)], I: []}[model.v[top]]
    if model.v[top] == I:
      script = [('promote', top), ('promote', top), ('demote', top), ('demote', top)]
    elif model.v[top] == A:
      script = [('promote', top), ('demote', top), ('demote', top)]
    script += [('revoke', top), ('add', P), ('demote', top), ('demote', top), ('revoke', top), ('add', A),
               ('promote', top)]
  produce(mon, rng, kind, loc, ks, ledger, 'start')
  kept = []
  for i in range(len(script) or case['steps']):
    if script:
      cmd = script[i]
    else:
      cmd = life.random_command(rng, model, 1)
      if kind in ('rsa-crypt', 'rsa-sign', 'dsa') and cmd[0] == 'add' and rng.random() < .6 and model.v:
        cmd = (rng.choice(('promote', 'demote')), rng.choice(sorted(model.v)))
        try:
          model.copy().apply(cmd)
        except life.Refused:
          continue
    if kind == 'aes':
      size = rng.choice((128, 192, 256))
    o = life.on_disk(mon, loc, 'tool', cmd, size)
    mon.check(o.ok, lambda: '%s failed: %r' % (cmd, o), traceback=o.tb)
    model.apply(cmd)
    if cmd[0] == 'revoke':
      revoked.add(cmd[1])
    elif cmd[0] == 'add' and max(model.v) in revoked:
      mon.event('number-reused')
    ks = ref.read_keyset(loc)
    mon.check(dict((v.number, v.status) for v in ks.versions) == model.v,
              lambda: 'after %s the state is not as documented' % (cmd,))
    state = ''.join(s[0] for _, s in sorted(model.v.items()))
    old(mon, rng, kind, loc, ks, ledger, state)
    produce(mon, rng, kind, loc, ks, ledger, state)
    # objects opened earlier go on working on the state they were opened with
    if rng.random() < .2 and len(kept) < 3:
      kept.append((open_all(mon, kind, loc), ks))
    for objs, ks0 in kept:
      old(mon, rng, kind, loc, ks0, rng.sample(ledger, min(6, len(ledger))), state, objs=objs)
      mon.event('kept-object')
