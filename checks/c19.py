"""C19: sessions connect exactly the intended parties and messages."""
import json
import random

from kzmon import gen, kit, ref
from kzmon.env import B, S, errors, kz

ID = 'C19'
LEVEL = 'exploration'
RULE = ('one delivery of a message to a session decrypter, with the outcome compared with the ledger of who sent what where: '
        'distinct by kind of session, envelope and signer types, relation of message and decrypter, and alteration')
REQUIRED = ('session:own', 'session:foreign', 'signed:own', 'signed:foreign', 'session:tampered', 'signed:tampered',
            'signed:other-signer', 'signed:other-nonce', 'signed:other-key', 'signed:resigned', 'session:other-envelope',
            'session:wrong-material', 'signed:wrong-material', 'signed:plain-blob', 'envelope:aes', 'envelope:rsa', 'envelope:public',
            'signer:hmac', 'signer:dsa', 'signer:rsa', 'signer:public', 'signer:old-version', 'envelope:old-version', 'churn',
            'second-decrypter', 'crowd', 'raw-encoding', 'session:signed-material')
ASSUMPTIONS = ('session keys and nonces do not repeat by chance',)


def cases(rng, tier):
  for i in range(40 if tier == 'quick' else 600):
    yield {'k': 'ledger', 'salt': rng.randrange(1 << 30), 'n': rng.choice((2, 3, 5, 8)),
           'env': ('aes', 'rsa2048', 'rsa4096', 'aes')[i % 4], 'sig': ('hmac', 'dsa', 'rsa1024')[i % 3]}
  for i in range(16 if tier == 'quick' else 160):
    yield {'k': 'churn', 'salt': rng.randrange(1 << 30), 'n': 40, 'env': 'aes', 'sig': ('hmac', 'hmac', 'dsa')[i % 3],
           'signed': i % 2 == 1}
  for i in range(2 if tier == 'quick' else 20):
    yield {'k': 'crowd', 'salt': rng.randrange(1 << 30), 'n': 500, 'env': 'aes', 'sig': 'hmac', 'signed': i % 2 == 1}
  for i in range(30 if tier == 'quick' else 300):
    yield {'k': 'tamper', 'salt': rng.randrange(1 << 30), 'env': 'aes', 'sig': ('hmac', 'dsa', 'rsa1024')[i % 3]}


class Party(object):
  """The receiver's envelope key set, and the sender's signing key set."""

  def __init__(self, mon, rng, case, label=''):
    self.mon = mon
    env, sig = case['env'], case['sig']
    keys = gen.aes_keys(rng, rng.choice((1, 3))) if env == 'aes' else gen.sign_keys(rng, env, rng.choice((1, 2)))
    self.eks = gen.keyset({'keys': keys, 'status': gen.statuses(rng, len(keys)), 'purpose': 'crypt'})
    keys = gen.sign_keys(rng, sig, rng.choice((1, 3)))
    self.sks = gen.keyset({'keys': keys, 'status': gen.statuses(rng, len(keys))})
    self.crypter = kit.opened(mon, kz.Crypter, self.eks)
    if env != 'aes' and rng.random() < .5:
      self.encrypter = kit.opened(mon, kz.Encrypter, self.eks.public())
      mon.event('envelope:public')
    else:
      self.encrypter = self.crypter
    self.signer = kit.opened(mon, kz.Signer, self.sks)
    src = self.sks
    if sig != 'hmac' and rng.random() < .5:
      src = self.sks.public()
      mon.event('signer:public')
    self.verifier = kit.opened(mon, rng.choice((kz.Verifier, kz.Verifier, kz.Signer)) if src is self.sks else kz.Verifier, src)
    mon.event('envelope:' + ('aes' if env == 'aes' else 'rsa'))
    mon.event('signer:' + sig.rstrip('0123456789'))

  def rotate(self, rng):
    """Another version becomes primary at the sender; the receiver has all versions."""
    for ks, name in ((self.eks, 'envelope'), (self.sks, 'signer')):
      if len(ks.versions) > 1:
        other = rng.choice([v for v in ks.versions if v.status != 'PRIMARY'])
        for v in ks.versions:
          if v.status == 'PRIMARY':
            v.status = 'ACTIVE'
        other.status = 'PRIMARY'
        self.mon.event(name + ':old-version')
    self.crypter = kit.opened(self.mon, kz.Crypter, self.eks)
    self.verifier = kit.opened(self.mon, kz.Verifier, self.sks)


class Session(object):

  def __init__(self, mon, rng, party, signed):
    self.mon, self.party, self.signed = mon, party, signed
    if signed:
      self.e = mon.must('SignedSessionEncrypter', kz.SignedSessionEncrypter, party.encrypter, party.signer)
    else:
      self.e = mon.must('SessionEncrypter', kz.SessionEncrypter, party.encrypter)
    self.material = self.e.session_material
    self.sent = []    # (message, plaintext)
    self.d = None

  def send(self, rng, raw=False):
    data = gen.message(gen.msg(rng, maxlen=100))
    if raw and not self.signed:
      ct = ref.b64(B(self.mon.must('Encrypt', self.e.Encrypt, S(data), None)))
    else:
      ct = self.mon.must('Encrypt', self.e.Encrypt, S(data))
    self.sent.append((ct, data))

  def open(self, party=None):
    p = party or self.party
    if self.signed:
      return kz.SignedSessionDecrypter(p.crypter, p.verifier, self.material)
    return kz.SessionDecrypter(p.crypter, self.material)

  def opened(self):
    return self.mon.must('session decrypter', self.open)

  @property
  def name(self):
    return 'signed' if self.signed else 'session'


def own(mon, s, d, ct, data, raw=False):
  o = mon.call(d.Decrypt, S(ref.unb64(ct)), None) if raw else mon.call(d.Decrypt, ct)
  mon.check(o.ok and isinstance(o.value, str) and B(o.value) == data,
            lambda: 'a %s message does not decrypt to what was sent: %r' % (s.name, o), traceback=o.tb)
  mon.event(s.name + ':own')


def foreign(mon, name, what, d, ct, detail='', **kw):
  o = mon.call(d.Decrypt, ct)
  mon.check(kit.rejected(o), lambda: '%s: a message that was not sent in this session (%s%s) is not refused: %r' % (
      name, what, detail, o), message=ct[:1000], traceback=o.tb, **kw)
  mon.event('%s:%s' % (name, what))


def _ledger(mon, case):
  rng = random.Random(case['salt'])
  party = Party(mon, rng, case)
  other = Party(mon, rng, case)      # possibly with some of the same keys for RSA and DSA
  sessions = []
  todo = case['n'] * 6
  while todo:
    todo -= 1
    x = rng.random()
    if len(sessions) < case['n'] and (not sessions or x < .35):
      sessions.append(Session(mon, rng, rng.choice((party, party, other)), rng.random() < .5))
      continue
    s = rng.choice(sessions)
    if x < .7:
      s.send(rng, rng.random() < .3)
    elif x < .85:
      if s.d is None or rng.random() < .2:
        if s.d is not None:
          mon.event('second-decrypter')
        s.d = s.opened()
    elif s.d is not None and s.sent:
      ct, data = rng.choice(s.sent)
      own(mon, s, s.d, ct, data)
  if rng.random() < .4:
    party.rotate(rng)
  for s in sessions:
    if not s.sent:
      s.send(rng)
    if s.d is None or rng.random() < .5:
      s.d = s.opened()
  # everything to everybody
  for s in sessions:
    for t in sessions:
      for ct, data in rng.sample(t.sent, min(2, len(t.sent))):
        if s is t:
          own(mon, s, s.d, ct, data)
          if not s.signed:
            own(mon, s, s.d, ct, data, True)
            mon.event('raw-encoding')
        else:
          foreign(mon, s.name, 'foreign', s.d, ct)
        mon.distinct('ledger', s.name, t.name, s is t, s.party is t.party, case['env'], case['sig'], len(data))
  ids = set(v.key.id for v in party.eks.versions) & set(v.key.id for v in other.eks.versions)
  for s in sessions:
    if not ids:
      p = other if s.party is party else party
      o = mon.call(s.open, p)
      mon.check(kit.refused(o), lambda: 'session material for another receiver is not refused with a KeyczarError: %r' % o)
      mon.event('session:other-envelope')


def _churn(mon, case):
  """Many sessions, most of which are gone when the next one comes."""
  rng = random.Random(case['salt'])
  party = Party(mon, rng, case)
  log = []
  for i in range(case['n']):
    s = Session(mon, rng, party, case['signed'])
    s.send(rng)
    ct, data = s.sent[0]
    d = s.opened()
    own(mon, s, d, ct, data)
    if log and rng.random() < .5:
      m2, ct2, data2 = rng.choice(log)
      foreign(mon, s.name, 'foreign', d, ct2)
      s2 = Session.__new__(Session)
      s2.mon, s2.party, s2.signed, s2.material = mon, party, case['signed'], m2
      own(mon, s2, s2.opened(), ct2, data2)
    log.append((s.material, ct, data))
    mon.check(len(set(m for m, _, _ in log)) == len(log), 'two sessions have the same material')
    del s, d
    mon.event('churn')
    mon.distinct('churn', case['signed'], i)


def unpack(b):
  out, i = [], 4
  for _ in range(ref.b2i(b[:4])):
    n = ref.b2i(b[i:i + 4])
    out.append(b[i + 4:i + 4 + n])
    i += 4 + n
  return out


def _crowd(mon, case):
  """Very many sessions that all stay in use: what is kept per session must not be mixed up, however it is looked up."""
  rng = random.Random(case['salt'])
  party = Party(mon, rng, case)
  sessions = [Session(mon, rng, party, case['signed']) for _ in range(case['n'])]
  for s in sessions:
    s.send(rng)
    s.d = s.opened()
  for s in sessions:
    own(mon, s, s.d, *s.sent[0])
    s.send(rng)
  group = {}
  for s in sessions:
    # the material says which key the messages are encrypted with
    m = _material(party, s)
    if case['signed']:
      j = json.loads(m)
      key, nonce = ref.AesK.parse(j['key']), ref.unb64(j['nonce'])
    else:
      key, nonce = ref.AesK(*unpack(m)), b''
    for ct, data in s.sent:
      raw = ref.unb64(ct)
      if case['signed']:
        raw = ref.attached_parts(raw)[1]
      mon.check(raw[1:5] == key.id and key.decrypt(raw)[0] == data, 'a message is not encrypted with the key of its session')
    # sessions whose keys look alike in some way
    for look in (('i', key.id[:1]), ('k', key.key[:1]), ('m', key.hmac[:1]), ('n', nonce[:1])):
      group.setdefault(look, []).append(s)
  for look in sorted(group):
    if look[1]:
      a = group[look]
      for s, t in zip(a, a[1:] + a[:1]):
        if s is not t:
          foreign(mon, s.name, 'foreign', s.d, t.sent[0][0])
  last = None
  rng.shuffle(sessions)
  for s in sessions:
    own(mon, s, s.d, *s.sent[1])
    if last:
      foreign(mon, s.name, 'foreign', s.d, last.sent[1][0])
    last = s
  mon.check(len(set(s.material for s in sessions)) == len(sessions), 'two sessions have the same material')
  mon.event('crowd')
  mon.distinct('crowd', case['signed'], case['n'])


def _material(party, s):
  """What the material of s says, by the reference."""
  raw = ref.unb64(s.material)
  key = [v.key for v in party.eks.versions if v.key.id == raw[1:5]][0]
  return key.decrypt(raw)[0]


def _seal(party, rng, blob):
  return ref.b64(party.eks.primary.key.encrypt(blob, rng.randbytes(16)))


def _with_material(mon, party, signed, material):
  s = Session.__new__(Session)
  s.mon, s.party, s.signed, s.material = mon, party, signed, material
  return s


def _tamper(mon, case):
  rng = random.Random(case['salt'])
  party = Party(mon, rng, case)
  for signed in (False, True):
    s, t = Session(mon, rng, party, signed), Session(mon, rng, party, signed)
    s.send(rng)
    t.send(rng)
    ct, data = s.sent[0]
    d = s.opened()
    raw = ref.unb64(ct)
    step = 1 if case['sig'] == 'hmac' else 3
    n = len(raw)
    if signed and case['sig'] == 'dsa':
      n = len(raw) - len(ref.attached_parts(raw)[2])     # the ASN.1 of a signature can be written in several ways: see C06
    for i in range(0, n, step):
      m = kit.flip(raw, i, 1 << rng.randrange(8))
      foreign(mon, s.name, 'tampered', d, ref.b64(m), ' byte %d of %d' % (i, len(raw)))
      mon.distinct('flip', s.name, case['sig'], i, len(raw))
    for m in kit.mutants(rng, raw, 25):
      if signed and m[:n] == raw[:n] and case['sig'] == 'dsa':
        continue
      k = len(raw) - len(ref.attached_parts(raw)[2]) if signed else 0
      if signed and case['sig'] == 'rsa1024' and m[:k] == raw[:k] and m[k:].lstrip(b'\0') == raw[k:].lstrip(b'\0'):
        continue     # the same number
      foreign(mon, s.name, 'tampered', d, ref.b64(m), ' mutant')
    own(mon, s, d, ct, data)
    # material
    mraw = ref.unb64(s.material)
    for i in range(0, len(mraw), 5):
      w = _with_material(mon, party, signed, ref.b64(kit.flip(mraw, i, 1 << rng.randrange(8))))
      o = mon.call(w.open)
      mon.check(kit.refused(o), lambda: 'altered session material is not refused with a KeyczarError: %r' % o, traceback=o.tb)
      mon.event(s.name + ':wrong-material')
  # s, t are signed sessions now
  j, jt = json.loads(_material(party, s)), json.loads(_material(party, t))
  mon.check(j['nonce'] != jt['nonce'] and j['key'] != jt['key'], 'two signed sessions share a nonce or a key')
  mixed = _with_material(mon, party, True, _seal(party, rng, json.dumps(dict(j, nonce=jt['nonce'])).encode()))
  foreign(mon, 'signed', 'other-nonce', mixed.opened(), ct)
  nonce = ref.unb64(j['nonce'])
  for k, n2 in enumerate((b'', nonce[:-1], nonce + b'\0', kit.flip(nonce, rng.randrange(16), 1 << rng.randrange(8)))):
    if nonce.endswith(b'\0\0\0\0') and not n2:
      continue
    mixed = _with_material(mon, party, True, _seal(party, rng, json.dumps(dict(j, nonce=ref.b64(n2))).encode()))
    foreign(mon, 'signed', 'other-nonce', mixed.opened(), ct, ' %d' % k)
    mon.distinct('nonce', k, case['sig'])
  mixed = _with_material(mon, party, True, _seal(party, rng, json.dumps(dict(j, key=jt['key'])).encode()))
  foreign(mon, 'signed', 'other-key', mixed.opened(), ct)
  # the same key and nonce in a new envelope is the same session
  same = _with_material(mon, party, True, _seal(party, rng, json.dumps(j).encode()))
  own(mon, s, same.opened(), ct, data)
  # the other signer
  stranger = Party(mon, rng, case)
  theirs = set(v.key.id for v in stranger.sks.versions)
  mine = set(v.key.id for v in party.sks.versions)
  d2 = mon.must('SignedSessionDecrypter', kz.SignedSessionDecrypter, party.crypter, stranger.verifier, s.material)
  key = ref.AesK.parse(j['key'])
  blob = B(key.encrypt(b'forged', rng.randbytes(16)))
  if not theirs & mine:
    foreign(mon, 'signed', 'other-signer', d2, ct)
    forged = mon.must('AttachedSign', stranger.signer.AttachedSign, S(blob), S(nonce))
    foreign(mon, 'signed', 'other-signer', d, forged, ' forged by another signer')
    fraw = ref.unb64(forged)
    foreign(mon, 'signed', 'other-signer', d, ref.b64(b'\0' + party.sks.primary.key.id + fraw[5:]), ' relabelled')
    mon.distinct('stranger', case['sig'])
  # signed by the right signer, but for another nonce, or no nonce
  for k, n2 in enumerate((ref.unb64(jt['nonce']), b'', nonce[::-1])):
    if n2 == nonce or (not n2 and nonce.endswith(b'\0\0\0\0')):
      continue
    resigned = mon.must('AttachedSign', party.signer.AttachedSign, S(blob), S(n2))
    foreign(mon, 'signed', 'resigned', d, resigned)
    mon.distinct('resigned', k, case['sig'])
  plain = mon.must('AttachedSign', party.signer.AttachedSign, S(blob), None)
  foreign(mon, 'signed', 'resigned', d, plain, ' without nonce')
  # a session message that is not signed at all, and a signed blob that is no ciphertext
  foreign(mon, 'signed', 'plain-blob', d, ref.b64(blob))
  foreign(mon, 'signed', 'plain-blob', d, ct[:6])
  # material of the wrong kind
  u = Session(mon, rng, party, False)
  u.send(rng)
  foreign(mon, 'signed', 'foreign', d, u.sent[0][0])
  du = u.opened()
  foreign(mon, 'session', 'foreign', du, ct)
  mon.event('session:signed-material')
  mon.distinct('kinds', case['sig'])


def run(mon, case):
  {'ledger': _ledger, 'churn': _churn, 'crowd': _crowd, 'tamper': _tamper}[case['k']](mon, case)
