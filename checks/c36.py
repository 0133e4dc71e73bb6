"""C36: objects of the Java library can be shared by threads: every operation gives the result it gives alone."""
import json
import random

from kzmon import foreign, gen, kit, ref
from checks import c31, c32

ID = 'C36'
LEVEL = 'exploration'
RULE = ('one operation of the Java library executed while other threads use the same objects: distinct by operation, kind of key, number of threads, '
        'neighbouring operation in the request list and outcome')
REQUIRED = ('encrypt', 'decrypt', 'sign', 'verify', 'attach', 'attached', 'unversioned', 'timeout', 'open', 'session', 'refused', 'accepted', 'threads:2', 'threads:8', 'threads:16',
            'aes', 'rsa', 'hmac', 'dsa', 'fresh', 'large', 'crowd', 'threads:32', 'paused')
ASSUMPTIONS = ('the reference in kzmon/ref.py implements the published formats', 'threads run in parallel on the cores of this machine as the scheduler decides',
               'java/org/json behaves as the library of json.org')
CASE_TIMEOUT = {'quick': 300, 'thorough': 600}
SIGN = ('hmac', 'hmac', 'dsa', 'rsa1024')


def setup():
  foreign.setup_java()


def cases(rng, tier):
  q = tier == 'quick'
  for i in range(200 if q else 2400):
    yield {'k': 'crypt', 'set': c31.spec(rng, ('aes', 'aes', 'rsa1024')[i % 3], 'crypt'), 'threads': (2, 4, 8, 16)[i % 4], 'salt': rng.randrange(1 << 30), 'n': 400}
  for i in range(200 if q else 2400):
    yield {'k': 'sign', 'set': c31.spec(rng, SIGN[i % 4], 'sign'), 'threads': (8, 2, 16, 4)[i // 4 % 4], 'salt': rng.randrange(1 << 30), 'n': 400}
  for i in range(24 if q else 240):
    yield {'k': 'crypt', 'set': c31.spec(rng, 'aes', 'crypt'), 'threads': (16, 32)[i % 2], 'salt': rng.randrange(1 << 30), 'n': 700, 'crowd': 48}
    yield {'k': 'sign', 'set': c31.spec(rng, ('hmac', 'rsa1024', 'hmac', 'dsa')[i % 4], 'sign'), 'threads': (32, 16)[i % 2], 'salt': rng.randrange(1 << 30), 'n': 700, 'crowd': 48}
  for i in range(60 if q else 600):
    yield {'k': 'open', 'threads': (8, 16)[i % 2], 'salt': rng.randrange(1 << 30), 'n': 80}
  for i in range(60 if q else 600):
    yield {'k': 'session', 'threads': (8, 16, 2)[i % 3], 'salt': rng.randrange(1 << 30), 'n': 200}


def par(mon, java, case, jobs):
  """The replies, with pauses within the operations in most cases."""
  rate = random.Random(case['salt']).choice((0, 100, 400, 800))
  before = int(java.do('delays', rate))
  replies = java.par(case['threads'], [j[1] for j in jobs])
  n = int(java.do('delays', 0)) - before
  if n:
    mon.event('paused')
    mon.event('pauses', n)
  return replies


def judge(mon, threads, jobs, replies, kind):
  """jobs: (name, request, function of the reply)."""
  mon.event('threads:%d' % threads)
  last = ''
  for (name, req, f), r in zip(jobs, replies):
    mon.check(not (isinstance(r, tuple) and r[0] == 'exc'), lambda: 'Java: in %d threads, %s ends in %s' % (threads, name, r[1][:100]))
    f(r)
    mon.event(name)
    mon.distinct(name, kind, threads, last, r is None)
    last = name


def crypt(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  java.do('delays', 0)
  ks = c32.with_primary(case['set'])
  loc = ks.write(mon.tmpdir())
  prim = ks.primary.key
  mon.event(prim.kind)
  hs = [java.open('Crypter', loc), java.open('Encrypter', loc)]
  for h in hs:
    java.do('encoding', h, 0)
  fast = prim.kind == 'aes'
  jobs, seen = [], set()

  def encrypted(msg):
    def f(r):
      mon.check(isinstance(r, bytes), 'Java: encrypting fails beside other threads')
      try:
        got, rnd = prim.decrypt(r)
      except ref.FormatError as e:
        mon.violate('Java: a ciphertext made beside other threads does not follow the format: %s' % e, ciphertext=r)
      mon.check(got == msg, 'Java: a ciphertext made beside other threads decrypts to something else', got=got, message_=msg)
      mon.check(rnd not in seen, 'Java: two threads use the same IV or seed')
      seen.add(rnd)
      mon.event('fresh')
    return f

  def decrypted(msg):
    def f(r):
      mon.check(r == msg, 'Java: decrypting beside other threads gives %s' % ('another result' if r is not None else 'nothing' if msg is not None else 'a result'),
                got=r, message_=msg)
      mon.event('refused' if msg is None else 'accepted')
    return f

  pool = []
  for v in ks.versions:
    for _ in range(6):
      msg = gen.message(gen.msg(rng, maxlen=80 if not fast else rng.choice((80, 80, 3000, 20000))))
      if v.key.kind == 'rsa':
        msg = msg[:v.key.k - 42]
      if len(msg) > 1100:
        mon.event('large')
      raw = v.key.encrypt(msg, rng.randbytes(16 if v.key.kind == 'aes' else 20))
      pool.append((raw, msg))
      pool.append((kit.flip(raw, rng.randrange(5, len(raw)), 1 << rng.randrange(8)), None))
      pool.append((raw[:rng.randrange(len(raw))], None))
  big = rng.randbytes(60000)
  for i in range(case.get('crowd', 0)):
    # at first all threads are busy with long operations at the same time
    msg = big[i:]
    if i % 2:
      jobs.append(('encrypt', ('encrypt', hs[0], msg), encrypted(msg)))
    else:
      raw = ks.versions[i // 2 % len(ks.versions)].key.encrypt(msg, rng.randbytes(16)) if i < 4 else raw
      jobs.append(('decrypt', ('decrypt', hs[0], raw), decrypted(big[min(i, 2):])))
    mon.event('crowd')
  for i in range(case['n'] if fast else case['n'] // 4):
    if rng.random() < .4:
      msg = gen.message(gen.msg(rng, maxlen=80 if not fast else rng.choice((40, 2000))))
      if not fast:
        msg = msg[:prim.k - 42]
      jobs.append(('encrypt', (rng.choice(('encrypt', 'encrypt', 'encrypt1')), rng.choice(hs), msg), encrypted(msg)))
    else:
      raw, msg = rng.choice(pool)
      jobs.append(('decrypt', (rng.choice(('decrypt', 'decrypt', 'decrypt1')), hs[0], raw), decrypted(msg)))
  judge(mon, case['threads'], jobs, par(mon, java, case, jobs), prim.kind)
  java.done()


def sign(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  java.do('delays', 0)
  ks = c32.with_primary(case['set'])
  loc = ks.write(mon.tmpdir())
  prim = ks.primary.key
  mon.event(prim.kind)
  rn = foreign.Renamed(mon, 'Java')
  s, v, us, uv, ts, tv = hs = [java.open(c, loc) for c in ('Signer', 'Verifier', 'UnversionedSigner', 'UnversionedVerifier', 'TimeoutSigner', 'TimeoutVerifier')]
  for h in hs:
    java.do('encoding', h, 0)
  fast = prim.kind == 'hmac'
  jobs, nonces = [], set()
  hid = b'hidden'
  later = (1 << 62).to_bytes(8, 'big')

  def made(op, msg):
    def f(r):
      mon.check(isinstance(r, bytes), 'Java: signing fails beside other threads', op=op)
      signed, n = {'sign': (msg + b'\0', 5), 'unversioned': (msg, 0), 'attach': (ref.attached_message(msg, hid), 9 + len(msg)), 'timeout': (later + msg + b'\0', 13)}[op]
      mon.check(not n or r[:5] == b'\0' + prim.id, 'Java: wrong header beside other threads')
      c31.holds(rn, prim, signed, r[n:], 'a signature made beside other threads')
      if prim.kind == 'dsa':
        k = prim.recover_k(signed, *ref.parse_dsa_sig(r[n:]))
        mon.check(k not in nonces, 'Java: two threads use the same nonce')
        nonces.add(k)
        mon.event('fresh')
    return f

  def judged(want):
    def f(r):
      mon.check((r is not None) == (want is not False) and (want in (True, False) or r == want), 'Java: beside other threads a %s signature is %s' % (
          ('forged', 'accepted') if want is False else ('genuine', 'refused')), got=r)
      mon.event('refused' if want is False else 'accepted')
    return f

  pool = []
  for ver in ks.versions[:3]:
    for _ in range(4 if fast else 2):
      msg = gen.message(gen.msg(rng, maxlen=rng.choice((60, 3000))))
      if len(msg) > 1100:
        mon.event('large')
      k = ver.key
      a = b'\0' + k.id + c31.genuine(rng, k, msg + b'\0')
      b = c31.genuine(rng, k, msg)
      c = b'\0' + k.id + ref.u32(len(msg)) + msg + c31.genuine(rng, k, ref.attached_message(msg, hid))
      d = b'\0' + k.id + later + c31.genuine(rng, k, later + msg + b'\0')
      other = msg + b'!'
      pool += [('verify', ('verify', rng.choice((s, v)), msg, a), True), ('verify', ('verify', rng.choice((s, v)), other, a), False),
               ('unversioned', ('verify', rng.choice((us, uv)), msg, b), True), ('unversioned', ('verify', rng.choice((us, uv)), other, b), False),
               ('attached', ('attached', rng.choice((s, v)), c, hid), msg), ('attached', ('attached', rng.choice((s, v)), c, b'x'), False),
               ('timeout', ('verify', rng.choice((ts, tv)), msg, d), True), ('timeout', ('verify', rng.choice((ts, tv)), other, d), False)]
  big = rng.randbytes(200000)
  for i in range(case.get('crowd', 0)):
    msg = big[i:]
    if i % 4:
      op = ('sign', 'attach', 'unversioned', 'timeout')[i // 4 % 4]
      req = {'sign': ('sign', s, msg), 'unversioned': ('sign', us, msg), 'attach': ('attach', s, msg, hid), 'timeout': ('tsign', ts, msg, 1 << 62)}[op]
      jobs.append((op, req, made(op, msg)))
    else:
      k = ks.versions[i // 4 % len(ks.versions)].key
      jobs.append(('verify', ('verify', s, msg, b'\0' + k.id + c31.genuine(rng, k, msg + b'\0')), judged(True)))
    mon.event('crowd')
  for i in range(case['n'] if fast else case['n'] // 4):
    if rng.random() < .4:
      op = rng.choice(('sign', 'unversioned', 'attach', 'timeout'))
      msg = gen.message(gen.msg(rng, maxlen=rng.choice((40, 1500))))
      req = {'sign': (rng.choice(('sign', 'sign1')), s, msg), 'unversioned': ('sign', us, msg), 'attach': ('attach', s, msg, hid), 'timeout': ('tsign', ts, msg, 1 << 62)}[op]
      jobs.append((op, req, made(op, msg)))
    else:
      name, req, want = rng.choice(pool)
      jobs.append((name, req, judged(want)))
  judge(mon, case['threads'], jobs, par(mon, java, case, jobs), prim.kind)
  java.done()


def open_(mon, case):
  """Key sets are opened while others are."""
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  java.do('delays', 0)
  sets = []
  for kind in ('aes', 'hmac', 'dsa', 'rsa1024', 'aes', 'hmac'):
    ks = c32.with_primary(c31.spec(rng, kind, 'crypt' if kind == 'aes' else 'sign'))
    sets.append((ks, ks.write(mon.tmpdir())))
  jobs = []

  def opened(ks):
    def f(r):
      mon.check(r is not None, 'Java: a key set cannot be opened beside other threads')
      got.append((ks, r))
    return f

  got = []
  for i in range(case['n']):
    ks, loc = rng.choice(sets)
    jobs.append(('open', ('open', 'Crypter' if ks.type == 'AES' else 'Signer', 'plain', '', loc), opened(ks)))
  replies = par(mon, java, case, jobs)
  judge(mon, case['threads'], jobs, replies, 'open')
  for ks, h in got:
    java.do('encoding', h, 0)
    out = java.do('encrypt' if ks.type == 'AES' else 'sign', h, b'data')
    mon.check(out is not None and out[1:5] == ks.primary.key.id, 'Java: a key set opened beside other threads uses a wrong identifier', got=out)
    for v in ks.versions:
      k = v.key
      ok = java.do('decrypt', h, k.encrypt(b'x', rng.randbytes(16))) == b'x' if ks.type == 'AES' else java.do('verify', h, b'x', b'\0' + k.id + c31.genuine(rng, k, b'x\0'))
      mon.check(ok, 'Java: a key set opened beside other threads does not know its keys')
  java.done()


def session(mon, case):
  rng = random.Random(case['salt'])
  java = foreign.lib(mon)
  java.do('delays', 0)
  cks, sks = c32.with_primary(c31.spec(rng, 'aes', 'crypt')), c32.with_primary(c31.spec(rng, 'hmac', 'sign'))
  cloc, sloc = cks.write(mon.tmpdir()), sks.write(mon.tmpdir())
  ends = []
  for i in range(3):
    e = java.newsession(cloc, sloc)
    blob = java.do('blob', e)
    j = json.loads(cks.primary.key.decrypt(ref.unb64(blob.decode()))[0])
    ends.append((e, java.opensession(cloc, sloc, blob), ref.AesK.parse(j['key']), ref.unb64(j['nonce'])))
  sk = sks.primary.key
  jobs = []

  def made(key, nonce, msg):
    def f(r):
      mon.check(isinstance(r, bytes), 'Java: a session fails beside other threads')
      head, data, sig = ref.attached_parts(ref.unb64(r.decode()))
      mon.check(sk.verify(ref.attached_message(data, nonce), sig), 'Java: a session message made beside other threads has a wrong signature')
      mon.check(key.decrypt(data)[0] == msg, 'Java: a session message made beside other threads is wrong')
    return f

  def read(msg):
    def f(r):
      mon.check(r == msg, 'Java: a session message is read wrongly beside other threads', got=r, message_=msg)
      mon.event('refused' if msg is None else 'accepted')
    return f

  for i in range(case['n']):
    e, d, key, nonce = rng.choice(ends)
    msg = gen.message(gen.msg(rng, maxlen=100))
    if rng.random() < .5:
      jobs.append(('session', ('sessencrypt', e, msg), made(key, nonce, msg)))
    else:
      data = key.encrypt(msg, rng.randbytes(16))
      raw = b'\0' + sk.id + ref.u32(len(data)) + data + sk.sign(ref.attached_message(data, nonce))
      good = rng.random() < .6
      if not good:
        raw = kit.flip(raw, rng.randrange(len(raw)), 1 << rng.randrange(8))
      jobs.append(('session', ('sessdecrypt', d, ref.b64(raw)), read(msg if good else None)))
  judge(mon, case['threads'], jobs, par(mon, java, case, jobs), 'session')
  java.done()


def run(mon, case):
  foreign.use_java()
  {'crypt': crypt, 'sign': sign, 'open': open_, 'session': session}[case['k']](mon, case)
