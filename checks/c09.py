"""C09: every use of randomness is fresh and unpredictable."""
import json
import os
import pickle
import random
import threading

from checks import c08
from kzmon import gen, kit, ref
from kzmon.env import B, S, Entropy, keyczart, keyinfo, keys, kz

ID = 'C09'
LEVEL = 'exploration'
REAL_RANDOM = True
RULE = ('one evaluation = one judgement over recovered random values (length, repetition, bits that vary, bytes related '
        'to each other, entropy really drawn); non-trivial: values were recovered by the reference from real outputs; '
        'distinct by the recovered value')
REQUIRED = ('value:iv', 'value:stream-iv', 'value:k', 'value:oaep', 'value:session-key', 'value:session-nonce',
            'value:signed-session-key', 'value:gen-aes', 'value:gen-hmac', 'value:gen-rsa', 'value:gen-dsa', 'forks',
            'threads', 'reseeded', 'same-plaintext')


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 8
  for i in range(2 * mult):
    for bits in (128, 192, 256):
      yield {'k': 'many', 'what': 'iv', 'key': 'aes%d:%d' % (bits, i), 'n': 3000, 'salt': i}
    yield {'k': 'many', 'what': 'stream-iv', 'key': 'aes128:%d' % i, 'n': 3000, 'salt': i}
    yield {'k': 'many', 'what': 'k', 'key': 'dsa:%d' % i, 'n': 700, 'salt': i}
    yield {'k': 'many', 'what': 'oaep', 'key': 'rsa512:%d' % i, 'n': 1200, 'salt': i}
    yield {'k': 'many', 'what': 'oaep', 'key': 'rsa1024:%d' % i, 'n': 500, 'salt': i}
    yield {'k': 'many', 'what': 'session', 'key': 'aes128:%d' % i, 'n': 1500, 'salt': i}
    yield {'k': 'many', 'what': 'signed-session', 'key': 'aes128:%d' % i, 'n': 1500, 'salt': i}
    for bits in (128, 192, 256):
      yield {'k': 'many', 'what': 'gen-aes', 'bits': bits, 'n': 1500, 'salt': i}
    yield {'k': 'many', 'what': 'gen-hmac', 'n': 2000, 'salt': i}
    yield {'k': 'asym', 'salt': i}
  for i in range(4 * mult):
    yield {'k': 'fork', 'salt': i}
    yield {'k': 'thread', 'salt': i}
    yield {'k': 'seed', 'salt': i}
    yield {'k': 'tool', 'salt': i}


def statistics(mon, what, vals):
  """vals: byte strings of one length; violations only for what random bytes practically never do."""
  n = len(vals)
  size = len(vals[0])
  mon.check(all(len(v) == size for v in vals), '%s: values of different length' % what)
  seen = {}
  for i, v in enumerate(vals):
    mon.check(v not in seen, lambda: '%s: the value of use %d repeats in use %d' % (what, seen[v], i), value=v)
    seen[v] = i
    mon.distinct(what, v)
  # each bit varies: 7 standard deviations
  bound = 7 * (n ** .5) / 2
  for i in range(size):
    col = [v[i] for v in vals]
    for b in range(8):
      ones = sum(c >> b & 1 for c in col)
      mon.check(abs(ones - n / 2.) <= bound, lambda: '%s: bit %d of byte %d of %d is set %d of %d times'
                % (what, b, i, size, ones, n))
      # and is not the bit of the value before, nor alternating
      same = sum((x ^ y) >> b & 1 for x, y in zip(col, col[1:]))
      mon.check(abs(same - n / 2.) <= bound + 1, lambda: '%s: bit %d of byte %d depends on the use before' % (what, b, i))
  # parts: any 4 bytes of a value of at most a few thousand repeat with probability 1e-3
  for i in range(0, size - 3, 4):
    parts = set(v[i:i + 4] for v in vals)
    mon.check(len(parts) >= n - 5, '%s: bytes %d to %d take only %d values in %d uses' % (what, i, i + 4, len(parts), n))
  # no byte follows from another
  for i in range(size):
    for j in range(i + 1, size):
      d = len(set(v[i] ^ v[j] for v in vals[:700]))
      e = len(set((v[i] - v[j]) & 255 for v in vals[:700]))
      mon.check(d > 150 and e > 150, lambda: '%s: byte %d follows from byte %d' % (what, j, i))
  # nor from any linear combination of others
  if n >= 8 * size + 65:
    rank = kit.rank(vals[:8 * size + 200])
    mon.check(rank == 8 * size + 1, lambda: '%s: only %d of %d bits are independent' % (what, rank - 1, 8 * size))
    mon.event('rank')
  mon.event('value:' + what, n)


class Draws(object):
  """Counts the entropy that is really drawn while the body runs."""

  def __init__(self, mon, what, need):
    self.mon, self.what, self.need = mon, what, need

  def __enter__(self):
    self.d, self.x = Entropy.drawn, Entropy.direct

  def __exit__(self, t, v, tb):
    if t is None:
      drawn = Entropy.drawn - self.d
      self.mon.check(drawn >= self.need or Entropy.direct > self.x,
                     lambda: '%s: only %d bytes were taken from the operating system for %d bytes of fresh values'
                     % (self.what, drawn, self.need))


def run(mon, case):
  globals()['_' + case['k']](mon, case)


def _many(mon, case):
  globals()['_' + case['what'].replace('-', '_')](mon, case)


def _iv(mon, case):
  key = gen.key(case['key'])
  c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': [case['key']]}))
  cts = set()
  vals = []
  with Draws(mon, 'IV', 16 * case['n']):
    for i in range(case['n']):
      ct = B(mon.must('Encrypt', c.Encrypt, 'attack at dawn', None))
      vals.append(ct[5:21])
      mon.check(ct not in cts, 'the same plaintext encrypts to the same ciphertext twice')
      cts.add(ct)
  mon.event('same-plaintext', case['n'])
  mon.check(key.decrypt(ct)[1] == vals[-1], 'the IV is not what the ciphertext was encrypted with')
  statistics(mon, 'iv', vals)


def _stream_iv(mon, case):
  key = gen.key(case['key'])
  c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': [case['key']]}))
  vals = []
  with Draws(mon, 'IV of streams', 16 * case['n']):
    for i in range(case['n']):
      sink = kit.Sink()
      w = mon.must('stream', c.CreateEncryptingStreamWriter, sink, None)
      w.write('attack at dawn')
      w.flush()
      vals.append(B(sink.value())[5:21])
  mon.check(key.decrypt(B(sink.value()))[1] == vals[-1], 'the IV is not what the stream was encrypted with')
  statistics(mon, 'stream-iv', vals)


def _k(mon, case):
  key = gen.key(case['key'])
  ks = gen.keyset({'keys': [case['key']], 'purpose': 'sign'})
  signer, un = kit.opened(mon, kz.Signer, ks), kit.opened(mon, kz.UnversionedSigner, ks)
  vals = []
  with Draws(mon, 'DSA nonce', 18 * case['n']):
    for i in range(case['n']):
      if i % 3:
        sig = B(mon.must('Sign', signer.Sign, 'same', None))[5:]
        m = b'same\0'
      else:
        m = b'other %d' % (i % 4)
        sig = B(mon.must('Sign', un.Sign, S(m), None))
      r, s = ref.parse_dsa_sig(sig)
      vals.append(key.recover_k(m, r, s))
  mon.check(len(set(vals)) == len(vals), 'a DSA nonce is used twice', k=vals)
  # (r is a function of k, so repeated r shows it to everyone)
  n = len(vals)
  top = max(v.bit_length() for v in vals)
  mon.check(top >= key.q.bit_length() - 1, 'DSA nonces have at most %d bits' % top)
  mean = sum(v / float(key.q) for v in vals) / n
  mon.check(abs(mean - .5) < 7 * (1 / 12. / n) ** .5, 'DSA nonces are biased: mean %.3f of q' % mean)
  for m in (3, 5, 16, 256):
    mon.check(len(set(v % m for v in vals)) >= min(m, 100) * 9 // 10, 'DSA nonces modulo %d are biased' % m)
  # the lower 18 bytes are uniform
  statistics(mon, 'k', [(v & ((1 << 144) - 1)).to_bytes(18, 'big') for v in vals])


def _oaep(mon, case):
  key = gen.key(case['key'])
  c = kit.opened(mon, kz.Encrypter, gen.keyset({'keys': [case['key']], 'purpose': 'crypt'}).public())
  vals = []
  with Draws(mon, 'OAEP seed', 20 * case['n']):
    cts = [B(mon.must('Encrypt', c.Encrypt, 'same', None)) for _ in range(case['n'])]
  mon.check(len(set(cts)) == len(cts), 'the same plaintext encrypts to the same RSA ciphertext twice')
  mon.event('same-plaintext', case['n'])
  for ct in cts:
    vals.append(key.decrypt(ct)[1])
  statistics(mon, 'oaep', vals)


def _session(mon, case):
  outer = gen.key(case['key'])
  c = kit.opened(mon, kz.Encrypter, gen.keyset({'keys': [case['key']]}))
  vals = []
  with Draws(mon, 'session keys and the envelope IV', 64 * case['n']):
    mats = [mon.must('SessionEncrypter', kz.SessionEncrypter, c).session_material for _ in range(case['n'])]
  for m in mats:
    a, h = c08.unpack(outer.decrypt(ref.unb64(m))[0])
    mon.check(len(a) == 16 and len(h) == 32, 'a session key has %d + %d bytes' % (len(a), len(h)))
    vals.append(a + h)
  statistics(mon, 'session-key', vals)


def _signed_session(mon, case):
  outer = gen.key(case['key'])
  c = kit.opened(mon, kz.Encrypter, gen.keyset({'keys': [case['key']]}))
  s = kit.opened(mon, kz.Signer, gen.keyset({'keys': ['hmac:1']}))
  keys_, nonces = [], []
  with Draws(mon, 'signed session keys, nonces and the envelope IV', 80 * case['n']):
    mats = [mon.must('SignedSessionEncrypter', kz.SignedSessionEncrypter, c, s).session_material
            for _ in range(case['n'])]
  for m in mats:
    j = json.loads(outer.decrypt(ref.unb64(m))[0].decode('ascii'))
    k = ref.AesK.parse(j['key'])
    keys_.append(k.key + k.hmac)
    nonces.append(ref.unb64(j['nonce']))
    mon.check(len(nonces[-1]) >= 16, 'a session nonce has %d bytes' % len(nonces[-1]))
  statistics(mon, 'signed-session-key', keys_)
  statistics(mon, 'session-nonce', nonces)
  statistics(mon, 'session-nonce-and-key', [a + b for a, b in zip(nonces, keys_)])


def _gen_aes(mon, case):
  with Draws(mon, 'AES keys', (case['bits'] // 8 + 32) * case['n']):
    texts = [str(mon.must('GenKey', keys.GenKey, keyinfo.AES, case['bits'])) for _ in range(case['n'])]
  ks = [ref.AesK.parse(json.loads(t)) for t in texts]
  mon.check(all(len(k.key) * 8 == case['bits'] and len(k.hmac) == 32 for k in ks), 'generated AES keys have the wrong size')
  statistics(mon, 'gen-aes', [k.key + k.hmac for k in ks])


def _gen_hmac(mon, case):
  with Draws(mon, 'HMAC keys', 32 * case['n']):
    texts = [str(mon.must('GenKey', keys.GenKey, keyinfo.HMAC_SHA1, 256)) for _ in range(case['n'])]
  ks = [ref.HmacK.parse(json.loads(t)) for t in texts]
  mon.check(all(len(k.key) == 32 for k in ks), 'generated HMAC keys have the wrong size')
  statistics(mon, 'gen-hmac', [k.key for k in ks])


def _asym(mon, case):
  primes = []
  for i in range(4):
    random.seed(5)
    with Draws(mon, 'RSA key', 96):
      k = ref.RsaK.parse(json.loads(str(mon.must('GenKey', keys.GenKey, keyinfo.RSA_PRIV, 1024))))
    primes += [k.p, k.q]
    mon.event('value:gen-rsa')
  mon.check(len(set(primes)) == len(primes), 'generated RSA keys share a prime')
  xs, ys = [], []
  for i in range(3):
    random.seed(5)
    with Draws(mon, 'DSA key', 20):
      k = ref.DsaK.parse(json.loads(str(mon.must('GenKey', keys.GenKey, keyinfo.DSA_PRIV, 1024))))
    xs.append(k.x)
    ys.append(k.y)
    mon.check(k.x.bit_length() > 120, 'a generated DSA key has a short private value: %d bits' % k.x.bit_length())
    mon.event('value:gen-dsa')
  mon.check(len(set(xs)) == len(xs), 'generated DSA keys repeat')
  mon.distinct('asym', case['salt'], primes[0])


def _Values(mon, salt, objs):
  """A few random values of each kind."""
  c, enc, signer, hm, rsa, dsak, rsak, outer = objs
  out = []
  for i in range(4):
    out.append(('iv', B(c.Encrypt('x', None))[5:21]))
    sink = kit.Sink()
    w = c.CreateEncryptingStreamWriter(sink, None)
    w.write('x')
    w.flush()
    out.append(('stream-iv', B(sink.value())[5:21]))
    r, s = ref.parse_dsa_sig(B(signer.Sign('x', None))[5:])
    out.append(('k', dsak.recover_k(b'x\0', r, s)))
    out.append(('oaep', rsak.decrypt(B(rsa.Encrypt('x', None)))[1]))
    out.append(('session-key', outer.decrypt(ref.unb64(kz.SessionEncrypter(c).session_material))[0]))
    j = json.loads(outer.decrypt(ref.unb64(kz.SignedSessionEncrypter(c, hm).session_material))[0])
    out.append(('nonce', j['nonce']))
    out.append(('signed-session-key', j['key']['aesKeyString']))
    out.append(('gen-aes', keys.GenKey(keyinfo.AES).key_string))
    out.append(('gen-hmac', keys.GenKey(keyinfo.HMAC_SHA1).key_string))
  return out


def _Objects(mon, salt):
  spec = ['aes128:%d' % salt]
  c = kit.opened(mon, kz.Crypter, gen.keyset({'keys': spec}))
  signer = kit.opened(mon, kz.Signer, gen.keyset({'keys': ['dsa:%d' % salt]}))
  hm = kit.opened(mon, kz.Signer, gen.keyset({'keys': ['hmac:%d' % salt]}))
  rsa = kit.opened(mon, kz.Encrypter, gen.keyset({'keys': ['rsa1024:%d' % salt], 'purpose': 'crypt'}).public())
  return c, c, signer, hm, rsa, gen.key('dsa:%d' % salt), gen.key('rsa1024:%d' % salt), gen.key(spec[0])


def _Unique(mon, lists, how):
  seen = {}
  for who, l in enumerate(lists):
    for kind, v in l:
      mon.check((kind, v) not in seen, lambda: '%s: the same %s in %s and %s' % (how, kind, seen[kind, v], who), value=v)
      seen[kind, v] = who
      mon.distinct(how, kind, v)


def _fork(mon, case):
  objs = _Objects(mon, case['salt'])
  lists = [mon.must('operations', _Values, mon, 0, objs)]   # warms up whatever might be buffered
  pipes = []
  for i in range(6):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        with os.fdopen(w, 'wb') as f:
          f.write(pickle.dumps(_Values(mon, 0, objs)))
      finally:
        os._exit(0)
    os.close(w)
    pipes.append((pid, r))
  lists.append(mon.must('operations', _Values, mon, 0, objs))
  for pid, r in pipes:
    with os.fdopen(r, 'rb') as f:
      lists.append(pickle.loads(f.read()))
    os.waitpid(pid, 0)
  _Unique(mon, lists, 'forked processes')
  mon.event('forks', len(pipes))


def _thread(mon, case):
  objs = _Objects(mon, case['salt'])
  lists = [None] * 8
  errs = []
  gate = threading.Barrier(8)

  def work(i):
    try:
      gate.wait()
      lists[i] = _Values(mon, 0, objs)
    except BaseException as e:
      errs.append(e)
  ts = [threading.Thread(target=work, args=(i,)) for i in range(8)]
  for t in ts:
    t.start()
  for t in ts:
    t.join()
  mon.check(not errs, lambda: 'an operation fails in a thread: %r' % errs[0])
  _Unique(mon, lists, 'threads')
  mon.event('threads', 8)


def _seed(mon, case):
  """Programs seed the generator of module random, which must not matter."""
  objs = _Objects(mon, case['salt'])
  lists = []
  state = random.getstate()
  try:
    for i in range(5):
      random.seed(4711)
      lists.append(mon.must('operations', _Values, mon, 0, objs))
    random.setstate(state)
    a = random.random()
    random.setstate(state)
    mon.must('operations', _Values, mon, 0, objs)
    lists.append([])
    random.random()
    mon.distinct('state', a)
  finally:
    random.setstate(state)
  _Unique(mon, lists, 'same seed of module random')
  mon.event('reseeded', 5)


def _tool(mon, case):
  """Keys that the tool makes, also with a seeded generator and the same arguments."""
  vals = []
  for i in range(4):
    for purpose in ('crypt', 'sign'):
      loc = mon.tmpdir()
      random.seed(1)
      mon.must('create', keyczart.main, ['create', '--location=' + loc, '--purpose=' + purpose])
      for _ in range(4):
        with Draws(mon, 'addkey', 48 if purpose == 'crypt' else 32):
          mon.must('addkey', keyczart.main, ['addkey', '--location=' + loc, '--status=primary'])
      for v in ref.read_keyset(loc).versions:
        vals += [('key', s) for s in v.key.secrets()]
  _Unique(mon, [vals], 'keys of the tool')
  mon.event('tool', len(vals))
