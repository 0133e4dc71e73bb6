"""Workload material: keys, key sets and messages from small JSON-able specs."""
import hashlib
import json
import os

from . import ref

_HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _Load():
  with open(os.path.join(_HERE, 'fixtures', 'asym.json')) as f:
    d = json.load(f)
  rsa = {}
  for k in d['rsa']:
    v = dict((a, int(b, 16)) for a, b in k.items())
    rsa.setdefault(v['n'].bit_length(), []).append(
        ref.RsaK(v['n'], v['e'], v['d'], v['p'], v['q']))
  for k in d['rsa_edge']:    # moduli of unusual length, or with all leading bits set
    v = dict((a, int(b, 16)) for a, b in k.items())
    rsa.setdefault('edge', []).append(ref.RsaK(v['n'], v['e'], v['d'], v['p'], v['q']))
  dsa = []
  for k in d['dsa']:
    v = dict((a, int(b, 16)) for a, b in k.items())
    dsa.append(ref.DsaK(v['p'], v['q'], v['g'], v['y'], v['x']))
  return rsa, dsa


RSA, DSA = _Load()


def rsa_zero():
  """Messages whose RSA signatures begin with two or three zero bytes (found by tools/find_zero.py)."""
  with open(os.path.join(_HERE, 'fixtures', 'rsa_zero.json')) as f:
    return json.load(f)


def twins():
  """Pairs of different keys with the same identifier (found by tools/find_twins.py): {kind: [(spec, spec), ...]}."""
  with open(os.path.join(_HERE, 'fixtures', 'twins.json')) as f:
    return dict((kind, [tuple('%s:twin%d' % (kind, i) for i in pair) for pair in l]) for kind, l in json.load(f).items())


def stream(label, n):
  """n deterministic pseudo random bytes."""
  out = []
  i = 0
  label = str(label).encode('utf-8')
  while 32 * i < n:
    out.append(hashlib.sha256(label + b'/%d' % i).digest())
    i += 1
  return b''.join(out)[:n]


def rsa_pool(kind):
  return kind[3:] if kind == 'rsaedge' else int(kind[3:])


def key(spec):
  """'aes192:7', 'hmac:3', 'rsa1024:0', 'dsa:2' -> reference key."""
  kind, idx = spec.split(':')
  if kind.startswith('aes'):
    bits = int(kind[3:] or 128)
    return ref.AesK(stream('aes/%s' % spec, bits // 8), stream('mac/%s' % spec, 32))
  if kind == 'hmac':
    return ref.HmacK(stream('hmac/%s' % spec, 32))
  if kind.startswith('rsa'):
    l = RSA[rsa_pool(kind)]
    return l[int(idx) % len(l)]
  if kind == 'dsa':
    return DSA[int(idx) % len(DSA)]
  if kind.startswith('ecdsa'):
    from . import ec
    return ec.key(spec)
  raise ValueError(spec)


def keyset(spec):
  """
  {'keys': ['aes128:1', ...], 'status': 'AAP', 'purpose': 'crypt'|'sign',
   'numbers': [1, 2, 3]} -> KeySet; status letters P(rimary) A(ctive) I(nactive).
  """
  keys = [key(k) for k in spec['keys']]
  letters = spec.get('status') or 'A' * (len(keys) - 1) + 'P'
  numbers = spec.get('numbers') or range(1, len(keys) + 1)
  type_ = spec.get('type') or keys[0].type
  purpose = spec.get('purpose')
  if purpose is None:
    purpose = 'crypt' if type_ == 'AES' else 'sign'
  purpose = {'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}[purpose]
  names = {'P': 'PRIMARY', 'A': 'ACTIVE', 'I': 'INACTIVE'}
  return ref.KeySet(purpose, type_,
                    [ref.Version(n, names[c], k) for n, c, k in zip(numbers, letters, keys)],
                    spec.get('name', 'Test'))


PATTERNS = ('rand', 'zero', 'ff', 'lead0', 'trail0', 'one', 'pad', 'nl', 'text', 'high', 'padv', 'ten', 'utf8', 'b64', 'blank')


def message(spec):
  """[pattern, length, salt] -> bytes."""
  pat, n, salt = spec
  if pat == 'rand':
    return stream('m%s' % salt, n)
  if pat == 'zero':
    return b'\0' * n
  if pat == 'ff':
    return b'\xff' * n
  if pat == 'lead0':
    z = min(n, 1 + n // 3)
    return b'\0' * z + stream('l%s' % salt, n - z)
  if pat == 'trail0':
    z = min(n, 1 + n // 3)
    return stream('t%s' % salt, n - z) + b'\0' * z
  if pat == 'one':
    return b'\x01' * n
  if pat == 'pad':
    # ends in what looks like PKCS5 padding
    k = 1 + (n % 16)
    return (stream('p%s' % salt, max(0, n - k)) + bytes([k]) * k)[-n:] if n else b''
  if pat == 'nl':
    return (b'a\r\nb\n c\t\r' * (n // 10 + 1))[:n]
  if pat == 'text':
    return (b'This is some test data. ' * (n // 24 + 1))[:n]
  if pat == 'high':
    return bytes(0x80 | b for b in stream('h%s' % salt, n))
  if pat == 'padv':     # a run of one small value at the end, of any length
    r = hashlib.sha256(b'padv%d' % salt).digest()
    k = min(n, 1 + r[0] % 40)
    return stream('v%s' % salt, n - k) + bytes([1 + r[1] % 16]) * k
  if pat == 'ten':      # what fills a block of padding
    return b'\x10' * n
  if pat == 'utf8':
    return ('n\xe4m\xe9 \u20ac \U0001f511 ' * (n // 10 + 1)).encode('utf-8')[:n] if salt % 2 else (b'\xc3\xa4' * n)[:n]
  if pat == 'b64':
    return (ref.b64(stream('b%s' % salt, n)) + 'A' * n)[:n].encode()
  if pat == 'blank':    # white space around and inside
    return (b' \t\r\n\x0b\x0c\x85\xa0x ' * (n // 9 + 1))[:n]
  raise ValueError(pat)


# lengths at which block, buffer and Base64 arithmetic changes
EDGES = sorted(set(
    list(range(0, 70)) +
    [b + d for b in (80, 96, 112, 128, 144, 160, 192, 240, 255, 256, 257, 512, 768, 1000, 1024, 2048,
                     4096, 8192) for d in (-2, -1, 0, 1, 2)] +
    [4096 - 16, 4096 - 41, 4096 - 20, 4096 - 36, 4096 + 16, 3 * 4096, 10000]))
BIG = [16384 - 1, 16384, 16384 + 1, 32768, 65535, 65536, 65537, 65536 + 16, 100003]

# around powers of two that a careless limit would use
HUGE = [1 << 17, (1 << 17) + 1, (1 << 18) + 3, 1 << 19, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 20) + 20, 1 << 21, 3000017]
ENORMOUS = [(1 << 24) - 1, 1 << 24, (1 << 24) + 5]


def msg_len(rng, big=False):
  x = rng.random()
  if x < 0.55:
    return rng.randrange(0, 80)
  if x < 0.9:
    return rng.choice(EDGES)
  if x < 0.97 or not big:
    return rng.randrange(0, 5000)
  return rng.choice(BIG)


def msg(rng, big=False, maxlen=None):
  n = msg_len(rng, big)
  if maxlen is not None:
    n = min(n, maxlen) if rng.random() < .5 else rng.randrange(0, maxlen + 1)
  return [rng.choice(PATTERNS), n, rng.randrange(1 << 30)]


_counter = [0]


def aes_keys(rng, n=None):
  n = n or rng.choice((1, 1, 2, 3, 5))
  return ['aes%d:%d' % (rng.choice((128, 128, 192, 256)), rng.randrange(10000))
          for _ in range(n)]


def distinct_idx(rng, n, pool):
  l = list(range(pool))
  rng.shuffle(l)
  return l[:n]


def sign_keys(rng, kind=None, n=None):
  kind = kind or rng.choice(('hmac', 'hmac', 'dsa', 'rsa1024', 'rsa2048'))
  n = n or rng.choice((1, 2, 3))
  if kind == 'hmac':
    return ['hmac:%d' % rng.randrange(100000) for _ in range(n)]
  if kind == 'ecdsa':
    return ['ecdsa%d:%d' % (rng.choice((192, 224, 256, 384)), rng.randrange(100000)) for _ in range(n)]
  pool = len(DSA) if kind == 'dsa' else len(RSA[rsa_pool(kind)])
  n = min(n, pool)
  return ['%s:%d' % (kind, i) for i in distinct_idx(rng, n, pool)]


def statuses(rng, n, primary=True):
  l = [rng.choice('AAI') for _ in range(n)]
  if primary:
    l[rng.randrange(n)] = 'P'
  return ''.join(l)
