"""Reference implementation of Keyczar's formats, independent of the code in /repo.

Written from the format documentation (docs/, the wiki pages and the file layout
that all implementations share).  Works on bytes only and uses nothing of keyczar,
PyCrypto, M2Crypto or pyasn1.
"""
import base64
import hashlib
import hmac as _hmac
import json
import os

# ---------------------------------------------------------------- base64, hashes

_ALPHA = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_')


def b64(b):
  return base64.b64encode(b, b'-_').rstrip(b'=').decode('ascii')


def unb64(s):
  """Strict: web safe alphabet, no padding, no stray bits are not checked."""
  raw = s.encode('ascii')
  if not set(raw) <= _ALPHA:
    raise ValueError('not web safe base64: %r' % s[:60])
  if len(raw) % 4 == 1:
    raise ValueError('impossible length')
  return base64.b64decode(raw + b'=' * (-len(raw) % 4), b'-_')


def sha1(b):
  return hashlib.sha1(b).digest()


def hmac_sha1(key, msg):
  if len(key) > 64:
    key = sha1(key)
  key = key + b'\0' * (64 - len(key))
  inner = sha1(bytes(k ^ 0x36 for k in key) + msg)
  return sha1(bytes(k ^ 0x5c for k in key) + inner)


def i2b(n):
  return n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b2i(b):
  return int.from_bytes(b, 'big')


def u32(n):
  return n.to_bytes(4, 'big')


def bignum(n):
  """How key files hold big integers: big endian with a leading zero byte."""
  return b64(b'\0' + i2b(n))

# ---------------------------------------------------------------- AES

_SBOX = [0] * 256


def _InitSbox():
  p = q = 1
  while True:
    p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
    q ^= q << 1
    q ^= q << 2
    q ^= q << 4
    q &= 0xff
    if q & 0x80:
      q ^= 0x09
    x = q ^ (q << 1 | q >> 7) ^ (q << 2 | q >> 6) ^ (q << 3 | q >> 5) ^ (q << 4 | q >> 4)
    _SBOX[p] = (x ^ 0x63) & 0xff
    if p == 1:
      break
  _SBOX[0] = 0x63


_InitSbox()
_INV = [0] * 256
for _i, _v in enumerate(_SBOX):
  _INV[_v] = _i


def _Mul(a, b):
  r = 0
  while b:
    if b & 1:
      r ^= a
    a = ((a << 1) ^ 0x11b) if a & 0x80 else a << 1
    b >>= 1
  return r


_TE = [[0] * 256 for _ in range(4)]
_TD = [[0] * 256 for _ in range(4)]
for _i in range(256):
  _s = _SBOX[_i]
  _w = (_Mul(_s, 2) << 24) | (_s << 16) | (_s << 8) | _Mul(_s, 3)
  _d = _INV[_i]
  _x = (_Mul(_d, 14) << 24) | (_Mul(_d, 9) << 16) | (_Mul(_d, 13) << 8) | _Mul(_d, 11)
  for _j in range(4):
    _TE[_j][_i] = _w
    _TD[_j][_i] = _x
    _w = ((_w >> 8) | (_w << 24)) & 0xffffffff
    _x = ((_x >> 8) | (_x << 24)) & 0xffffffff


class Aes(object):

  def __init__(self, key):
    nk = len(key) // 4
    assert len(key) in (16, 24, 32)
    self.rounds = nk + 6
    w = [b2i(key[4 * i:4 * i + 4]) for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (self.rounds + 1)):
      t = w[-1]
      if i % nk == 0:
        t = ((t << 8) | (t >> 24)) & 0xffffffff
        t = self._SubWord(t) ^ (rcon << 24)
        rcon = _Mul(rcon, 2)
      elif nk > 6 and i % nk == 4:
        t = self._SubWord(t)
      w.append(w[i - nk] ^ t)
    self.ek = w
    dk = []
    for r in range(self.rounds, -1, -1):
      for c in range(4):
        v = w[4 * r + c]
        if 0 < r < self.rounds:
          v = (_TD[0][_SBOX[v >> 24]] ^ _TD[1][_SBOX[(v >> 16) & 255]] ^
               _TD[2][_SBOX[(v >> 8) & 255]] ^ _TD[3][_SBOX[v & 255]])
        dk.append(v)
    self.dk = dk

  @staticmethod
  def _SubWord(t):
    return ((_SBOX[t >> 24] << 24) | (_SBOX[(t >> 16) & 255] << 16) |
            (_SBOX[(t >> 8) & 255] << 8) | _SBOX[t & 255])

  def _Block(self, block, k, T, S, step):
    s = [b2i(block[4 * i:4 * i + 4]) ^ k[i] for i in range(4)]
    T0, T1, T2, T3 = T
    for r in range(1, self.rounds):
      o = 4 * r
      s = [T0[s[c] >> 24] ^ T1[(s[(c + step) & 3] >> 16) & 255] ^
           T2[(s[(c + 2) & 3] >> 8) & 255] ^ T3[s[(c - step) & 3] & 255] ^ k[o + c]
           for c in range(4)]
    o = 4 * self.rounds
    out = b''
    for c in range(4):
      v = ((S[s[c] >> 24] << 24) | (S[(s[(c + step) & 3] >> 16) & 255] << 16) |
           (S[(s[(c + 2) & 3] >> 8) & 255] << 8) | S[s[(c - step) & 3] & 255]) ^ k[o + c]
      out += u32(v)
    return out

  def enc(self, block):
    return self._Block(block, self.ek, _TE, _SBOX, 1)

  def dec(self, block):
    return self._Block(block, self.dk, _TD, _INV, -1)


def _xor(a, b):
  return bytes(x ^ y for x, y in zip(a, b))


def cbc_enc(key, iv, data):
  a, out = Aes(key), []
  for i in range(0, len(data), 16):
    iv = a.enc(_xor(data[i:i + 16], iv))
    out.append(iv)
  return b''.join(out)


def cbc_dec(key, iv, data):
  a, out = Aes(key), []
  for i in range(0, len(data), 16):
    out.append(_xor(a.dec(data[i:i + 16]), iv))
    iv = data[i:i + 16]
  return b''.join(out)


class FormatError(Exception):
  pass

# ---------------------------------------------------------------- asymmetric math


def mgf1(seed, n):
  out = b''
  i = 0
  while len(out) < n:
    out += sha1(seed + u32(i))
    i += 1
  return out[:n]


def oaep_encode(msg, k, seed):
  lhash = sha1(b'')
  if len(msg) > k - 42:
    raise ValueError('too long')
  return oaep_mask(lhash + b'\0' * (k - len(msg) - 42) + b'\x01' + msg, seed)


def oaep_mask(db, seed, first=0):
  """The encoded message for a data block, which may be malformed."""
  mdb = _xor(db, mgf1(seed, len(db)))
  mseed = _xor(seed, mgf1(mdb, 20))
  return bytes([first]) + mseed + mdb


def oaep_decode(em):
  """Strict EME-OAEP decoding (SHA-1, empty label): (message, seed)."""
  k = len(em)
  if em[0] != 0:
    raise FormatError('OAEP: first octet not zero')
  mseed, mdb = em[1:21], em[21:]
  seed = _xor(mseed, mgf1(mdb, 20))
  db = _xor(mdb, mgf1(seed, k - 21))
  if db[:20] != sha1(b''):
    raise FormatError('OAEP: label hash')
  i = 20
  while i < len(db) and db[i] == 0:
    i += 1
  if i == len(db) or db[i] != 1:
    raise FormatError('OAEP: no delimiter')
  return db[i + 1:], seed


DIGEST_INFO = bytes.fromhex('3021300906052b0e03021a05000414')


def emsa(msg, k):
  t = DIGEST_INFO + sha1(msg)
  return b'\0\x01' + b'\xff' * (k - len(t) - 3) + b'\0' + t


def der_int(n):
  b = i2b(n) or b'\0'
  if b[0] & 0x80:
    b = b'\0' + b
  return b'\x02' + der_len(len(b)) + b


def der_len(n):
  if n < 128:
    return bytes([n])
  b = i2b(n)
  return bytes([0x80 | len(b)]) + b


def der_seq(*parts):
  body = b''.join(parts)
  return b'\x30' + der_len(len(body)) + body


def der_octets(b):
  return b'\x04' + der_len(len(b)) + b


def der_bits(b):
  return b'\x03' + der_len(len(b) + 1) + b'\0' + b


RSA_ALG = bytes.fromhex('300d06092a864886f70d0101010500')
DSA_OID = bytes.fromhex('06072a8648ce380401')


def der_read(b, i, tag):
  """Strict DER element of the given tag at i: (content, next index)."""
  if i + 2 > len(b) or b[i] != tag:
    raise FormatError('DER: tag')
  n = b[i + 1]
  i += 2
  if n & 0x80:
    c = n & 0x7f
    n = b2i(b[i:i + c])
    i += c
    if n < 128:
      raise FormatError('DER: non-minimal length')
  if i + n > len(b):
    raise FormatError('DER: truncated')
  return b[i:i + n], i + n


def der_read_int(b, i):
  c, i = der_read(b, i, 2)
  if not c or (len(c) > 1 and c[0] == 0 and not c[1] & 0x80):
    raise FormatError('DER: non-minimal integer')
  if c[0] & 0x80:
    raise FormatError('DER: negative integer')
  return b2i(c), i


def parse_dsa_sig(sig):
  body, end = der_read(sig, 0, 0x30)
  if end != len(sig):
    raise FormatError('DER: trailing data')
  r, i = der_read_int(body, 0)
  s, i = der_read_int(body, i)
  if i != len(body):
    raise FormatError('DER: trailing data')
  return r, s


# ---------------------------------------------------------------- keys


class AesK(object):
  kind = 'aes'
  type = 'AES'
  ID_LENGTH = None

  def __init__(self, key, hmac):
    self.key, self.hmac = key, hmac
    self.size = len(key) * 8

  @property
  def id(self):
    return sha1(u32(self.ID_LENGTH or len(self.key)) + self.key + self.hmac)[:4]

  def json(self):
    return {'mode': 'CBC', 'size': self.size, 'aesKeyString': b64(self.key),
            'hmacKey': {'size': len(self.hmac) * 8, 'hmacKeyString': b64(self.hmac)}}

  @classmethod
  def parse(cls, j):
    if j['mode'] != 'CBC':
      raise FormatError('mode %r' % j['mode'])
    k = cls(unb64(j['aesKeyString']), unb64(j['hmacKey']['hmacKeyString']))
    if k.size != j['size'] or len(k.hmac) * 8 != j['hmacKey']['size']:
      raise FormatError('size field does not match the key')
    return k

  def secrets(self):
    return [self.key, self.hmac]

  def encrypt(self, data, iv):
    pad = 16 - len(data) % 16
    msg = b'\0' + self.id + iv + cbc_enc(self.key, iv, data + bytes([pad]) * pad)
    return msg + hmac_sha1(self.hmac, msg)

  def decrypt(self, ct):
    """Strict: returns (plaintext, iv)."""
    if len(ct) < 5 + 16 + 16 + 20 or (len(ct) - 41) % 16:
      raise FormatError('ciphertext length %d' % len(ct))
    if ct[:5] != b'\0' + self.id:
      raise FormatError('header')
    if hmac_sha1(self.hmac, ct[:-20]) != ct[-20:]:
      raise FormatError('HMAC')
    p = cbc_dec(self.key, ct[5:21], ct[21:-20])
    n = p[-1]
    if not 1 <= n <= 16 or p[-n:] != bytes([n]) * n:
      raise FormatError('PKCS5 padding')
    return p[:-n], ct[5:21]


class HmacK(object):
  kind = 'hmac'
  type = 'HMAC_SHA1'

  def __init__(self, key):
    self.key = key
    self.size = len(key) * 8

  @property
  def id(self):
    return sha1(self.key)[:4]

  def json(self):
    return {'size': self.size, 'hmacKeyString': b64(self.key)}

  @classmethod
  def parse(cls, j):
    k = cls(unb64(j['hmacKeyString']))
    if k.size != j['size']:
      raise FormatError('size field does not match the key')
    return k

  def secrets(self):
    return [self.key]

  def sign(self, msg):
    return hmac_sha1(self.key, msg)

  def verify(self, msg, sig):
    return hmac_sha1(self.key, msg) == sig


def prefix_hash(*parts):
  h = b''
  for p in parts:
    h += u32(len(p)) + p
  return sha1(h)[:4]


class RsaK(object):
  kind = 'rsa'
  type = 'RSA_PRIV'

  def __init__(self, n, e, d, p, q):
    # key files have the larger prime first
    if p < q:
      p, q = q, p
    self.n, self.e, self.d, self.p, self.q = n, e, d, p, q
    self.k = (n.bit_length() + 7) // 8
    self.size = 8 * self.k

  @property
  def id(self):
    return prefix_hash(i2b(self.n), i2b(self.e))

  def pub_json(self):
    return {'modulus': bignum(self.n), 'publicExponent': bignum(self.e), 'size': self.size}

  def json(self):
    return {'publicKey': self.pub_json(),
            'privateExponent': bignum(self.d),
            'primeP': bignum(self.p), 'primeQ': bignum(self.q),
            'primeExponentP': bignum(self.d % (self.p - 1)),
            'primeExponentQ': bignum(self.d % (self.q - 1)),
            'crtCoefficient': bignum(pow(self.q, -1, self.p)),
            'size': self.size}

  @classmethod
  def parse(cls, j):
    n, e = cls.parse_pub(j['publicKey'])
    v = dict((f, b2i(unb64(j[f]))) for f in (
        'privateExponent', 'primeP', 'primeQ', 'primeExponentP', 'primeExponentQ',
        'crtCoefficient'))
    p, q, d = v['primeP'], v['primeQ'], v['privateExponent']
    if p * q != n:
      raise FormatError('p * q != n')
    if (e * d - 1) % (p - 1) or (e * d - 1) % (q - 1):
      raise FormatError('e * d != 1')
    if v['primeExponentP'] != d % (p - 1) or v['primeExponentQ'] != d % (q - 1):
      raise FormatError('CRT exponents')
    if v['crtCoefficient'] * q % p != 1:
      raise FormatError('CRT coefficient is not the inverse of primeQ modulo primeP')
    if n.bit_length() != j['size'] or j['publicKey']['size'] != j['size']:
      raise FormatError('size field does not match the modulus')
    return cls(n, e, d, p, q)

  @staticmethod
  def parse_pub(j):
    return b2i(unb64(j['modulus'])), b2i(unb64(j['publicExponent']))

  def secrets(self):
    return [i2b(x) for x in (self.d, self.p, self.q, self.d % (self.p - 1),
                             self.d % (self.q - 1), pow(self.q, -1, self.p))]

  def raw_private(self, c):
    m1 = pow(c % self.p, self.d % (self.p - 1), self.p)
    m2 = pow(c % self.q, self.d % (self.q - 1), self.q)
    h = (m1 - m2) * pow(self.q, -1, self.p) % self.p
    return m2 + h * self.q

  def encrypt(self, data, seed):
    em = oaep_encode(data, self.k, seed)
    return b'\0' + self.id + pow(b2i(em), self.e, self.n).to_bytes(self.k, 'big')

  def decrypt(self, ct):
    """Returns (plaintext, seed)."""
    if ct[:5] != b'\0' + self.id:
      raise FormatError('header')
    c = b2i(ct[5:])
    if len(ct) - 5 > self.k or c >= self.n:
      raise FormatError('RSA ciphertext length')
    return oaep_decode(self.raw_private(c).to_bytes(self.k, 'big'))

  def sign(self, msg):
    return self.raw_private(b2i(emsa(msg, self.k))).to_bytes(self.k, 'big')

  def verify(self, msg, sig):
    """Mathematically valid, however the integer was encoded."""
    return b2i(sig) < self.n and pow(b2i(sig), self.e, self.n) == b2i(emsa(msg, self.k))


class DsaK(object):
  kind = 'dsa'
  type = 'DSA_PRIV'

  def __init__(self, p, q, g, y, x):
    self.p, self.q, self.g, self.y, self.x = p, q, g, y, x
    self.size = p.bit_length()

  @property
  def id(self):
    return prefix_hash(*[i2b(v) for v in (self.p, self.q, self.g, self.y)])

  def pub_json(self):
    return {'p': bignum(self.p), 'q': bignum(self.q), 'g': bignum(self.g),
            'y': bignum(self.y), 'size': self.size}

  def json(self):
    return {'publicKey': self.pub_json(), 'x': bignum(self.x), 'size': self.size}

  @classmethod
  def parse(cls, j):
    v = cls.parse_pub(j['publicKey'])
    k = cls(v[0], v[1], v[2], v[3], b2i(unb64(j['x'])))
    if pow(k.g, k.x, k.p) != k.y:
      raise FormatError('y != g ** x')
    if (k.p - 1) % k.q or pow(k.g, k.q, k.p) != 1 or k.g in (0, 1):
      raise FormatError('g does not have order q')
    if k.p.bit_length() != j['size'] or j['publicKey']['size'] != j['size']:
      raise FormatError('size field does not match p')
    return k

  @staticmethod
  def parse_pub(j):
    return tuple(b2i(unb64(j[f])) for f in 'pqgy')

  def secrets(self):
    return [i2b(self.x)]

  def sign_rs(self, msg, k):
    r = pow(self.g, k, self.p) % self.q
    s = pow(k, -1, self.q) * (b2i(sha1(msg)) + self.x * r) % self.q
    return r, s

  def sign(self, msg, k):
    r, s = self.sign_rs(msg, k)
    return der_seq(der_int(r), der_int(s))

  def verify_rs(self, msg, r, s):
    q = self.q
    if not (0 < r < q and 0 < s < q):
      return False
    w = pow(s, -1, q)
    u1, u2 = b2i(sha1(msg)) * w % q, r * w % q
    return pow(self.g, u1, self.p) * pow(self.y, u2, self.p) % self.p % q == r

  def verify(self, msg, sig):
    r, s = parse_dsa_sig(sig)
    return self.verify_rs(msg, r, s)

  def recover_k(self, msg, r, s):
    return pow(s, -1, self.q) * (b2i(sha1(msg)) + self.x * r) % self.q


CLASSES = {'AES': AesK, 'HMAC_SHA1': HmacK, 'RSA_PRIV': RsaK, 'DSA_PRIV': DsaK}

# ---------------------------------------------------------------- key sets


class Version(object):

  def __init__(self, number, status, key, exportable=False):
    self.number, self.status, self.key = number, status, key
    self.exportable = exportable


class KeySet(object):
  """A key set as the reference sees it."""

  def __init__(self, purpose, type_, versions=(), name='Test', encrypted=False):
    self.purpose, self.type, self.name = purpose, type_, name
    self.encrypted = encrypted
    self.versions = list(versions)

  def meta(self):
    return {'name': self.name, 'purpose': self.purpose, 'type': self.type,
            'encrypted': self.encrypted,
            'versions': [{'versionNumber': v.number, 'status': v.status,
                          'exportable': v.exportable} for v in self.versions]}

  def key_json(self, v):
    return v.key.json()

  @property
  def primary(self):
    for v in self.versions:
      if v.status == 'PRIMARY':
        return v
    return None

  def public(self):
    """The public half."""
    ps = PublicKeySet({'DECRYPT_AND_ENCRYPT': 'ENCRYPT',
                       'SIGN_AND_VERIFY': 'VERIFY'}[self.purpose],
                      self.type.replace('PRIV', 'PUB'), self.versions, self.name)
    return ps

  def write(self, location, encrypt=None):
    """Writes the files; encrypt: function from the text of a key to its file."""
    if not os.path.isdir(location):
      os.makedirs(location)
    for v in self.versions:
      text = json.dumps(self.key_json(v))
      with open(os.path.join(location, str(v.number)), 'w') as f:
        f.write(encrypt(text) if encrypt else text)
    with open(os.path.join(location, 'meta'), 'w') as f:
      json.dump(self.meta(), f)
    return location


class PublicKeySet(KeySet):

  def key_json(self, v):
    return v.key.pub_json()


class MemReader(object):
  """A reader for a KeySet in memory (readers need not be subclasses of Reader)."""

  def __init__(self, keyset):
    self.meta = json.dumps(keyset.meta())
    self.keys = dict((v.number, json.dumps(keyset.key_json(v))) for v in keyset.versions)

  def GetMetadata(self):
    return self.meta

  def GetKey(self, version_number):
    return self.keys[version_number]

  def Close(self):
    pass


def read_keyset(location, decrypt=None):
  """Parses the files at location strictly into a KeySet."""
  with open(os.path.join(location, 'meta')) as f:
    m = json.load(f)
  if set(m) != set(('name', 'purpose', 'type', 'encrypted', 'versions')):
    raise FormatError('fields of meta: %s' % sorted(m))
  versions = []
  for v in m['versions']:
    if set(v) != set(('versionNumber', 'status', 'exportable')):
      raise FormatError('fields of a version: %s' % sorted(v))
    if v['status'] not in ('PRIMARY', 'ACTIVE', 'INACTIVE'):
      raise FormatError('status %r' % v['status'])
    with open(os.path.join(location, str(v['versionNumber']))) as f:
      text = f.read()
    if m['encrypted']:
      text = decrypt(text)
    j = json.loads(text)
    if m['type'] in CLASSES:
      key = CLASSES[m['type']].parse(j)
    else:
      key = j
    versions.append(Version(v['versionNumber'], v['status'], key, v['exportable']))
  numbers = [v.number for v in versions]
  if len(set(numbers)) != len(numbers):
    raise FormatError('duplicate version numbers')
  if sum(v.status == 'PRIMARY' for v in versions) > 1:
    raise FormatError('several primary versions')
  return KeySet(m['purpose'], m['type'], versions, m['name'], m['encrypted'])

# ---------------------------------------------------------------- formats


def attached_parts(blob):
  """header, data, signature of an attached signature."""
  n = b2i(blob[5:9])
  if 9 + n > len(blob):
    raise FormatError('length field')
  return blob[:5], blob[9:9 + n], blob[9 + n:]


def attached_message(data, nonce):
  return data + u32(len(nonce)) + nonce + b'\0'


def selftest():
  k = bytes(range(32))
  for n, want in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'),
                  (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'),
                  (32, '8ea2b7ca516745bfeafc49904b496089')):
    p = bytes.fromhex('00112233445566778899aabbccddeeff')
    c = Aes(k[:n]).enc(p)
    assert c.hex() == want, (n, c.hex())
    assert Aes(k[:n]).dec(c) == p
  assert hmac_sha1(b'k' * 70, b'abc') == _hmac.new(b'k' * 70, b'abc', 'sha1').digest()
  assert unb64(b64(k)) == k
  s = der_seq(der_int(2**159 + 1), der_int(5))
  assert parse_dsa_sig(s) == (2**159 + 1, 5)
  em = oaep_encode(b'\0\x01x', 128, b's' * 20)
  assert oaep_decode(em) == (b'\0\x01x', b's' * 20)


if __name__ == '__main__':
  selftest()
  print('reference self test ok')
