"""Reference for ECDSA keys, which only the C++ implementation has: curves, DER signatures, key files, identifiers."""
import hashlib

from . import ref

# name: (p, a, b, gx, gy, n, hash)
CURVES = {
    'prime192v1': (0xfffffffffffffffffffffffffffffffeffffffffffffffff, -3, 0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1,
                   0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012, 0x07192b95ffc8da78631011ed6b24cdd573f977a11e794811,
                   0xffffffffffffffffffffffff99def836146bc9b1b4d22831, hashlib.sha256),
    'secp224r1': (2**224 - 2**96 + 1, -3, 0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4,
                  0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21, 0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34,
                  0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d, hashlib.sha256),
    'prime256v1': (2**256 - 2**224 + 2**192 + 2**96 - 1, -3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
                   0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
                   0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
                   0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551, hashlib.sha256),
    'secp384r1': (2**384 - 2**128 - 2**96 + 2**32 - 1, -3,
                  0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
                  0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
                  0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
                  0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973, hashlib.sha384),
}
SIZES = {'prime192v1': 192, 'secp224r1': 224, 'prime256v1': 256, 'secp384r1': 384}


def add(c, P, Q):
  p, a = c[0], c[1]
  if P is None:
    return Q
  if Q is None:
    return P
  if P[0] == Q[0]:
    if (P[1] + Q[1]) % p == 0:
      return None
    l = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
  else:
    l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
  x = (l * l - P[0] - Q[0]) % p
  return x, (l * (P[0] - x) - P[1]) % p


def mul(c, k, P):
  R = None
  while k:
    if k & 1:
      R = add(c, R, P)
    P = add(c, P, P)
    k >>= 1
  return R


class EcdsaK(object):
  kind = 'ecdsa'
  type = 'ECDSA_PRIV'

  def __init__(self, curve, d):
    self.curve, self.c, self.d = curve, CURVES[curve], d
    self.size = SIZES[curve]
    self.Q = mul(self.c, d, (self.c[3], self.c[4]))

  @property
  def public(self):
    w = self.size // 8
    return b'\x04' + self.Q[0].to_bytes(w, 'big') + self.Q[1].to_bytes(w, 'big')

  @property
  def id(self):
    return ref.prefix_hash(self.public, self.curve.encode())

  def pub_json(self):
    return {'publicBytes': ref.b64(self.public), 'namedCurve': self.curve}

  def json(self):
    return {'publicKey': self.pub_json(), 'privateKey': ref.b64(ref.i2b(self.d)), 'namedCurve': self.curve}

  @classmethod
  def parse(cls, j):
    k = cls(j['namedCurve'], ref.b2i(ref.unb64(j['privateKey'])))
    if j['publicKey'] != k.pub_json():
      raise ref.FormatError('the public half does not belong to the private key')
    return k

  def secrets(self):
    return [ref.i2b(self.d)]

  def _hash(self, msg):
    return ref.b2i(self.c[6](msg).digest()[:self.size // 8])

  def sign_rs(self, msg, k):
    n = self.c[5]
    r = mul(self.c, k, (self.c[3], self.c[4]))[0] % n
    return r, pow(k, -1, n) * (self._hash(msg) + r * self.d) % n

  def sign(self, msg, k):
    r, s = self.sign_rs(msg, k)
    return ref.der_seq(ref.der_int(r), ref.der_int(s))

  def verify_rs(self, msg, r, s):
    n = self.c[5]
    if not (0 < r < n and 0 < s < n):
      return False
    w = pow(s, -1, n)
    X = add(self.c, mul(self.c, self._hash(msg) * w % n, (self.c[3], self.c[4])), mul(self.c, r * w % n, self.Q))
    return X is not None and X[0] % n == r

  def verify(self, msg, sig):
    r, s = ref.parse_dsa_sig(sig)
    return self.verify_rs(msg, r, s)

  def recover_k(self, msg, r, s):
    n = self.c[5]
    return pow(s, -1, n) * (self._hash(msg) + r * self.d) % n


ref.CLASSES['ECDSA_PRIV'] = EcdsaK


def key(spec):
  """'ecdsa256:7' -> key."""
  from . import gen
  size, idx = spec[5:].split(':')
  curve = dict((v, k) for k, v in SIZES.items())[int(size)]
  d = ref.b2i(gen.stream('ec/%s' % spec, int(size) // 8 + 8)) % (CURVES[curve][5] - 1) + 1
  return EcdsaK(curve, d)
