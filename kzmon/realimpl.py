"""A Python implementation for the interop runner, as interop/README.md describes it, on top of the real keyczar."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kzmon.env import keyczart, kz, readers, util  # noqa: E402


def reader(a, alg, opts):
  crypted, pub = opts.get('cryptedKeySet', ''), opts.get('pubKey', '')
  r = readers.CreateReader(os.path.join(a['keyPath'], alg + crypted + pub))
  if crypted:
    r = readers.EncryptedReader(r, kz.Crypter.Read(os.path.join(a['keyPath'], crypted)))
  return r


def main(a):
  cmd = a['command']
  if cmd == 'create':
    for c in a['keyczartCommands']:
      if keyczart.main(c):
        return 1
    return 0
  op, alg, data, g = a['operation'], a['algorithm'], a['testData'], a['generateOptions']
  enc = (util.Base64WSEncode if g.get('encoding') == 'encoded' else None)
  dec = (util.Base64WSDecode if g.get('encoding') == 'encoded' else None)
  if cmd == 'generate':
    out = {}
    if op == 'encrypt':
      c = (kz.Encrypter if g['class'] == 'encrypter' else kz.Crypter)(reader(a, alg, g))
      v = c.Encrypt(data, enc)
    elif op == 'sign':
      v = kz.Signer(reader(a, alg, g)).Sign(data, enc)
    elif op == 'attached':
      v = kz.Signer(reader(a, alg, g)).AttachedSign(data, '', enc)
    elif op == 'unversioned':
      v = kz.UnversionedSigner(reader(a, alg, g)).Sign(data, enc)
    elif op == 'signedSession':
      s = kz.Signer(reader(a, g['signer'], {'cryptedKeySet': g.get('cryptedKeySet', '')}))
      c = (kz.Encrypter if g['class'] == 'encrypter' else kz.Crypter)(reader(a, alg, g))
      e = kz.SignedSessionEncrypter(c, s)
      v = e.Encrypt(data)
      out['sessionMaterial'] = e.session_material
    out['output'] = v if op == 'signedSession' else util.Base64WSEncode(v)
    print(json.dumps(out))
    return 0
  v = a['output']['output']
  if op != 'signedSession':
    v = util.Base64WSDecode(v)
  o = dict(a['testOptions'], **{'cryptedKeySet': g.get('cryptedKeySet', '')})
  if op == 'encrypt':
    return 0 if kz.Crypter(reader(a, alg, o)).Decrypt(v, dec) == data else 1
  if op == 'signedSession':
    s = kz.Verifier(reader(a, g['signer'], {'cryptedKeySet': g.get('cryptedKeySet', '')}))
    d = kz.SignedSessionDecrypter(kz.Crypter(reader(a, alg, o)), s, a['output']['sessionMaterial'])
    return 0 if d.Decrypt(v) == data else 1
  if op == 'unversioned':
    c = (kz.UnversionedVerifier if o['class'] == 'verifier' else kz.UnversionedSigner)(reader(a, alg, o))
    return 0 if c.Verify(data, v, dec) else 1
  c = (kz.Verifier if o['class'] == 'verifier' else kz.Signer)(reader(a, alg, o))
  if op == 'sign':
    return 0 if c.Verify(data, v, dec) else 1
  return 0 if c.AttachedVerify(v, '', dec) == data else 1


if __name__ == '__main__':
  sys.exit(main(json.loads(sys.argv[-1])))
