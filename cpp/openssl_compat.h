// Force-included in front of every translation unit of /repo/cpp.
//
// The C++ tree was written for OpenSSL 0.9.8/1.0, whose structures were
// public.  This header gives it those structures back on top of the installed
// OpenSSL 3: RSA, DSA, EVP_PKEY, EVP_CIPHER, EVP_CIPHER_CTX and HMAC_CTX become
// small structures with the members the tree uses, and the functions that
// take them convert to the real ones.  All arithmetic is OpenSSL's.
#ifndef KZ_OPENSSL_COMPAT_H_
#define KZ_OPENSSL_COMPAT_H_

#define OPENSSL_SUPPRESS_DEPRECATED 1
#include <stdlib.h>
#include <string.h>
#include <openssl/asn1.h>
#include <openssl/asn1t.h>
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/crypto.h>
#include <openssl/dsa.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/objects.h>
#include <openssl/opensslv.h>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>

typedef ::RSA KzRealRsa;
typedef ::DSA KzRealDsa;
typedef ::EVP_PKEY KzRealPkey;
typedef ::EVP_CIPHER KzRealCipher;
typedef ::EVP_CIPHER_CTX KzRealCipherCtx;
typedef ::HMAC_CTX KzRealHmacCtx;

struct kz_rsa { BIGNUM *n, *e, *d, *p, *q, *dmp1, *dmq1, *iqmp; };
struct kz_dsa { BIGNUM *p, *q, *g, *pub_key, *priv_key; };
struct kz_pkey {
  KzRealPkey* real;
  int type;
  union { kz_rsa* rsa; kz_dsa* dsa; EC_KEY* ec; } pkey;
};
struct kz_cipher { const KzRealCipher* real; int block_size; int key_len; int iv_len; };
struct kz_cipher_ctx { KzRealCipherCtx* real; };
struct kz_hmac_ctx { KzRealHmacCtx* real; };

inline BIGNUM* kz_dup(const BIGNUM* b) { return b ? BN_dup(b) : NULL; }

// ---- RSA
inline kz_rsa* kz_RSA_new() { return (kz_rsa*) calloc(1, sizeof(kz_rsa)); }
inline void kz_RSA_free(kz_rsa* r) {
  if (!r) return;
  BN_clear_free(r->n); BN_clear_free(r->e); BN_clear_free(r->d);
  BN_clear_free(r->p); BN_clear_free(r->q); BN_clear_free(r->dmp1);
  BN_clear_free(r->dmq1); BN_clear_free(r->iqmp);
  free(r);
}
inline KzRealRsa* kz_real(const kz_rsa* r) {
  if (!r || !r->n || !r->e) return NULL;
  KzRealRsa* k = RSA_new();
  if (!RSA_set0_key(k, kz_dup(r->n), kz_dup(r->e), kz_dup(r->d))) { RSA_free(k); return NULL; }
  if (r->p && r->q) RSA_set0_factors(k, kz_dup(r->p), kz_dup(r->q));
  if (r->dmp1 && r->dmq1 && r->iqmp)
    RSA_set0_crt_params(k, kz_dup(r->dmp1), kz_dup(r->dmq1), kz_dup(r->iqmp));
  return k;
}
inline void kz_take(kz_rsa* r, const KzRealRsa* k) {
  const BIGNUM *n, *e, *d, *p, *q, *a, *b, *c;
  RSA_get0_key(k, &n, &e, &d);
  RSA_get0_factors(k, &p, &q);
  RSA_get0_crt_params(k, &a, &b, &c);
  r->n = kz_dup(n); r->e = kz_dup(e); r->d = kz_dup(d); r->p = kz_dup(p);
  r->q = kz_dup(q); r->dmp1 = kz_dup(a); r->dmq1 = kz_dup(b); r->iqmp = kz_dup(c);
}
inline int kz_RSA_size(const kz_rsa* r) { return BN_num_bytes(r->n); }
inline int kz_RSA_check_key(const kz_rsa* r) {
  KzRealRsa* k = kz_real(r);
  if (!k) return 0;
  int v = RSA_check_key(k);
  RSA_free(k);
  return v;
}
inline int kz_RSA_generate_key_ex(kz_rsa* r, int bits, BIGNUM* e, BN_GENCB* cb) {
  KzRealRsa* k = RSA_new();
  int v = RSA_generate_key_ex(k, bits, e, cb);
  if (v) kz_take(r, k);
  RSA_free(k);
  return v;
}
inline int kz_RSA_sign(int t, const unsigned char* m, unsigned int ml, unsigned char* s,
                       unsigned int* sl, kz_rsa* r) {
  KzRealRsa* k = kz_real(r);
  if (!k) return 0;
  int v = RSA_sign(t, m, ml, s, sl, k);
  RSA_free(k);
  return v;
}
inline int kz_RSA_verify(int t, const unsigned char* m, unsigned int ml, const unsigned char* s,
                         unsigned int sl, kz_rsa* r) {
  KzRealRsa* k = kz_real(r);
  if (!k) return 0;
  int v = RSA_verify(t, m, ml, s, sl, k);
  RSA_free(k);
  return v;
}
inline int kz_RSA_public_encrypt(int l, const unsigned char* f, unsigned char* t, kz_rsa* r, int pad) {
  KzRealRsa* k = kz_real(r);
  if (!k) return -1;
  int v = RSA_public_encrypt(l, f, t, k, pad);
  RSA_free(k);
  return v;
}
inline int kz_RSA_private_decrypt(int l, const unsigned char* f, unsigned char* t, kz_rsa* r, int pad) {
  KzRealRsa* k = kz_real(r);
  if (!k) return -1;
  int v = RSA_private_decrypt(l, f, t, k, pad);
  RSA_free(k);
  return v;
}

// ---- DSA
inline kz_dsa* kz_DSA_new() { return (kz_dsa*) calloc(1, sizeof(kz_dsa)); }
inline void kz_DSA_free(kz_dsa* r) {
  if (!r) return;
  BN_clear_free(r->p); BN_clear_free(r->q); BN_clear_free(r->g);
  BN_clear_free(r->pub_key); BN_clear_free(r->priv_key);
  free(r);
}
inline KzRealDsa* kz_real(const kz_dsa* r) {
  if (!r || !r->p || !r->q || !r->g) return NULL;
  KzRealDsa* k = DSA_new();
  if (!DSA_set0_pqg(k, kz_dup(r->p), kz_dup(r->q), kz_dup(r->g))) { DSA_free(k); return NULL; }
  if (r->pub_key) DSA_set0_key(k, kz_dup(r->pub_key), kz_dup(r->priv_key));
  return k;
}
inline void kz_take(kz_dsa* r, const KzRealDsa* k) {
  const BIGNUM *p, *q, *g, *y, *x;
  kz_dsa old = *r;
  DSA_get0_pqg(k, &p, &q, &g);
  DSA_get0_key(k, &y, &x);
  r->p = kz_dup(p); r->q = kz_dup(q); r->g = kz_dup(g);
  r->pub_key = kz_dup(y); r->priv_key = kz_dup(x);
  BN_free(old.p); BN_free(old.q); BN_free(old.g); BN_free(old.pub_key); BN_free(old.priv_key);
}
inline int kz_DSA_generate_parameters_ex(kz_dsa* r, int bits, const unsigned char* seed, int sl,
                                         int* c, unsigned long* h, BN_GENCB* cb) {
  KzRealDsa* k = DSA_new();
  int v = DSA_generate_parameters_ex(k, bits, seed, sl, c, h, cb);
  if (v) kz_take(r, k);
  DSA_free(k);
  return v;
}
inline int kz_DSA_generate_key(kz_dsa* r) {
  KzRealDsa* k = kz_real(r);
  if (!k) return 0;
  int v = DSA_generate_key(k);
  if (v == 1) kz_take(r, k);
  DSA_free(k);
  return v;
}
inline int kz_DSA_size(const kz_dsa* r) {
  KzRealDsa* k = kz_real(r);
  if (!k) return 0;
  int v = DSA_size(k);
  DSA_free(k);
  return v;
}
inline int kz_DSA_sign(int t, const unsigned char* m, int ml, unsigned char* s, unsigned int* sl, kz_dsa* r) {
  KzRealDsa* k = kz_real(r);
  if (!k) return 0;
  int v = DSA_sign(t, m, ml, s, sl, k);
  DSA_free(k);
  return v;
}
inline int kz_DSA_verify(int t, const unsigned char* m, int ml, const unsigned char* s, int sl, kz_dsa* r) {
  KzRealDsa* k = kz_real(r);
  if (!k) return -1;
  int v = DSA_verify(t, m, ml, s, sl, k);
  DSA_free(k);
  return v;
}

// ---- EVP_PKEY
inline kz_pkey* kz_EVP_PKEY_new() { return (kz_pkey*) calloc(1, sizeof(kz_pkey)); }
inline void kz_EVP_PKEY_free(kz_pkey* p) {
  if (!p) return;
  if (p->type == EVP_PKEY_RSA) kz_RSA_free(p->pkey.rsa);
  else if (p->type == EVP_PKEY_DSA) kz_DSA_free(p->pkey.dsa);
  else if (p->type == EVP_PKEY_EC) EC_KEY_free(p->pkey.ec);
  EVP_PKEY_free(p->real);
  free(p);
}
inline kz_pkey* kz_wrap(KzRealPkey* real) {
  if (!real) return NULL;
  kz_pkey* p = kz_EVP_PKEY_new();
  p->real = real;
  p->type = EVP_PKEY_base_id(real);
  if (p->type == EVP_PKEY_RSA) {
    p->pkey.rsa = kz_RSA_new(); kz_take(p->pkey.rsa, EVP_PKEY_get0_RSA(real));
  } else if (p->type == EVP_PKEY_DSA) {
    p->pkey.dsa = kz_DSA_new(); kz_take(p->pkey.dsa, EVP_PKEY_get0_DSA(real));
  } else if (p->type == EVP_PKEY_EC) {
    p->pkey.ec = EVP_PKEY_get1_EC_KEY(real);
  }
  return p;
}
inline kz_rsa* kz_EVP_PKEY_get1_RSA(kz_pkey* p) {
  if (p->type != EVP_PKEY_RSA) { ERR_raise(ERR_LIB_EVP, EVP_R_EXPECTING_AN_RSA_KEY); return NULL; }
  kz_rsa* r = kz_RSA_new();
  kz_take(r, EVP_PKEY_get0_RSA(p->real));
  return r;
}
inline kz_dsa* kz_EVP_PKEY_get1_DSA(kz_pkey* p) {
  if (p->type != EVP_PKEY_DSA) { ERR_raise(ERR_LIB_EVP, EVP_R_EXPECTING_A_DSA_KEY); return NULL; }
  kz_dsa* r = kz_DSA_new();
  kz_take(r, EVP_PKEY_get0_DSA(p->real));
  return r;
}
inline EC_KEY* kz_EVP_PKEY_get1_EC_KEY(kz_pkey* p) {
  if (p->type != EVP_PKEY_EC) { ERR_raise(ERR_LIB_EVP, EVP_R_EXPECTING_A_EC_KEY); return NULL; }
  return EVP_PKEY_get1_EC_KEY(p->real);
}
inline int kz_EVP_PKEY_set1_RSA(kz_pkey* p, kz_rsa* r) {
  KzRealRsa* k = kz_real(r);
  if (!k) return 0;
  EVP_PKEY_free(p->real);
  p->real = EVP_PKEY_new();
  int v = EVP_PKEY_set1_RSA(p->real, k);
  RSA_free(k);
  return v;
}
inline int kz_EVP_PKEY_set1_DSA(kz_pkey* p, kz_dsa* r) {
  KzRealDsa* k = kz_real(r);
  if (!k) return 0;
  EVP_PKEY_free(p->real);
  p->real = EVP_PKEY_new();
  int v = EVP_PKEY_set1_DSA(p->real, k);
  DSA_free(k);
  return v;
}
inline int kz_EVP_PKEY_set1_EC_KEY(kz_pkey* p, EC_KEY* k) {
  EVP_PKEY_free(p->real);
  p->real = EVP_PKEY_new();
  return EVP_PKEY_set1_EC_KEY(p->real, k);
}
inline kz_pkey* kz_PEM_read_bio_PrivateKey(BIO* b, kz_pkey** x, pem_password_cb* cb, void* u) {
  (void) x;
  return kz_wrap(PEM_read_bio_PrivateKey(b, NULL, cb, u));
}
inline int kz_PEM_write_bio_PKCS8PrivateKey(BIO* b, kz_pkey* p, const kz_cipher* c, char* s, int sl,
                                            pem_password_cb* cb, void* u) {
  return PEM_write_bio_PKCS8PrivateKey(b, p->real, c ? c->real : NULL, s, sl, cb, u);
}

// ---- ciphers
#define KZ_CIPHER(name) \
  inline const kz_cipher* kz_##name() { \
    static kz_cipher c = { name(), EVP_CIPHER_block_size(name()), \
                           EVP_CIPHER_key_length(name()), EVP_CIPHER_iv_length(name()) }; \
    return &c; \
  }
KZ_CIPHER(EVP_aes_128_cbc)
KZ_CIPHER(EVP_aes_192_cbc)
KZ_CIPHER(EVP_aes_256_cbc)
#undef KZ_CIPHER
inline int kz_EVP_CIPHER_iv_length(const kz_cipher* c) { return c->iv_len; }
inline int kz_EVP_CIPHER_key_length(const kz_cipher* c) { return c->key_len; }
inline int kz_EVP_CIPHER_block_size(const kz_cipher* c) { return c->block_size; }
inline void kz_EVP_CIPHER_CTX_init(kz_cipher_ctx* x) { x->real = NULL; }
inline kz_cipher_ctx* kz_EVP_CIPHER_CTX_new() { return (kz_cipher_ctx*) calloc(1, sizeof(kz_cipher_ctx)); }
inline int kz_EVP_CIPHER_CTX_cleanup(kz_cipher_ctx* x) {
  if (x) { EVP_CIPHER_CTX_free(x->real); x->real = NULL; }
  return 1;
}
inline void kz_EVP_CIPHER_CTX_free(kz_cipher_ctx* x) { if (x) { kz_EVP_CIPHER_CTX_cleanup(x); free(x); } }
inline int kz_EVP_CipherInit_ex(kz_cipher_ctx* x, const kz_cipher* c, ENGINE* e, const unsigned char* k,
                                const unsigned char* iv, int enc) {
  if (!x->real) x->real = EVP_CIPHER_CTX_new();
  return EVP_CipherInit_ex(x->real, c ? c->real : NULL, e, k, iv, enc);
}
inline int kz_EVP_CipherUpdate(kz_cipher_ctx* x, unsigned char* o, int* ol, const unsigned char* i, int il) {
  return x->real ? EVP_CipherUpdate(x->real, o, ol, i, il) : 0;
}
inline int kz_EVP_CipherFinal_ex(kz_cipher_ctx* x, unsigned char* o, int* ol) {
  return x->real ? EVP_CipherFinal_ex(x->real, o, ol) : 0;
}
inline int kz_EVP_CIPHER_param_to_asn1(kz_cipher_ctx* x, ASN1_TYPE* t) {
  return EVP_CIPHER_param_to_asn1(x->real, t);
}
inline X509_ALGOR* kz_PKCS5_pbe2_set_iv(const kz_cipher* c, int iter, unsigned char* salt, int sl,
                                        unsigned char* iv, int prf) {
  return PKCS5_pbe2_set_iv(c->real, iter, salt, sl, iv, prf);
}
inline X509_ALGOR* kz_PKCS5_pbe2_set(const kz_cipher* c, int iter, unsigned char* salt, int sl) {
  return PKCS5_pbe2_set(c->real, iter, salt, sl);
}

// ---- HMAC
inline void kz_HMAC_CTX_init(kz_hmac_ctx* x) { x->real = HMAC_CTX_new(); }
inline void kz_HMAC_CTX_cleanup(kz_hmac_ctx* x) { HMAC_CTX_free(x->real); x->real = NULL; }
inline int kz_HMAC_Init_ex(kz_hmac_ctx* x, const void* k, int kl, const EVP_MD* md, ENGINE* e) {
  return HMAC_Init_ex(x->real, k, kl, md, e);
}
inline int kz_HMAC_Update(kz_hmac_ctx* x, const unsigned char* d, size_t l) { return HMAC_Update(x->real, d, l); }
inline int kz_HMAC_Final(kz_hmac_ctx* x, unsigned char* o, unsigned int* ol) { return HMAC_Final(x->real, o, ol); }

inline void kz_EVP_MD_CTX_destroy(EVP_MD_CTX* c) { EVP_MD_CTX_free(c); }
inline void kz_ERR_free_strings() {}
inline void kz_EVP_cleanup() {}

#undef EVP_MD_CTX_create
#undef EVP_MD_CTX_destroy
#undef EVP_MD_size
#define EVP_MD_CTX_create EVP_MD_CTX_new
#define EVP_MD_CTX_destroy kz_EVP_MD_CTX_destroy
#define EVP_MD_size EVP_MD_get_size

#undef EVP_CIPHER_iv_length
#undef EVP_CIPHER_key_length
#undef EVP_CIPHER_block_size
#undef EVP_CIPHER_CTX_init
#undef EVP_CIPHER_CTX_cleanup
#undef EVP_cleanup
#undef ERR_free_strings
#define RSA kz_rsa
#define DSA kz_dsa
#define EVP_PKEY kz_pkey
#define EVP_CIPHER kz_cipher
#define EVP_CIPHER_CTX kz_cipher_ctx
#define HMAC_CTX kz_hmac_ctx
#define RSA_new kz_RSA_new
#define RSA_free kz_RSA_free
#define RSA_size kz_RSA_size
#define RSA_check_key kz_RSA_check_key
#define RSA_generate_key_ex kz_RSA_generate_key_ex
#define RSA_sign kz_RSA_sign
#define RSA_verify kz_RSA_verify
#define RSA_public_encrypt kz_RSA_public_encrypt
#define RSA_private_decrypt kz_RSA_private_decrypt
#define DSA_new kz_DSA_new
#define DSA_free kz_DSA_free
#define DSA_size kz_DSA_size
#define DSA_generate_parameters_ex kz_DSA_generate_parameters_ex
#define DSA_generate_key kz_DSA_generate_key
#define DSA_sign kz_DSA_sign
#define DSA_verify kz_DSA_verify
#define EVP_PKEY_new kz_EVP_PKEY_new
#define EVP_PKEY_free kz_EVP_PKEY_free
#define EVP_PKEY_get1_RSA kz_EVP_PKEY_get1_RSA
#define EVP_PKEY_get1_DSA kz_EVP_PKEY_get1_DSA
#define EVP_PKEY_get1_EC_KEY kz_EVP_PKEY_get1_EC_KEY
#define EVP_PKEY_set1_RSA kz_EVP_PKEY_set1_RSA
#define EVP_PKEY_set1_DSA kz_EVP_PKEY_set1_DSA
#define EVP_PKEY_set1_EC_KEY kz_EVP_PKEY_set1_EC_KEY
#define PEM_read_bio_PrivateKey kz_PEM_read_bio_PrivateKey
#define PEM_write_bio_PKCS8PrivateKey kz_PEM_write_bio_PKCS8PrivateKey
#define EVP_aes_128_cbc kz_EVP_aes_128_cbc
#define EVP_aes_192_cbc kz_EVP_aes_192_cbc
#define EVP_aes_256_cbc kz_EVP_aes_256_cbc
#define EVP_CIPHER_iv_length kz_EVP_CIPHER_iv_length
#define EVP_CIPHER_key_length kz_EVP_CIPHER_key_length
#define EVP_CIPHER_block_size kz_EVP_CIPHER_block_size
#define EVP_CIPHER_CTX_init kz_EVP_CIPHER_CTX_init
#define EVP_CIPHER_CTX_new kz_EVP_CIPHER_CTX_new
#define EVP_CIPHER_CTX_free kz_EVP_CIPHER_CTX_free
#define EVP_CIPHER_CTX_cleanup kz_EVP_CIPHER_CTX_cleanup
#define EVP_CipherInit_ex kz_EVP_CipherInit_ex
#define EVP_CipherUpdate kz_EVP_CipherUpdate
#define EVP_CipherFinal_ex kz_EVP_CipherFinal_ex
#define EVP_CIPHER_param_to_asn1 kz_EVP_CIPHER_param_to_asn1
#define PKCS5_pbe2_set_iv kz_PKCS5_pbe2_set_iv
#define PKCS5_pbe2_set kz_PKCS5_pbe2_set
#define HMAC_CTX_init kz_HMAC_CTX_init
#define HMAC_CTX_cleanup kz_HMAC_CTX_cleanup
#define HMAC_Init_ex kz_HMAC_Init_ex
#define HMAC_Update kz_HMAC_Update
#define HMAC_Final kz_HMAC_Final
#define EVP_cleanup kz_EVP_cleanup
#define ERR_free_strings kz_ERR_free_strings

#endif
