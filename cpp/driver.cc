// Drives the C++ implementation of keyczar for the monitors in kzmon/foreign.py.
// One request per line on descriptor 0: an operation and its arguments, each in
// hexadecimal ("-" is the empty string).  One reply per line on the descriptor
// that was standard output when the process started:
//   ok HEX...   the call succeeded, with these results
//   no          the call reported failure, as its interface says it does
//   exc WHAT    an exception left the library
// The library's own logging goes to the ordinary standard output and error,
// which are redirected to a file by the caller.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <exception>
#include <map>
#include <string>
#include <typeinfo>
#include <vector>

#include <keyczar/base/base64w.h>
#include <keyczar/base/file_path.h>
#include <keyczar/base/json_reader.h>
#include <keyczar/base/json_writer.h>
#include <keyczar/base/scoped_ptr.h>
#include <keyczar/base/values.h>
#include <keyczar/crypto_factory.h>
#include <keyczar/keyczar.h>
#include <keyczar/keyczar_tool/keyczar_tool.h>
#include <keyczar/rw/keyset_encrypted_file_reader.h>
#include <keyczar/rw/keyset_file_reader.h>
#include <keyczar/session.h>

extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
extern "C" void __lsan_disable(void) __attribute__((weak));

using keyczar::Keyczar;

namespace {

typedef std::vector<std::string> Args;

std::string Hex(const std::string& s) {
  static const char digits[] = "0123456789abcdef";
  if (s.empty())
    return "-";
  std::string out;
  out.reserve(2 * s.size());
  for (size_t i = 0; i < s.size(); ++i) {
    const unsigned char c = s[i];
    out.push_back(digits[c >> 4]);
    out.push_back(digits[c & 15]);
  }
  return out;
}

int Digit(char c) {
  return c >= 'a' ? c - 'a' + 10 : c - '0';
}

std::string UnHex(const std::string& s) {
  std::string out;
  if (s == "-")
    return out;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    out.push_back(static_cast<char>(Digit(s[i]) * 16 + Digit(s[i + 1])));
  return out;
}

struct Handles {
  std::map<int, Keyczar*> keyczars;
  std::map<int, keyczar::SignedSessionEncrypter*> encrypters;
  std::map<int, keyczar::SignedSessionDecrypter*> decrypters;
  int next;
  Handles() : next(1) {}
} g;

template <class T>
Keyczar* Open(const std::string& storage, const std::string& secret,
              const std::string& location) {
  if (storage == "plain")
    return T::Read(location);
  if (storage == "crypted") {
    keyczar::Crypter* crypter = keyczar::Crypter::Read(secret);
    if (crypter == NULL)
      return NULL;
    const keyczar::rw::KeysetEncryptedJSONFileReader reader(location, crypter);
    return T::Read(reader);
  }
  if (storage == "pbe") {
    const keyczar::rw::KeysetPBEJSONFileReader reader(location, secret);
    return T::Read(reader);
  }
  abort();
}

Keyczar* OpenKind(const std::string& kind, const std::string& storage,
                  const std::string& secret, const std::string& location) {
  if (kind == "Encrypter")
    return Open<keyczar::Encrypter>(storage, secret, location);
  if (kind == "Crypter")
    return Open<keyczar::Crypter>(storage, secret, location);
  if (kind == "Signer")
    return Open<keyczar::Signer>(storage, secret, location);
  if (kind == "Verifier")
    return Open<keyczar::Verifier>(storage, secret, location);
  if (kind == "UnversionedSigner")
    return Open<keyczar::UnversionedSigner>(storage, secret, location);
  if (kind == "UnversionedVerifier")
    return Open<keyczar::UnversionedVerifier>(storage, secret, location);
  abort();
}

std::string Ok() { return "ok"; }
std::string Ok(const std::string& s) { return "ok " + Hex(s); }
std::string Yes(bool b) { return b ? "ok" : "no"; }
std::string Give(bool b, const std::string& s) { return b ? Ok(s) : "no"; }

std::string Num(int n) {
  char buf[32];
  snprintf(buf, sizeof buf, "ok %d", n);
  return buf;
}

std::string Do(const std::string& op, const Args& a) {
  std::string out;
  if (op == "open") {
    Keyczar* k = OpenKind(a[0], a[1], a[2], a[3]);
    if (k == NULL)
      return "no";
    g.keyczars[g.next] = k;
    return Num(g.next++);
  }
  if (op == "b64enc")
    return Give(keyczar::base::Base64WEncode(a[0], &out), out);
  if (op == "b64dec")
    return Give(keyczar::base::Base64WDecode(a[0], &out), out);
  if (op == "json") {
    std::string error;
    scoped_ptr<keyczar::Value> v(
        keyczar::base::JSONReader::ReadAndReturnError(a[0], a[1] == "1",
                                                      &error));
    if (v.get() == NULL)
      return "no";
    keyczar::base::JSONWriter::Write(v.get(), a[2] == "1", &out);
    return Ok(out);
  }
  if (op == "tool") {
    std::vector<const char*> argv;
    argv.push_back("keyczart");
    for (size_t i = 0; i < a.size(); ++i)
      argv.push_back(a[i].c_str());
    argv.push_back(NULL);
    return Yes(keyczar::keyczar_tool::KeyczarTool::ProcessCommandLine(
        keyczar::keyczar_tool::KeyczarTool::JSON_FILE,
        static_cast<int>(a.size()) + 1, &argv[0]));
  }
  if (op == "newsession") {
    keyczar::Encrypter* e = keyczar::Encrypter::Read(a[0]);
    keyczar::Signer* s = keyczar::Signer::Read(a[1]);
    keyczar::SignedSessionEncrypter* x =
        keyczar::SignedSessionEncrypter::NewSessionEncrypter(
            e, s, atoi(a[2].c_str()));
    if (x == NULL)
      return "no";
    g.encrypters[g.next] = x;
    return Num(g.next++);
  }
  if (op == "opensession") {
    keyczar::Crypter* c = keyczar::Crypter::Read(a[0]);
    keyczar::Verifier* v = keyczar::Verifier::Read(a[1]);
    keyczar::SignedSessionDecrypter* x =
        keyczar::SignedSessionDecrypter::NewSessionDecrypter(c, v, a[2]);
    if (x == NULL)
      return "no";
    g.decrypters[g.next] = x;
    return Num(g.next++);
  }
  if (op == "leaks") {
    if (__lsan_do_recoverable_leak_check == NULL)
      return "no";
    return Num(__lsan_do_recoverable_leak_check());
  }
  if (op == "leak") {         // a control for the sanitizer: lose 17 bytes
    char* volatile p = static_cast<char*>(malloc(17));
    p[0] = 1;
    p = NULL;
    return Ok();
  }
  if (op == "smash") {        // and another: one byte too far
    char* volatile p = static_cast<char*>(malloc(17));
    p[17] = 1;
    free(p);
    return Ok();
  }
  if (op == "overflow") {     // and one for undefined behaviour
    volatile int n = 0x7fffffff;
    n = n + static_cast<int>(a.size());
    return Ok();
  }
  const int h = atoi(a[0].c_str());
  if (op == "closeall") {
    for (std::map<int, Keyczar*>::iterator i = g.keyczars.begin();
         i != g.keyczars.end(); ++i)
      delete i->second;
    for (std::map<int, keyczar::SignedSessionEncrypter*>::iterator i =
         g.encrypters.begin(); i != g.encrypters.end(); ++i)
      delete i->second;
    for (std::map<int, keyczar::SignedSessionDecrypter*>::iterator i =
         g.decrypters.begin(); i != g.decrypters.end(); ++i)
      delete i->second;
    g.keyczars.clear();
    g.encrypters.clear();
    g.decrypters.clear();
    return Ok();
  }
  if (g.encrypters.count(h)) {
    keyczar::SignedSessionEncrypter* x = g.encrypters[h];
    if (op == "encoding") {
      x->set_encoding(a[1] == "1" ? Keyczar::BASE64W : Keyczar::NO_ENCODING);
      return Ok();
    }
    if (op == "blob") {
      const bool b = x->EncryptedSessionBlob(&out);
      return Give(b, out);
    }
    if (op == "sessencrypt") {
      const bool b = x->SessionEncrypt(a[1], &out);
      return Give(b, out);
    }
    abort();
  }
  if (g.decrypters.count(h)) {
    keyczar::SignedSessionDecrypter* x = g.decrypters[h];
    if (op == "encoding") {
      x->set_encoding(a[1] == "1" ? Keyczar::BASE64W : Keyczar::NO_ENCODING);
      return Ok();
    }
    if (op == "sessdecrypt") {
      const bool b = x->SessionDecrypt(a[1], &out);
      return Give(b, out);
    }
    abort();
  }
  if (!g.keyczars.count(h))
    abort();
  Keyczar* k = g.keyczars[h];
  if (op == "encoding") {
    k->set_encoding(a[1] == "1" ? Keyczar::BASE64W : Keyczar::NO_ENCODING);
    return Ok();
  }
  if (op == "compression") {
    k->set_compression(a[1] == "2" ? Keyczar::ZLIB :
                       a[1] == "1" ? Keyczar::GZIP : Keyczar::NO_COMPRESSION);
    return Ok();
  }
  bool b;
  if (op == "encrypt") {
    b = k->Encrypt(a[1], &out);
    return Give(b, out);
  }
  if (op == "decrypt") {
    b = k->Decrypt(a[1], &out);
    return Give(b, out);
  }
  if (op == "sign") {
    b = k->Sign(a[1], &out);
    return Give(b, out);
  }
  if (op == "verify")
    return Yes(k->Verify(a[1], a[2]));
  if (op == "attach") {
    b = k->AttachedSign(a[1], a[2], &out);
    return Give(b, out);
  }
  if (op == "attached") {
    b = k->AttachedVerify(a[1], a[2], &out);
    return Give(b, out);
  }
  if (op == "peek") {
    b = k->GetAttachedWithoutVerify(a[1], &out);
    return Give(b, out);
  }
  // The overloads that return their result, empty on failure.
  if (op == "encrypt1")
    return Ok(k->Encrypt(a[1]));
  if (op == "decrypt1")
    return Ok(k->Decrypt(a[1]));
  if (op == "sign1")
    return Ok(k->Sign(a[1]));
  if (op == "attach1")
    return Ok(k->AttachedSign(a[1], a[2]));
  abort();
}

}  // namespace

int main() {
  const int reply = dup(1);
  dup2(2, 1);
  FILE* out = fdopen(reply, "w");
  // Nobody answers a prompt for a password.
  FILE* in = fdopen(dup(0), "r");
  const int null = open("/dev/null", O_RDONLY);
  dup2(null, 0);
  close(null);
  keyczar::CryptoFactory::Rand();
  std::string line;
  int c;
  while ((c = getc(in)) != EOF) {
    if (c != '\n') {
      line.push_back(static_cast<char>(c));
      continue;
    }
    Args args;
    size_t i = line.find(' ');
    const std::string op = line.substr(0, i);
    while (i != std::string::npos) {
      const size_t j = line.find(' ', i + 1);
      args.push_back(UnHex(line.substr(i + 1, j == std::string::npos ?
                                       j : j - i - 1)));
      i = j;
    }
    line.clear();
    std::string answer;
    try {
      answer = Do(op, args);
    } catch (const std::exception& e) {
      answer = std::string("exc ") + typeid(e).name() + ": " + e.what();
    } catch (...) {
      answer = "exc something";
    }
    fprintf(out, "%s\n", answer.c_str());
    fflush(out);
    fflush(stdout);
  }
  _exit(0);
}
