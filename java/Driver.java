// Drives the Java implementation of keyczar for the monitors in kzmon/foreign.py,
// with the protocol of cpp/driver.cc:
//   ok HEX...   the call succeeded
//   no          the call reported failure: false, or a KeyczarException
//   exc WHAT    anything else left the library
import java.io.ByteArrayOutputStream;
import java.io.FileDescriptor;
import java.io.FileInputStream;
import java.io.FileOutputStream;
import java.io.IOException;
import java.io.InputStream;
import java.io.PrintStream;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.atomic.AtomicInteger;
import org.keyczar.*;
import org.keyczar.enums.KeyPurpose;
import org.keyczar.enums.RsaPadding;
import org.keyczar.exceptions.KeyczarException;
import org.keyczar.interfaces.KeyczarReader;
import org.keyczar.util.Base64Coder;

public class Driver {
  static final class Handle {
    Object o;
    String blob;          // session material
    volatile boolean base64 = true;
  }

  static final ConcurrentHashMap<Integer, Handle> handles = new ConcurrentHashMap<>();
  static final AtomicInteger next = new AtomicInteger(1);
  static final String NO = "no";

  static String hex(byte[] b) {
    if (b.length == 0) return "-";
    char[] out = new char[2 * b.length];
    for (int i = 0; i < b.length; i++) {
      out[2 * i] = Character.forDigit((b[i] >> 4) & 15, 16);
      out[2 * i + 1] = Character.forDigit(b[i] & 15, 16);
    }
    return new String(out);
  }

  static byte[] unhex(String s) {
    if (s.equals("-")) return new byte[0];
    byte[] out = new byte[s.length() / 2];
    for (int i = 0; i < out.length; i++)
      out[i] = (byte) (Character.digit(s.charAt(2 * i), 16) << 4 | Character.digit(s.charAt(2 * i + 1), 16));
    return out;
  }

  static String utf(byte[] b) { return new String(b, StandardCharsets.UTF_8); }
  static String latin(byte[] b) { return new String(b, StandardCharsets.ISO_8859_1); }
  static String ok(byte[] b) { return "ok " + hex(b); }
  static String okText(String s) { return ok(s.getBytes(StandardCharsets.UTF_8)); }
  static String yes(boolean b) { return b ? "ok" : NO; }
  static int num(byte[] b) { return Integer.parseInt(latin(b)); }

  static KeyczarReader reader(String storage, String secret, String location) throws KeyczarException {
    if (storage.equals("x509") || storage.equals("pkcs8")) {
      // secret: purpose, padding or nothing, passphrase
      String[] p = secret.split(";", 3);
      RsaPadding padding = p[1].isEmpty() ? null : RsaPadding.valueOf(p[1]);
      InputStream in;
      try {
        in = new FileInputStream(location);
      } catch (IOException e) {
        throw new AssertionError(e);
      }
      KeyPurpose purpose = KeyPurpose.valueOf(p[0]);
      return storage.equals("x509") ? new X509CertificateReader(purpose, in, padding) : new PkcsKeyReader(purpose, in, padding, p[2].isEmpty() ? null : p[2]);
    }
    KeyczarReader r = new KeyczarFileReader(location);
    if (storage.equals("crypted")) r = new KeyczarEncryptedReader(r, new Crypter(secret));
    return r;
  }

  static Object open(String kind, String storage, String secret, String loc) throws KeyczarException {
    boolean plain = storage.equals("plain");
    switch (kind) {
      case "Encrypter": return plain ? new Encrypter(loc) : new Encrypter(reader(storage, secret, loc));
      case "Crypter": return plain ? new Crypter(loc) : new Crypter(reader(storage, secret, loc));
      case "Signer": return plain ? new Signer(loc) : new Signer(reader(storage, secret, loc));
      case "Verifier": return plain ? new Verifier(loc) : new Verifier(reader(storage, secret, loc));
      case "UnversionedSigner": return plain ? new UnversionedSigner(loc) : new UnversionedSigner(reader(storage, secret, loc));
      case "UnversionedVerifier": return plain ? new UnversionedVerifier(loc) : new UnversionedVerifier(reader(storage, secret, loc));
      case "TimeoutSigner": return plain ? new TimeoutSigner(loc) : new TimeoutSigner(reader(storage, secret, loc));
      case "TimeoutVerifier": return plain ? new TimeoutVerifier(loc) : new TimeoutVerifier(reader(storage, secret, loc));
    }
    throw new AssertionError(kind);
  }

  static String add(Object o, String blob) {
    Handle h = new Handle();
    h.o = o;
    h.blob = blob;
    int n = next.getAndIncrement();
    handles.put(n, h);
    return "ok " + n;
  }

  static byte[] in(Handle h, byte[] b) throws KeyczarException {
    return h.base64 ? Base64Coder.decodeWebSafe(latin(b)) : b;
  }

  static String out(Handle h, byte[] b) {
    return h.base64 ? okText(Base64Coder.encodeWebSafe(b)) : ok(b);
  }

  static ByteBuffer view(byte[] b, int how) {
    int off = 1 + how % 5;
    byte[] big = new byte[b.length + 2 * off];
    System.arraycopy(b, 0, big, off, b.length);
    switch (how % 4) {
      case 0: return ByteBuffer.wrap(big, off, b.length);
      case 1: return ByteBuffer.wrap(big, off, b.length).slice();
      case 2: return ByteBuffer.wrap(big, off, b.length).asReadOnlyBuffer();
    }
    return (ByteBuffer) ByteBuffer.allocateDirect(b.length).put(b).flip();
  }

  static String run(String op, byte[][] a) throws Exception {
    switch (op) {
      case "open": return add(open(utf(a[0]), utf(a[1]), utf(a[2]), utf(a[3])), null);
      case "b64enc": return okText(Base64Coder.encodeWebSafe(a[0]));
      case "b64dec": return ok(Base64Coder.decodeWebSafe(latin(a[0])));
      case "delays": {      // the number of pauses so far; from now on so many in 1000 calls
        long n = Delays.taken.get();
        Delays.install();
        Delays.rate = num(a[0]);
        return okText(Long.toString(n));
      }
      case "closeall": handles.clear(); return "ok";
      case "tool": {
        String[] args = new String[a.length];
        for (int i = 0; i < a.length; i++) args[i] = utf(a[i]);
        ByteArrayOutputStream err = new ByteArrayOutputStream();
        PrintStream e = System.err, o = System.out;
        System.setErr(new PrintStream(err, true, "UTF-8"));
        System.setOut(new PrintStream(err, true, "UTF-8"));
        try {
          KeyczarTool.main(args);
        } finally {
          System.setErr(e);
          System.setOut(o);
        }
        return ok(err.toByteArray());
      }
      case "newsession": {
        SignedSessionEncrypter x = new SignedSessionEncrypter(new Encrypter(utf(a[0])), new Signer(utf(a[1])));
        String blob = x.newSession(num(a[2]));
        return add(x, blob);
      }
      case "opensession":
        return add(new SignedSessionDecrypter(new Crypter(utf(a[0])), new Verifier(utf(a[1])), latin(a[2])), null);
      case "newplain": return add(new SessionCrypter(new Encrypter(utf(a[0]))), null);
      case "openplain": return add(new SessionCrypter(new Crypter(utf(a[0])), a[1]), null);
      case "newold": return add(new SessionEncrypter(new Encrypter(utf(a[0]))), null);
      case "openold": return add(new SessionDecrypter(new Crypter(utf(a[0])), a[1]), null);
      case "gc": {
        System.gc();
        Thread.sleep(50);
        System.gc();
        Runtime r = Runtime.getRuntime();
        return "ok " + (r.totalMemory() - r.freeMemory());
      }
    }
    Handle h = handles.get(num(a[0]));
    Object o = h.o;
    switch (op) {
      case "encoding": h.base64 = latin(a[1]).equals("1"); return "ok";
      case "encrypt": return out(h, ((Encrypter) o).encrypt(a[1]));
      case "decrypt": return ok(((Crypter) o).decrypt(in(h, a[1])));
      case "encryptS": return okText(((Encrypter) o).encrypt(utf(a[1])));
      case "decryptS": return okText(((Crypter) o).decrypt(latin(a[1])));
      case "encrypt1": {    // with buffers that are views into larger ones
        int off = a[1].length % 7, size = ((Encrypter) o).ciphertextSize(a[1].length);
        ByteBuffer in = view(a[1], a[1].length / 2);
        int start = in.position(), end = in.limit();
        ByteBuffer out = off % 2 == 0 ? ByteBuffer.allocate(size + off) : ByteBuffer.allocateDirect(size + off);
        out.position(off);
        ((Encrypter) o).encrypt(in, out);
        if (in.position() != start || in.limit() != end) return "exc input buffer modified";
        out.reset();
        byte[] r = new byte[out.remaining()];
        out.get(r);
        return out(h, r);
      }
      case "decrypt1": {
        byte[] c = in(h, a[1]);
        int off = c.length / 16 % 7;
        ByteBuffer in = view(c, c.length / 16);
        int start = in.position(), end = in.limit();
        ByteBuffer out = ByteBuffer.allocate(c.length + off);
        out.position(off);
        ((Crypter) o).decrypt(in, out);
        if (in.position() != start || in.limit() != end) return "exc input buffer modified";
        out.reset();
        byte[] r = new byte[out.remaining()];
        out.get(r);
        return ok(r);
      }
      case "sign1":
      if (o instanceof Signer) {
        int off = a[1].length % 5, size = ((Signer) o).digestSize() + off;
        ByteBuffer in = view(a[1], a[1].length);
        ByteBuffer out = a[1].length / 5 % 2 == 0 ? ByteBuffer.allocate(size) : ByteBuffer.allocateDirect(size);
        out.position(off);
        ((Signer) o).sign(in, out);
        out.reset();
        byte[] r = new byte[out.remaining()];
        out.get(r);
        return out(h, r);
      }
      case "sign":
        return out(h, o instanceof UnversionedSigner ? ((UnversionedSigner) o).sign(a[1]) : ((Signer) o).sign(a[1]));
      case "signS": return okText(o instanceof UnversionedSigner ? ((UnversionedSigner) o).sign(utf(a[1])) : ((Signer) o).sign(utf(a[1])));
      case "verify":
        if (a[1].length % 3 == 1) {     // with buffers that are views, direct or read only
          byte[] sig = in(h, a[2]);
          ByteBuffer d = view(a[1], a[1].length / 3), g = view(sig, a[1].length / 12 + a[1].length);
          if (o instanceof TimeoutVerifier) return yes(((TimeoutVerifier) o).verify(d, g));
          return yes(o instanceof UnversionedVerifier ? ((UnversionedVerifier) o).verify(d, g) : ((Verifier) o).verify(d, g));
        }
        if (o instanceof TimeoutVerifier) return yes(((TimeoutVerifier) o).verify(a[1], in(h, a[2])));
        return yes(o instanceof UnversionedVerifier ? ((UnversionedVerifier) o).verify(a[1], in(h, a[2])) : ((Verifier) o).verify(a[1], in(h, a[2])));
      case "vtimed": {                  // the time before, the time after and the verdict
        TimeoutVerifier v = (TimeoutVerifier) o;
        byte[] g = in(h, a[2]);
        long t0 = System.currentTimeMillis();
        boolean r = v.verify(a[1], g);
        long t1 = System.currentTimeMillis();
        return okText(t0 + " " + t1 + " " + (r ? 1 : 0));
      }
      case "verifyS":
        if (o instanceof TimeoutVerifier) return yes(((TimeoutVerifier) o).verify(utf(a[1]), latin(a[2])));
        return yes(o instanceof UnversionedVerifier ? ((UnversionedVerifier) o).verify(utf(a[1]), latin(a[2]))
                                                    : ((Verifier) o).verify(utf(a[1]), latin(a[2])));
      case "attach": case "attach1": return out(h, ((Signer) o).attachedSign(a[1], a[2]));
      case "attached": {
        byte[] s = in(h, a[1]);
        boolean good = ((Verifier) o).attachedVerify(s, a[2]);
        byte[] data;
        try {
          data = ((Verifier) o).getAttachedData(s, a[2]);
        } catch (KeyczarException e) {
          if (good) return "exc getAttachedData refuses what attachedVerify accepts";
          throw e;
        }
        if (!good) return "exc getAttachedData accepts what attachedVerify refuses";
        return ok(data);
      }
      case "peek": return ok(((Verifier) o).getAttachedDataWithoutVerifying(in(h, a[1])));
      case "tsign": return out(h, ((TimeoutSigner) o).timeoutSign(a[1], Long.parseLong(latin(a[2]))));
      case "tsignS": return okText(((TimeoutSigner) o).timeoutSign(utf(a[1]), Long.parseLong(latin(a[2]))));
      case "blob":
        if (o instanceof SessionCrypter) return ok(((SessionCrypter) o).getSessionMaterial());
        if (o instanceof SessionEncrypter) return ok(((SessionEncrypter) o).getSessionMaterial());
        return okText(h.blob);
      case "renew": h.blob = ((SignedSessionEncrypter) o).newSession(); return okText(h.blob);
      case "sessencrypt":
        if (o instanceof SessionCrypter) return ok(((SessionCrypter) o).encrypt(a[1]));
        if (o instanceof SessionEncrypter) return ok(((SessionEncrypter) o).encrypt(a[1]));
        return out(h, ((SignedSessionEncrypter) o).encrypt(a[1]));
      case "sessdecrypt":
        if (o instanceof SessionCrypter) return ok(((SessionCrypter) o).decrypt(a[1]));
        if (o instanceof SessionDecrypter) return ok(((SessionDecrypter) o).decrypt(a[1]));
        return ok(((SignedSessionDecrypter) o).decrypt(in(h, a[1])));
    }
    throw new AssertionError(op);
  }

  static String answer(String line) {
    String[] parts = line.split(" ");
    return answer(parts[0], args(parts));
  }

  static byte[][] args(String[] parts) {
    byte[][] args = new byte[parts.length - 1][];
    for (int i = 1; i < parts.length; i++) args[i - 1] = unhex(parts[i]);
    return args;
  }

  static String answer(String op, byte[][] args) {
    try {
      if (op.equals("par")) return parallel(args);
      return run(op, args);
    } catch (KeyczarException e) {
      return NO;
    } catch (Throwable e) {
      e.printStackTrace();
      StackTraceElement[] t = e.getStackTrace();
      String where = "";
      for (StackTraceElement f : t)
        if (f.getClassName().startsWith("org.keyczar")) { where = " in " + f.getClassName() + "." + f.getMethodName(); break; }
      return "exc " + e.getClass().getName() + where + ": " + String.valueOf(e.getMessage()).replace('\n', ' ');
    }
  }

  /** Requests a[1], a[2], ... in a[0] threads at once; the replies in this order. */
  static String parallel(byte[][] a) throws Exception {
    final int threads = num(a[0]), n = a.length - 1;
    final String[] ops = new String[n], replies = new String[n];
    final byte[][][] args = new byte[n][][];
    for (int i = 0; i < n; i++) {
      String[] parts = latin(a[i + 1]).split(" ");
      ops[i] = parts[0];
      args[i] = args(parts);
    }
    final CyclicBarrier barrier = new CyclicBarrier(threads);
    List<Thread> all = new ArrayList<>();
    for (int t = 0; t < threads; t++) {
      final int me = t;
      Thread x = new Thread(() -> {
        try {
          barrier.await();
          for (int i = me; i < n; i += threads) replies[i] = answer(ops[i], args[i]);
        } catch (Throwable e) {
          e.printStackTrace();
        }
      });
      all.add(x);
      x.start();
    }
    for (Thread x : all) x.join();
    StringBuilder b = new StringBuilder("ok");
    for (String r : replies) b.append(' ').append(hex(String.valueOf(r).getBytes(StandardCharsets.ISO_8859_1)));
    return b.toString();
  }

  public static void main(String[] argv) throws Exception {
    PrintStream reply = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "ISO-8859-1");
    System.setOut(System.err);
    InputStream in = new java.io.BufferedInputStream(new FileInputStream(FileDescriptor.in), 1 << 16);
    System.setIn(new java.io.ByteArrayInputStream(new byte[0]));
    ByteArrayOutputStream line = new ByteArrayOutputStream();
    int c;
    while ((c = in.read()) >= 0) {
      if (c != '\n') {
        line.write(c);
        continue;
      }
      String s = answer(line.toString("ISO-8859-1"));
      line.reset();
      reply.write(s.getBytes(StandardCharsets.ISO_8859_1));
      reply.write('\n');
      reply.flush();
    }
    System.exit(0);
  }
}
