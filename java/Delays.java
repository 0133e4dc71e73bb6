// A provider that passes everything on to the usual one, with pauses in the middle of operations:
// threads that share an object overlap where they otherwise hardly ever do.
import java.security.AlgorithmParameters;
import java.security.Key;
import java.security.InvalidKeyException;
import java.security.PrivateKey;
import java.security.Provider;
import java.security.PublicKey;
import java.security.SecureRandom;
import java.security.Security;
import java.security.Signature;
import java.security.SignatureException;
import java.security.SignatureSpi;
import java.security.spec.AlgorithmParameterSpec;
import java.util.concurrent.ThreadLocalRandom;
import java.util.concurrent.atomic.AtomicLong;
import javax.crypto.Cipher;
import javax.crypto.CipherSpi;
import javax.crypto.Mac;
import javax.crypto.MacSpi;

public class Delays extends Provider {
  static volatile int rate;       // of 1000 calls
  static final AtomicLong taken = new AtomicLong();

  public Delays() {
    super("Delays", "1.0", "pauses");
    put("Mac.HmacSHA1", MyMac.class.getName());
    put("Alg.Alias.Mac.HMACSHA1", "HmacSHA1");
    put("Cipher.AES/CBC/PKCS5Padding", MyCipher.class.getName());
    put("Signature.SHA1withRSA", MyRsa.class.getName());
    put("Signature.SHA1withDSA", MyDsa.class.getName());
  }

  static void install() {
    if (Security.getProvider("Delays") == null) Security.insertProviderAt(new Delays(), 1);
  }

  static void pause() {
    ThreadLocalRandom r = ThreadLocalRandom.current();
    if (rate == 0 || r.nextInt(1000) >= rate) return;
    taken.incrementAndGet();
    try {
      if (r.nextBoolean()) Thread.sleep(0, 1 + r.nextInt(300000));
      else Thread.yield();
    } catch (InterruptedException e) {
      throw new RuntimeException(e);
    }
  }

  public static class MyMac extends MacSpi {
    private final Mac mac;
    public MyMac() throws Exception { mac = Mac.getInstance("HmacSHA1", "SunJCE"); }
    protected int engineGetMacLength() { return mac.getMacLength(); }
    protected void engineInit(Key k, AlgorithmParameterSpec p) throws InvalidKeyException {
      try {
        mac.init(k, p);
      } catch (java.security.InvalidAlgorithmParameterException e) {
        throw new InvalidKeyException(e);
      }
      pause();
    }
    protected void engineUpdate(byte b) { mac.update(b); }
    protected void engineUpdate(byte[] b, int o, int n) { pause(); mac.update(b, o, n); }
    protected byte[] engineDoFinal() { pause(); return mac.doFinal(); }
    protected void engineReset() { mac.reset(); }
  }

  public static class MyCipher extends CipherSpi {
    private final Cipher c;
    public MyCipher() throws Exception { c = Cipher.getInstance("AES/CBC/PKCS5Padding", "SunJCE"); }
    protected void engineSetMode(String s) { }
    protected void engineSetPadding(String s) { }
    protected int engineGetBlockSize() { return c.getBlockSize(); }
    protected int engineGetOutputSize(int n) { return c.getOutputSize(n); }
    protected byte[] engineGetIV() { return c.getIV(); }
    protected AlgorithmParameters engineGetParameters() { return c.getParameters(); }
    protected void engineInit(int m, Key k, SecureRandom r) throws InvalidKeyException { c.init(m, k, r); }
    protected void engineInit(int m, Key k, AlgorithmParameterSpec p, SecureRandom r) throws InvalidKeyException, java.security.InvalidAlgorithmParameterException { c.init(m, k, p, r); }
    protected void engineInit(int m, Key k, AlgorithmParameters p, SecureRandom r) throws InvalidKeyException, java.security.InvalidAlgorithmParameterException { c.init(m, k, p, r); }
    protected byte[] engineUpdate(byte[] b, int o, int n) { pause(); return c.update(b, o, n); }
    protected int engineUpdate(byte[] b, int o, int n, byte[] out, int at) throws javax.crypto.ShortBufferException { pause(); return c.update(b, o, n, out, at); }
    protected byte[] engineDoFinal(byte[] b, int o, int n) throws javax.crypto.IllegalBlockSizeException, javax.crypto.BadPaddingException {
      pause();
      return b == null ? c.doFinal() : c.doFinal(b, o, n);
    }
    protected int engineDoFinal(byte[] b, int o, int n, byte[] out, int at)
        throws javax.crypto.ShortBufferException, javax.crypto.IllegalBlockSizeException, javax.crypto.BadPaddingException {
      pause();
      return b == null ? c.doFinal(out, at) : c.doFinal(b, o, n, out, at);
    }
  }

  abstract static class MySignature extends SignatureSpi {
    private final Signature s;
    MySignature(String name, String provider) throws Exception { s = Signature.getInstance(name, provider); }
    protected void engineInitVerify(PublicKey k) throws InvalidKeyException { s.initVerify(k); pause(); }
    protected void engineInitSign(PrivateKey k) throws InvalidKeyException { s.initSign(k); pause(); }
    protected void engineUpdate(byte b) throws SignatureException { s.update(b); }
    protected void engineUpdate(byte[] b, int o, int n) throws SignatureException { pause(); s.update(b, o, n); }
    protected byte[] engineSign() throws SignatureException { pause(); return s.sign(); }
    protected boolean engineVerify(byte[] b) throws SignatureException { pause(); return s.verify(b); }
    @Deprecated protected void engineSetParameter(String n, Object v) { throw new UnsupportedOperationException(); }
    @Deprecated protected Object engineGetParameter(String n) { throw new UnsupportedOperationException(); }
  }

  public static class MyRsa extends MySignature {
    public MyRsa() throws Exception { super("SHA1withRSA", "SunRsaSign"); }
  }

  public static class MyDsa extends MySignature {
    public MyDsa() throws Exception { super("SHA1withDSA", "SUN"); }
  }
}
