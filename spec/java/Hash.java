import java.security.MessageDigest;
import tlc2.value.impl.*;

/** SHA-512 of a string of hexadecimal digits, for module Hash. */
public class Hash {
  public static Value Sha(Value v) throws Exception {
    String x = ((StringValue) v).val.toString();
    byte[] b = new byte[x.length() / 2];
    for (int n = 0; n < b.length; n++) b[n] = (byte) Integer.parseInt(x.substring(2 * n, 2 * n + 2), 16);
    StringBuilder o = new StringBuilder();
    for (byte c : MessageDigest.getInstance("SHA-512").digest(b)) o.append(String.format("%02x", c));
    return new StringValue(o.toString());
  }
}
