import java.io.*;
import java.nio.charset.StandardCharsets;

/** Runs the tool's own main once per line of standard input (arguments separated by U+001F) and prints the exit status. */
public class VerifDriver {
  static volatile Integer status;
  static final class Exit extends SecurityException { }
  @SuppressWarnings("removal")
  public static void main(String[] a) throws Exception {
    PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), true, "UTF-8");
    System.setSecurityManager(new SecurityManager() {
      @Override public void checkExit(int s) { if (status == null) status = s; throw new Exit(); }
      @Override public void checkPermission(java.security.Permission p) { }
      @Override public void checkPermission(java.security.Permission p, Object c) { }
    });
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
    String line;
    while ((line = in.readLine()) != null) {
      status = null;
      String thrown = null;
      String[] args = line.isEmpty() ? new String[0] : line.split("\u001f", -1);
      try { com.google.i18n.phonenumbers.EntryPoint.main(args); }
      catch (Exit e) { }
      catch (Throwable t) { thrown = t.getClass().getName(); }
      // what the JVM would have done: the first exit wins, an escaped exception is status 1, a plain return is 0
      int rc = status != null ? status : thrown != null ? 1 : 0;
      out.println("R " + rc + " " + (thrown == null ? "-" : thrown));
    }
  }
}
