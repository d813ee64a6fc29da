import java.io.File;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.util.*;
import java.util.concurrent.*;
import javax.tools.*;

/** Usage: java Compile STUBS DIR: compiles DIR/n.java, each on its own, and prints "n line code message" for every error. */
public class Compile {
    public static void main(String[] args) throws Exception {
        JavaCompiler javac = ToolProvider.getSystemJavaCompiler();
        ExecutorService pool = Executors.newFixedThreadPool(8);
        List<Future<String>> results = new ArrayList<>();
        ThreadLocal<StandardJavaFileManager> managers = ThreadLocal.withInitial(() -> javac.getStandardFileManager(null, null, StandardCharsets.UTF_8));
        for (File f : new File(args[1]).listFiles()) {
            if (!f.getName().endsWith(".java")) continue;
            results.add(pool.submit(() -> {
                StandardJavaFileManager fm = managers.get();
                DiagnosticCollector<JavaFileObject> ds = new DiagnosticCollector<>();
                javac.getTask(null, fm, ds, Arrays.asList("-proc:none", "-implicit:none", "-Xmaxerrs", "1000", "-XDshould-stop.ifError=FLOW", "-XDshould-stop.ifNoError=FLOW", "-cp", args[0]),
                    null, fm.getJavaFileObjects(f)).call();
                StringBuilder s = new StringBuilder();
                String n = f.getName().replace(".java", "");
                for (Diagnostic<? extends JavaFileObject> d : ds.getDiagnostics())
                    if (d.getKind() == Diagnostic.Kind.ERROR)
                        s.append(n + " " + d.getLineNumber() + " " + d.getCode() + " " + d.getMessage(Locale.ENGLISH).replaceAll("\\s+", " ") + "\n");
                return s.toString();
            }));
        }
        for (Future<String> r : results) System.out.print(r.get());
        pool.shutdown();
    }
}
