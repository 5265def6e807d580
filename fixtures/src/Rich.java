import com.sun.management.HotSpotDiagnosticMXBean;
import java.io.PrintWriter;
import java.lang.management.ManagementFactory;
import java.util.*;
import java.util.concurrent.locks.*;

/** Makes a heap with a little of everything, dumps it and writes what the JVM itself says about it. */
public class Rich {
    static class Base extends Thread {
        String name = "hidden"; int priority = 77; boolean daemon = true; long tid = 4242; int threadStatus = 1;
        Base(String n) { super(n); }
    }
    static class Worker extends Base {
        double name = 1.5; byte[][] holder = {{1}, {2, 3}};
        final int depth; final Object what;
        Worker(String n, int depth, Object what) { super(n); this.depth = depth; this.what = what; }
        public void run() { down(depth, new int[depth], new String[]{"x"}, "text \u041f\ud83d\ude00"); }
        void down(int n, int[] a, String[] s, String t) {
            int[][] deep = new int[2][3]; Object o = what; Class<?> c = int[].class; Class<?> p = long.class; Class<?> q = Map.Entry[][].class;
            if (n > 0) { down(n - 1, a, s, t); use(deep, o, c, p, q); return; }
            end(o);
            use(deep, o, c, p, q);
        }
        void end(Object o) {
            try {
                if (o instanceof Lock) { ((Lock) o).lock(); }
                else if (o instanceof Integer) { Thread.sleep(10000000L); }
                else if (o instanceof String) { synchronized (MON) { MON.wait(); } }
                else if (o instanceof Long) { synchronized (MON2) { MON2.wait(10000000L); } }
                else if (o instanceof Runnable) { ((Runnable) o).run(); }
                else synchronized (HELD) { use(o); }
            } catch (InterruptedException e) { throw new RuntimeException(e); }
        }
        static void use(Object... o) { if (o.length > 100) System.out.println(Arrays.toString(o)); }
    }
    static final Object MON = new Object(), MON2 = new Object(), HELD = new Object();
    static volatile boolean stop;
    static Object keep;
    static float[] floats = {1.5f, Float.NaN}; static double[] doubles = {-0.0, 1e300}; static char[] chars = {'a', '\u041f'};
    static long[] longs = {1, Long.MIN_VALUE}; static short[] shorts = {1}; static boolean[] bools = {true, false};
    static Object[][][] cube = new Object[2][3][];

    public static void main(String[] a) throws Exception {
        System.setProperty("weird.\u041f", "\u00e9\u041f\ud83d\ude00");
        System.setProperty("empty", "");
        System.setProperty("<b>&amp;", "\"quoted\" <script>alert(1)</script>");
        for (int i = 0; i < 200; i++) System.setProperty("many." + i, "v" + i);
        // keys of one bin: a tree
        String[] two = {"Aa", "BB"};
        for (int i = 0; i < 64; i++) { StringBuilder s = new StringBuilder(); for (int k = 0; k < 6; k++) s.append(two[(i >> k) & 1]); System.setProperty(s.toString(), "tree" + i); }
        System.getProperties().put("not a string", 42);
        System.getProperties().put(43, "not a string");
        ReentrantLock lock = new ReentrantLock(); lock.lock();
        List<Thread> ts = new ArrayList<>();
        synchronized (HELD) {
            ts.add(new Worker("waiting \u00e9", 3, "s"));
            ts.add(new Worker("\u041f\u043e\u0442\u043e\u043a \ud83d\ude00", 0, 1));
            ts.add(new Worker("timed", 10, 1L));
            ts.add(new Worker("parked <b>", 200, lock));
            ts.add(new Worker("blocked", 5, new int[0]));
            ts.add(new Worker("spin", 2, (Runnable) () -> { while (!stop) Thread.onSpinWait(); }));
            Thread plain = new Thread(() -> { Worker.use(); LockSupport.park(); }, "lambda");
            plain.setDaemon(true); plain.setPriority(9); ts.add(plain);
            for (Thread t : ts) { if (t != plain) t.setDaemon(ts.indexOf(t) % 2 == 0); t.start(); }
            Thread.sleep(1500);
            keep = List.of(Map.of("k", new Object[]{1, "2", 3.0}), EnumSet.allOf(Thread.State.class));
            Map<Thread, StackTraceElement[]> all = Thread.getAllStackTraces();
            try (PrintWriter w = new PrintWriter(a[1], "UTF-8")) {
                for (Map.Entry<Thread, StackTraceElement[]> e : all.entrySet()) {
                    Thread t = e.getKey();
                    w.println("thread\t" + t.getId() + "\t" + t.getPriority() + "\t" + t.isDaemon() + "\t" + t.getState() + "\t" + t.getName());
                    if (t != Thread.currentThread())
                        for (StackTraceElement f : e.getValue())
                            w.println("frame\t" + t.getId() + "\t" + f.getClassName() + "\t" + f.getMethodName() + "\t" + f.getFileName() + "\t" + f.getLineNumber());
                }
                for (Map.Entry<Object, Object> e : System.getProperties().entrySet())
                    if (e.getKey() instanceof String && e.getValue() instanceof String)
                        w.println("prop\t" + e.getKey() + "\t" + ((String) e.getValue()).replace("\n", "\\n"));
                w.println("start\t" + ManagementFactory.getRuntimeMXBean().getStartTime());
            }
            ManagementFactory.getPlatformMXBean(HotSpotDiagnosticMXBean.class).dumpHeap(a[0], true);
        }
        System.exit(0);
    }
}
