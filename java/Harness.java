// TLC operator overrides for spec/Harness.tla: the connection to the code under test,
// pseudo-random numbers, the literal dictionary and reporting.
import java.io.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.regex.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class Harness {
  static final String BIN = System.getProperty("conform.bin", "");
  static final long SEED = Long.getLong("conform.seed", 1L);
  static final String REPLAY = System.getProperty("conform.replay", "");
  static final String STATS = System.getProperty("conform.stats", "");
  static final String SRC = System.getProperty("conform.src", "");
  static final long LIMIT_MS = Long.getLong("conform.limit_ms", 20000L);

  // ---------------------------------------------------------------- wire format
  static void put(final DataOutputStream o, Value v) throws IOException {
    if (v instanceof LazyValue) throw new RuntimeException("Harness: lazy value");
    if (v instanceof IntValue) { o.writeByte(0); o.writeInt(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { o.writeByte(1); o.writeByte(((BoolValue) v).val ? 1 : 0); return; }
    if (v instanceof StringValue) { o.writeByte(2); str(o, ((StringValue) v).val.toString()); return; }
    if (!(v instanceof RecordValue)) {
      final Value t = v.toTuple();
      if (t != null) {
        final Value[] es = ((TupleValue) t).elems;
        o.writeByte(3); o.writeInt(es.length);
        for (final Value e : es) put(o, e);
        return;
      }
    }
    final RecordValue r = (RecordValue) v.toRcd();
    if (r == null) throw new RuntimeException("Harness: cannot send " + v);
    o.writeByte(4); o.writeInt(r.names.length);
    for (int i = 0; i < r.names.length; i++) { str(o, r.names[i].toString()); put(o, r.values[i]); }
  }
  static void str(final DataOutputStream o, final String s) throws IOException {
    final byte[] b = s.getBytes("UTF-8");
    o.writeInt(b.length); o.write(b);
  }
  static Value get(final DataInputStream i) throws IOException {
    switch (i.readByte()) {
      case 0: return IntValue.gen(i.readInt());
      case 1: return i.readByte() != 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
      case 2: return new StringValue(rstr(i));
      case 3: {
        final Value[] es = new Value[i.readInt()];
        for (int k = 0; k < es.length; k++) es[k] = get(i);
        return new TupleValue(es);
      }
      case 4: {
        final int n = i.readInt();
        final UniqueString[] names = new UniqueString[n];
        final Value[] vals = new Value[n];
        for (int k = 0; k < n; k++) { names[k] = UniqueString.uniqueStringOf(rstr(i)); vals[k] = get(i); }
        return new RecordValue(names, vals, false);
      }
      default: throw new IOException("bad tag");
    }
  }
  static String rstr(final DataInputStream i) throws IOException {
    final byte[] b = new byte[i.readInt()];
    i.readFully(b);
    return new String(b, "UTF-8");
  }
  static Value result(final String st, final Value out) {
    return new RecordValue(new UniqueString[] { UniqueString.uniqueStringOf("st"), UniqueString.uniqueStringOf("out") },
        new Value[] { new StringValue(st), out }, false);
  }

  // ---------------------------------------------------------------- worker processes
  static final AtomicLong calls = new AtomicLong();
  static final class Server {
    Process p; DataOutputStream o; DataInputStream i;
    volatile long deadline = Long.MAX_VALUE;
    volatile boolean killed;
    void start() throws IOException {
      p = new ProcessBuilder(BIN, "serve").redirectError(ProcessBuilder.Redirect.INHERIT).start();
      o = new DataOutputStream(new BufferedOutputStream(p.getOutputStream(), 1 << 16));
      i = new DataInputStream(new BufferedInputStream(p.getInputStream(), 1 << 16));
      killed = false;
    }
    // one attempt: the answer, or null with why set
    String why;
    Value attempt(final byte[] frame) throws IOException {
      if (p == null || !p.isAlive()) start();
      deadline = System.currentTimeMillis() + LIMIT_MS;
      try {
        o.writeInt(frame.length); o.write(frame); o.flush();
        i.readInt();
        return get(i);
      } catch (final IOException e) {
        p.destroyForcibly();
        int rc = -1;
        try { rc = p.waitFor(); } catch (final InterruptedException x) { }
        if (rc == 70) throw new RuntimeException("Harness: protocol error, see stderr");
        why = killed ? "hang" : "crash";
        p = null;
        return null;
      } finally { deadline = Long.MAX_VALUE; }
    }
  }
  static final Set<Server> servers = ConcurrentHashMap.newKeySet();
  static final ThreadLocal<Server> mine = ThreadLocal.withInitial(() -> { final Server s = new Server(); servers.add(s); return s; });
  static {
    final Thread t = new Thread(() -> {
      while (true) {
        try { Thread.sleep(200); } catch (final InterruptedException e) { return; }
        final long now = System.currentTimeMillis();
        for (final Server s : servers) if (now > s.deadline && s.p != null) { s.killed = true; s.deadline = Long.MAX_VALUE; s.p.destroyForcibly(); }
      }
    });
    t.setDaemon(true); t.start();
    Runtime.getRuntime().addShutdownHook(new Thread(() -> { for (final Server s : servers) if (s.p != null) s.p.destroyForcibly(); }));
  }

  public static Value Impl(final Value call) {
    try {
      final ByteArrayOutputStream b = new ByteArrayOutputStream(512);
      put(new DataOutputStream(b), call);
      calls.incrementAndGet();
      final Server s = mine.get();
      Value r = s.attempt(b.toByteArray());
      if (r == null) r = s.attempt(b.toByteArray()); // a hang or crash counts when it repeats
      if (r == null) return result(s.why, new StringValue(s.why));
      return r;
    } catch (final IOException e) { throw new RuntimeException("Harness: " + e); }
  }

  // The same call as the first one of a new process
  public static Value ImplFresh(final Value call) {
    try {
      final ByteArrayOutputStream b = new ByteArrayOutputStream(512);
      put(new DataOutputStream(b), call);
      calls.incrementAndGet();
      final Server s = new Server();
      servers.add(s);
      try {
        Value r = s.attempt(b.toByteArray());
        if (r == null) r = s.attempt(b.toByteArray());
        return r == null ? result(s.why, new StringValue(s.why)) : r;
      } finally {
        servers.remove(s);
        if (s.p != null) { s.o.close(); s.p.destroyForcibly(); }
      }
    } catch (final IOException e) { throw new RuntimeException("Harness: " + e); }
  }

  // ---------------------------------------------------------------- pseudo-random numbers
  static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }
  static long hash(final long i, final long k) {
    return mix(mix(mix(SEED * 0x9e3779b97f4a7c15L + 0x1234567) + i * 0x9e3779b97f4a7c15L) + k * 0xd1b54a32d192ed03L);
  }
  public static Value Rnd(final Value i, final Value k, final Value n) {
    final long h = hash(((IntValue) i).val, ((IntValue) k).val);
    return IntValue.gen((int) Long.remainderUnsigned(h, ((IntValue) n).val));
  }
  public static Value RndReal(final Value i, final Value k, final Value lo, final Value hi) {
    final long h = hash(((IntValue) i).val, ((IntValue) k).val + 1000003L);
    final double a = ((IntValue) lo).val, b = ((IntValue) hi).val;
    double x = a + (b - a) * ((h >>> 11) * 0x1.0p-53);
    switch ((int) (mix(h) & 7)) {
      case 0: case 1: x = Math.rint(x); break;
      case 2: x = Math.rint(x * 2) / 2; break;
      case 3: x = Math.rint(x / 50) * 50; break;
      default: break;
    }
    return Float64.v(Math.min(b, Math.max(a, x)));
  }

  // ---------------------------------------------------------------- dictionary
  // Literals of the sources, per system: those of its own files and of the files shared by all.
  // What is not in the list of literals known when this was written (BASE) is tried more often.
  static final String BASE = System.getProperty("conform.literals", "");
  static final Map<String, String> MODULE = Map.ofEntries(Map.entry("elo", "elo"), Map.entry("fifa", "fifa"), Map.entry("dwz", "dwz"),
      Map.entry("ingo", "ingo"), Map.entry("egf", "egf"), Map.entry("uscf", "uscf"), Map.entry("glicko", "glicko"),
      Map.entry("glicko2", "glicko2"), Map.entry("sticko", "sticko"), Map.entry("gboost", "glicko_boost"),
      Map.entry("wl", "weng_lin"), Map.entry("ts", "trueskill"));
  static String moduleOf(final Path rel) { return rel.getName(0).toString().replace(".rs", ""); }
  static Map<String, TreeMap<Double, Integer>> scan() {
    final Map<String, TreeMap<Double, Integer>> found = new TreeMap<>();
    final Path root = Paths.get(SRC);
    try (java.util.stream.Stream<Path> fs = Files.walk(root)) {
      final Pattern num = Pattern.compile("(?<![A-Za-z_0-9.])([0-9][0-9_]*(?:\\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?)(?:_?(?:f64|f32|usize|i32|u32|u64|i64|u8|u16))?");
      for (final Path p : (Iterable<Path>) fs.filter(x -> x.toString().endsWith(".rs")).sorted()::iterator) {
        boolean test = false;
        final TreeMap<Double, Integer> here = found.computeIfAbsent(moduleOf(root.relativize(p)), k -> new TreeMap<>());
        for (final String line : Files.readAllLines(p)) {
          final String l = line.trim();
          if (l.startsWith("#[cfg(test)]")) test = true;
          if (test || l.startsWith("//")) continue;
          final Matcher m = num.matcher(l);
          while (m.find()) {
            try {
              final double x = Double.parseDouble(m.group(1).replace("_", ""));
              if (x <= 1e9) here.merge(x, 1, Integer::sum);
            } catch (final NumberFormatException e) { }
          }
        }
      }
    } catch (final IOException e) { /* no sources: an empty dictionary */ }
    return found;
  }
  static Map<String, Value> dicts;
  static void makeDicts() {
    final Map<String, TreeMap<Double, Integer>> found = scan();
    final Map<String, Integer> base = new HashMap<>();
    try {
      if (!BASE.isEmpty()) for (final String l : Files.readAllLines(Paths.get(BASE))) {
        final String[] w = l.trim().split(" ");
        if (w.length == 3) base.put(w[0] + " " + Double.parseDouble(w[1]), Integer.parseInt(w[2]));
      }
    } catch (final IOException e) { throw new RuntimeException("Harness: " + e); }
    final Map<String, Value> ds = new HashMap<>();
    for (final Map.Entry<String, String> sys : MODULE.entrySet()) {
      final TreeSet<Double> all = new TreeSet<>(), fresh = new TreeSet<>();
      for (final Map.Entry<String, TreeMap<Double, Integer>> f : found.entrySet()) {
        if (MODULE.containsValue(f.getKey()) && !f.getKey().equals(sys.getValue())) continue;
        for (final Map.Entry<Double, Integer> e : f.getValue().entrySet()) {
          all.add(e.getKey());
          if (!base.isEmpty() && e.getValue() > base.getOrDefault(f.getKey() + " " + e.getKey(), 0)) fresh.add(e.getKey());
        }
      }
      if (all.isEmpty()) all.add(0.0);
      final List<Value> vs = new ArrayList<>();
      for (final double x : all) vs.add(Float64.v(x));
      for (int k = 0; k < all.size() && !fresh.isEmpty(); k += fresh.size()) for (final double x : fresh) vs.add(Float64.v(x));
      ds.put(sys.getKey(), new TupleValue(vs.toArray(new Value[0])));
    }
    dicts = ds;
  }
  public static Value Dict(final Value sys) {
    if (dicts == null) synchronized (Harness.class) { if (dicts == null) makeDicts(); }
    return dicts.get(((StringValue) sys).val.toString());
  }
  // prints the literals of the sources: the list BASE
  public static void main(final String[] a) {
    for (final Map.Entry<String, TreeMap<Double, Integer>> f : scan().entrySet())
      for (final Map.Entry<Double, Integer> e : f.getValue().entrySet()) System.out.println(f.getKey() + " " + e.getKey() + " " + e.getValue());
  }

  // ---------------------------------------------------------------- reporting
  static void show(final StringBuilder b, final Value v, final String key) {
    if (v instanceof IntValue || v instanceof BoolValue) { b.append(v.toString().toLowerCase()); return; }
    if (v instanceof StringValue) { b.append('"').append(((StringValue) v).val.toString().replace("\\", "\\\\").replace("\"", "\\\"").replace("\n", "\\n")).append('"'); return; }
    if (!(v instanceof RecordValue)) {
      final Value t = v.toTuple();
      if (t != null) {
        final Value[] es = ((TupleValue) t).elems;
        if (es.length == 2 && es[0] instanceof IntValue && es[1] instanceof IntValue && !key.equals("ranks")) {
          final double d = Float64.d(t);
          b.append(Double.isNaN(d) || Double.isInfinite(d) ? "\"" + d + "\"" : Double.toString(d)); return;
        }
        b.append('[');
        for (int i = 0; i < es.length; i++) { if (i > 0) b.append(", "); show(b, es[i], key); }
        b.append(']'); return;
      }
    }
    final RecordValue r = (RecordValue) v.toRcd();
    if (r == null) { b.append('"').append(v.toString().replace("\"", "'")).append('"'); return; }
    b.append('{');
    for (int i = 0; i < r.names.length; i++) {
      if (i > 0) b.append(", ");
      b.append('"').append(r.names[i]).append("\": ");
      show(b, r.values[i], r.names[i].toString());
    }
    b.append('}');
  }
  static String json(final Value v) { final StringBuilder b = new StringBuilder(); show(b, v, ""); return b.toString(); }

  static boolean reported;
  public static synchronized Value Report(final Value prop, final Value log) {
    if (!reported && !REPLAY.isEmpty()) {
      reported = true;
      try (Writer w = new FileWriter(REPLAY)) {
        w.write("{\"property\": " + json(prop) + ", \"seed\": " + SEED + ", \"experiment\": " + json(log) + "}\n");
      } catch (final IOException e) { throw new RuntimeException("Harness: " + e); }
    }
    return BoolValue.ValFalse;
  }
  static final ConcurrentHashMap<String, AtomicLong> marks = new ConcurrentHashMap<>();
  public static Value Mark(final Value name) {
    marks.computeIfAbsent(((StringValue) name).val.toString(), k -> new AtomicLong()).incrementAndGet();
    return BoolValue.ValTrue;
  }
  static final List<String> samples = new ArrayList<>();
  public static Value Sample(final Value log) {
    synchronized (samples) { if (samples.size() < 3) { final String s = json(log); samples.add(s.length() > 4000 ? s.substring(0, 4000) : s); } }
    return BoolValue.ValTrue;
  }
  static {
    Runtime.getRuntime().addShutdownHook(new Thread(() -> {
      if (STATS.isEmpty()) return;
      try (Writer w = new FileWriter(STATS)) {
        final StringBuilder b = new StringBuilder("{\"calls\": " + calls.get() + ", \"marks\": {");
        boolean first = true;
        for (final Map.Entry<String, AtomicLong> e : new TreeMap<>(marks).entrySet()) {
          if (!first) b.append(", ");
          first = false;
          b.append('"').append(e.getKey()).append("\": ").append(e.getValue().get());
        }
        b.append("}, \"samples\": [");
        for (int i = 0; i < samples.size(); i++) {
          if (i > 0) b.append(", ");
          b.append('"').append(samples.get(i).replace("\\", "\\\\").replace("\"", "\\\"")).append('"');
        }
        w.write(b.append("]}\n").toString());
      } catch (final IOException e) { }
    }));
  }
}
