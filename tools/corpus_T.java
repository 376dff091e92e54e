import java.lang.annotation.*; import java.util.*; import java.util.function.*;
@Retention(RetentionPolicy.RUNTIME) @Target({ElementType.TYPE_USE, ElementType.TYPE_PARAMETER}) @interface TA { int v() default 3; }
@Retention(RetentionPolicy.RUNTIME) @interface A { int a() default 1; long l() default 2L; String[] s() default {"x","y"}; Class<?> c() default int[].class; RetentionPolicy e() default RetentionPolicy.CLASS; TA n() default @TA(v=4); double d() default -0.0; float f() default Float.NaN; char ch() default '\uffff'; boolean z() default true; byte b() default -1; short sh() default -2; }
@A(a=5, s={}) @Deprecated public class T<X extends @TA Comparable<? super X> & Runnable> extends ArrayList<@TA Map<String, ? extends List<X[]>>> implements Supplier<X> {
  static final int I = 70000; static final long L = 1L<<40; static final float F = 1.5f; static final double D = Double.MIN_VALUE; static final String S = "a\u0000b\uD800 \uD83D\uDE00";
  @A @TA int fld; volatile transient X[] arr;
  public X get() { return null; }
  @A <E extends Exception> int work(@A int p, final @TA String q, X... xs) throws E, java.io.IOException {
    int r = 0; for (@TA X x : xs) { try { r += x.hashCode(); } catch (RuntimeException | Error e) { r--; } finally { r++; } }
    switch (p) { case 1: case 2: case 3: r++; break; case 5: r += 2; default: r = -r; }
    switch (q) { case "one": return 1; case "two": return 2; }
    switch (p) { case -1000: return 9; case 100000: return 8; }
    Function<Integer, Integer> f = a -> a + p; Supplier<List<X>> s = ArrayList::new; Runnable rr = () -> System.out.println(f.apply(3) + "k" + p + q);
    long l = 0; double d = 1; float g = 2; byte b = (byte) p; short h = (short) p; char c = (char) p; l += p; d *= l; g -= d; l = l << 3 >>> 2 >> 1; l ^= 77; boolean t = l > 3 && d <= 2.5 || g >= 1f;
    int[][] m = new int[3][4]; Object o = new String[2][][]; o = arr == null ? (Object) (String) q : o instanceof List; synchronized (this) { m[1][2] = ++r; } r += 200; r += 40000;
    assert r > 0 : "neg"; class Loc { int z = p; } return new Loc().z + (t ? 1 : 0) + c + h + b; }
  interface In { default void x() {} static void y() {} } enum En { ONE, TWO { void m() {} }; void m() {} } static class Nest { private int q; } class Inner<Q> { Q q; }
  int n = new Nest().q;
}
