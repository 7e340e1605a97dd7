import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;
import java.util.concurrent.*;

/** TLC overrides of the numeric operators of ColdNum.tla. Series ids are 1-based, observation ids 1-based. */
public final class ColdNum {
    static int iv(Value v) { return ((IntValue) v).val; }
    static int[] obs(Value v, int off) {
        TupleValue t = (TupleValue) v.toTuple();
        int[] a = new int[t.elems.length];
        for (int i = 0; i < a.length; i++) a[i] = ((IntValue) t.elems[i]).val - off;
        return a;
    }
    static final Value BT = new SetEnumValue(new Value[]{BoolValue.ValTrue}, true), BF = new SetEnumValue(new Value[]{BoolValue.ValFalse}, true),
            BTF = new SetEnumValue(new Value[]{BoolValue.ValFalse, BoolValue.ValTrue}, true);
    static Value bits(int b) { return b == 1 ? BT : b == 2 ? BF : BTF; }

    public static Value NumFit(Value sid, Value o, Value df) { return IntValue.gen(ColdNative.fit(iv(sid) - 1, obs(o, 1), iv(df))); }
    public static Value NumStart(Value sid, Value o) { ColdNative.start(iv(sid) - 1, obs(o, 1)); return BoolValue.ValTrue; }
    public static Value NumFitBands(Value sid, Value per, Value all) {
        TupleValue t = (TupleValue) per.toTuple();
        int[][] p = new int[t.elems.length][];
        for (int i = 0; i < p.length; i++) p[i] = obs(t.elems[i], 1);
        return IntValue.gen(ColdNative.fitBands(iv(sid) - 1, p, obs(all, 1)));
    }
    public static Value NumRes(Value sid, Value fit, Value o) { return IntValue.gen(ColdNative.res(iv(sid) - 1, iv(fit), iv(o) - 1, 0)); }
    public static Value NumResNear(Value sid, Value fit, Value o) { return IntValue.gen(ColdNative.res(iv(sid) - 1, iv(fit), iv(o) - 1, 1)); }
    public static Value NumConfirm(Value sid, Value rs) { return bits(ColdNative.confirm(iv(sid) - 1, obs(rs, 0))); }
    public static Value NumTail(Value sid, Value rs) { return bits(ColdNative.tail(iv(sid) - 1, obs(rs, 0))); }
    public static Value NumExtreme(Value r) { return bits(ColdNative.extreme(iv(r))); }
    public static Value NumFar(Value r) { return bits(ColdNative.far(iv(r))); }
    public static Value NumStable(Value sid, Value fit) { return bits(ColdNative.stable(iv(sid) - 1, iv(fit))); }
    static final ConcurrentHashMap<String, Value> maskCache = new ConcurrentHashMap<>();
    static final Set<Integer> fragile = ConcurrentHashMap.newKeySet(), soft = ConcurrentHashMap.newKeySet();
    /** all admissible masks: positions certainly masked plus any subset of the borderline ones.  Where the answer
     *  depends on rounding alone (rank-deficient designs), the masks of all roundings; the series counts as fragile. */
    public static Value NumMasks(Value sid, Value seq, Value years) {
        int[] o = obs(seq, 1);
        return masks(iv(sid), o, iv(years), v -> ColdNative.mask(iv(sid) - 1, o, iv(years), v));
    }
    static Value masks(int sid, int[] o, int years, java.util.function.IntFunction<double[]> score) {
        String key = sid + "/" + years + "/" + Arrays.toString(o);
        return maskCache.computeIfAbsent(key, k -> {
            TreeSet<List<Integer>> all = new TreeSet<>((p, q) -> p.toString().compareTo(q.toString()));
            Set<List<Integer>> sures = new HashSet<>();
            int variants = years <= 1 || o.length < 12 ? 6 : 1;
            for (int v = 0; v < variants; v++) {
                double[] sc = score.apply(v);
                List<Integer> sure = new ArrayList<>(), maybe = new ArrayList<>();
                for (int i = 0; i < sc.length; i++) {
                    if (sc[i] > 1 + 1e-3) sure.add(i + 1);
                    else if (!(sc[i] < 1 - 1e-3)) maybe.add(i + 1);
                }
                if (maybe.isEmpty()) sures.add(sure);
                int m = Math.min(maybe.size(), 4);
                if (maybe.size() > 4) fragile.add(sid);
                for (int b = 0; b < (1 << m); b++) {
                    ArrayList<Integer> l = new ArrayList<>(sure);
                    for (int j = 0; j < m; j++) if ((b >> j & 1) == 1) l.add(maybe.get(j));
                    Collections.sort(l);
                    all.add(l);
                }
            }
            if (years <= 1) soft.add(sid);      // exactly rank-deficient design: rounding decides
            else if (sures.size() > 1) fragile.add(sid);
            List<Value> out = new ArrayList<>();
            for (List<Integer> l : all) {
                Value[] e = new Value[l.size()];
                for (int j = 0; j < e.length; j++) e[j] = IntValue.gen(l.get(j));
                out.add(new SetEnumValue(e, true));
            }
            return new SetEnumValue(out.toArray(new Value[0]), false);
        });
    }
    public static Value NumCM(Value sid, Value rs) {
        int[] r = ColdNative.cm(iv(sid) - 1, obs(rs, 0));
        return new TupleValue(IntValue.gen(r[0]), IntValue.gen(r[1]));
    }
    public static Value NumMatchFit(Value sid, Value k, Value fit) {
        return ColdNative.matchFit(iv(sid) - 1, iv(k) - 1, iv(fit)) == 1 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value NumMatchMag(Value sid, Value k, Value rs, Value sign) {
        return ColdNative.matchMag(iv(sid) - 1, iv(k) - 1, obs(rs, 0), iv(sign)) == 1 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    /* ---- verdict registry ---- */
    static final ConcurrentHashMap<Integer, Set<String>> verdicts = new ConcurrentHashMap<>();
    static final ConcurrentHashMap<Integer, String> notes = new ConcurrentHashMap<>();
    static final ConcurrentHashMap<Integer, Integer> depth = new ConcurrentHashMap<>();
    public static Value NumReport(Value sid, Value bad) {
        verdicts.computeIfAbsent(iv(sid), k -> ConcurrentHashMap.newKeySet()).add(bad.toString());
        return BoolValue.ValTrue;
    }
    /** constraint: stop exploring a series once a behaviour explains it, or when it branches without end */
    static final ConcurrentHashMap<Integer, Integer> seen = new ConcurrentHashMap<>();
    static final int BUDGET = Integer.getInteger("verif.budget", 6000);
    public static Value NumBudget(Value sid) {
        int s = iv(sid);
        Set<String> v = verdicts.get(s);
        if (v != null && v.contains("{}")) return BoolValue.ValFalse;
        if (seen.merge(s, 1, Integer::sum) > BUDGET) { fragile.add(s); return BoolValue.ValFalse; }
        return BoolValue.ValTrue;
    }
    /** remember the deepest disagreement of a series */
    public static Value NumNote(Value sid, Value d, Value what) {
        int s = iv(sid), dd = iv(d);
        synchronized (notes) {
            if (depth.getOrDefault(s, -1) <= dd) { depth.put(s, dd); notes.put(s, what.toString()); }
        }
        return BoolValue.ValTrue;
    }
    public static Value NumFlush(Value dummy) {
        flush("W\t" + ColdNative.worst(0) + "\t" + ColdNative.worst(1));
        return BoolValue.ValTrue;
    }
    static void flush(String worst) {
        try (java.io.PrintWriter w = new java.io.PrintWriter(System.getProperty("verif.out"))) {
            for (Map.Entry<Integer, Set<String>> e : verdicts.entrySet())
                for (String b : e.getValue()) w.println("V\t" + e.getKey() + "\t" + b.replace("\n", " "));
            for (Map.Entry<Integer, String> e : notes.entrySet()) w.println("N\t" + e.getKey() + "\t" + e.getValue().replace("\n", " "));
            for (int f : fragile) w.println("F\t" + f);
            for (int f : soft) w.println("S\t" + f);
            w.println(worst);
        } catch (Exception ex) { throw new RuntimeException(ex); }
    }
}
