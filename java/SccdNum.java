import tlc2.value.impl.*;
import java.util.*;
import java.util.concurrent.*;

/** TLC overrides of the numeric operators of SccdNum.tla. Call and observation ids are 1-based. */
public final class SccdNum {
    static int iv(Value v) { return ((IntValue) v).val; }
    static int[] seq(Value v, int off) { return ColdNum.obs(v, off); }
    static Value bits(int b) { return ColdNum.bits(b); }
    static Value bool(int b) { return b == 1 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value NumStart(Value sid, Value m) { SccdNative.start(iv(sid) - 1, seq(m, 0)); return BoolValue.ValTrue; }
    public static Value NumFit4(Value sid, Value o) { return IntValue.gen(SccdNative.fit4(iv(sid) - 1, seq(o, 1))); }
    public static Value NumStable(Value sid, Value f) { return bits(SccdNative.stable(iv(sid) - 1, iv(f))); }
    public static Value NumOff(Value sid, Value f, Value o) { return IntValue.gen(SccdNative.off(iv(sid) - 1, iv(f), iv(o) - 1, 0)); }
    public static Value NumKOff(Value sid, Value k, Value o) { return IntValue.gen(SccdNative.off(iv(sid) - 1, iv(k), iv(o) - 1, 1)); }
    public static Value NumConfirm(Value sid, Value rs) { return bits(SccdNative.confirm(iv(sid) - 1, seq(rs, 0))); }
    public static Value NumExtreme(Value r) { return bits(SccdNative.extreme(iv(r), 0)); }
    public static Value NumKExtreme(Value r) { return bits(SccdNative.extreme(iv(r), 1)); }
    public static Value NumGate(Value sid, Value r) { return bits(SccdNative.gate(iv(sid) - 1, iv(r))); }
    public static Value NumQuiet(Value sid, Value r) { return bits(SccdNative.quiet(iv(sid) - 1, iv(r))); }
    public static Value NumStronger(Value sid, Value a, Value b) { return bits(SccdNative.stronger(iv(sid) - 1, seq(a, 0), seq(b, 0))); }
    static final ConcurrentHashMap<String, Value> init = new ConcurrentHashMap<>();
    public static Value NumKInit(Value sid, Value o, Value next) {
        return init.computeIfAbsent(iv(sid) + "/" + o + "/" + next, k -> IntValue.gen(SccdNative.kinit(iv(sid) - 1, seq(o, 1), iv(next) - 1, 0)));
    }
    public static Value NumKSnow(Value sid, Value o) {
        return init.computeIfAbsent(iv(sid) + "/snow", k -> IntValue.gen(SccdNative.kinit(iv(sid) - 1, seq(o, 1), -1, 1)));
    }
    public static Value NumKLoad(Value sid) {
        return init.computeIfAbsent(iv(sid) + "/load", k -> IntValue.gen(SccdNative.kload(iv(sid) - 1)));
    }
    public static Value NumKStep(Value sid, Value k, Value o, Value n) { return IntValue.gen(SccdNative.kstep(iv(sid) - 1, iv(k), iv(o) - 1, iv(n) - 1, 0)); }
    public static Value NumKSkip(Value sid, Value k, Value o, Value n) { return IntValue.gen(SccdNative.kstep(iv(sid) - 1, iv(k), iv(o) - 1, iv(n) - 1, 1)); }
    public static Value NumMasks(Value sid, Value o, Value years) {
        return ColdNum.masks(iv(sid), seq(o, 1), iv(years), v -> SccdNative.mask(iv(sid) - 1, seq(o, 1), iv(years), v));
    }
    public static Value NumCM(Value sid, Value rs) {
        int[] r = SccdNative.cm(iv(sid) - 1, seq(rs, 0));
        return new TupleValue(new Value[]{IntValue.gen(r[0]), IntValue.gen(r[1]), IntValue.gen(r[2]), IntValue.gen(r[3])});
    }
    public static Value NumMatchFit(Value sid, Value k, Value f) { return bool(SccdNative.matchFit(iv(sid) - 1, iv(k) - 1, iv(f))); }
    public static Value NumMatchKf(Value sid, Value k, Value f, Value o) { return bool(SccdNative.matchKf(iv(sid) - 1, iv(k) - 1, iv(f), iv(o) - 1)); }
    public static Value NumMatchPin(Value sid, Value k, Value f, Value o) { return bool(SccdNative.matchPin(iv(sid) - 1, iv(k) - 1, iv(f), iv(o) - 1)); }
    public static Value NumMatchModel(Value sid, Value f, Value o) { return IntValue.gen(SccdNative.matchModel(iv(sid) - 1, iv(f), iv(o) - 1)); }
    public static Value NumMatchMag(Value sid, Value k, Value rs, Value sign) { return bool(SccdNative.matchMag(iv(sid) - 1, iv(k) - 1, seq(rs, 0), iv(sign))); }
    public static Value NumReport(Value sid, Value bad) { return ColdNum.NumReport(sid, bad); }
    public static Value NumBudget(Value sid) { return ColdNum.NumBudget(sid); }
    public static Value NumFlush(Value dummy) {
        StringBuilder w = new StringBuilder("W");
        for (int i = 0; i < 8; i++) w.append("\t").append(SccdNative.worst(i));
        ColdNum.flush(w.toString());
        return BoolValue.ValTrue;
    }
}
