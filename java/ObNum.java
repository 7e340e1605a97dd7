import tlc2.value.impl.*;

/** TLC overrides of ObNum.tla. */
public final class ObNum {
    public static Value NumSmooth(Value h, Value w, Value v) {
        int H = ((IntValue) h).val, W = ((IntValue) w).val;
        TupleValue t = (TupleValue) v.toTuple();
        double[] x = new double[H * W];
        for (int i = 0; i < x.length; i++) x[i] = ((IntValue) t.elems[i]).val;
        double[] k = new double[9];
        for (int i = 0; i < 9; i++) k[i] = Math.exp(-.5 * (i - 4) * (i - 4));
        Value[] out = new Value[H * W];
        for (int r = 0; r < H; r++) for (int c = 0; c < W; c++) {
            double s = 0, n = 0;
            if (x[r * W + c] < 0) { out[r * W + c] = IntValue.gen(-1); continue; }
            for (int i = -4; i <= 4; i++) for (int j = -4; j <= 4; j++) {
                double y = x[Math.min(H - 1, Math.max(0, r + i)) * W + Math.min(W - 1, Math.max(0, c + j))];
                if (y < 0) continue;
                s += k[i + 4] * k[j + 4] * y; n += k[i + 4] * k[j + 4];
            }
            out[r * W + c] = IntValue.gen((int) Math.round(s / n));
        }
        return new TupleValue(out);
    }
    public static Value NumLog(Value n) { return IntValue.gen((int) Math.round(1e4 * Math.log10(((IntValue) n).val))); }
}
