public final class SccdNative {
    static {
        System.load(System.getProperty("verif.lib"));
        load(System.getProperty("verif.data"));
    }
    static native int load(String path);
    static native void start(int sid, int[] minrmse);
    static native int fit4(int sid, int[] obs);
    static native int kinit(int sid, int[] obs, int next, int snow);
    static native int kload(int sid);
    static native int kstep(int sid, int k, int o, int next, int skip);
    static native int off(int sid, int model, int o, int kind);
    static native int confirm(int sid, int[] off);
    static native int extreme(int off, int kind);
    static native int gate(int sid, int off);
    static native int quiet(int sid, int off);
    static native int stronger(int sid, int[] a, int[] b);
    static native int stable(int sid, int fit);
    static native double[] mask(int sid, int[] obs, int years, int jitter);
    static native int[] cm(int sid, int[] off);
    static native double worst(int w);
    static native int matchFit(int sid, int k, int fit);
    static native int matchKf(int sid, int k, int kf, int o);
    static native int matchPin(int sid, int k, int kf, int o);
    static native int matchModel(int sid, int kf, int o);
    static native int matchMag(int sid, int k, int[] off, int sign);
}
