public final class ColdNative {
    static {
        System.load(System.getProperty("verif.lib"));
        load(System.getProperty("verif.data"));
    }
    static native int load(String path);
    static native int fit(int sid, int[] obs, int df);
    static native void start(int sid, int[] obs);
    static native int fitBands(int sid, int[][] per, int[] all);
    static native int res(int sid, int fit, int o, int kind);
    static native int confirm(int sid, int[] res);
    static native int tail(int sid, int[] res);
    static native int extreme(int res);
    static native int far(int res);
    static native int stable(int sid, int fit);
    static native double[] mask(int sid, int[] obs, int years, int jitter);
    static native int[] cm(int sid, int[] res);
    static native int matchFit(int sid, int k, int fit);
    static native int matchMag(int sid, int k, int[] res, int sign);
    static native double worst(int w);
    static native String describe(int sid, int k, int fit);
}
