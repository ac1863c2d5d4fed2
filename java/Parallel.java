// Programs of calls run by several Java threads at once, each on objects of its own, and by one thread alone (C27)
import boofcv.abst.filter.binary.*;
import boofcv.alg.filter.binary.ContourPacked;
import boofcv.alg.filter.blur.BOverrideBlurImageOps;
import boofcv.alg.filter.convolve.*;
import boofcv.factory.filter.binary.*;
import boofcv.struct.*;
import boofcv.struct.convolve.*;
import boofcv.struct.image.*;
import georegression.struct.point.Point2D_I32;
import org.boofcpp.BoofCPP;
import org.ddogleg.struct.FastQueue;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

@SuppressWarnings({"unchecked","rawtypes"})
public class Parallel {
    // an operation: kind, variant, type, width, height, seed, a, b, shared
    static final int LEN = 9;
    static int value( int seed , int i ) { int v = seed*0x9E3779B1+i*0x85EBCA6B; v ^= v>>>15; v *= 0x2C1B3C6D; v ^= v>>>13; return v&0x7fffffff; }
    static ImageGray input( int type , int w , int h , int seed , int top ) {
        ImageGray g = Driver.blank(type); g.reshape(w,h); Object d = g._getData();
        for( int i = 0; i < w*h; i++ ) { int v = value(seed,i)%(top+1); if( d instanceof byte[] ) ((byte[])d)[i] = (byte)v; else ((float[])d)[i] = v; }
        return g;
    }
    // what one thread owns
    static class State { Map<String,InputToBinary> filters = new HashMap<>(); BinaryLabelContourFinder finder; }
    static void add( ArrayList<Object> r , ImageBase g ) { r.add(g.width+"x"+g.height); Object d = ((ImageGray)g)._getData(); int n = g.width*g.height; if( d instanceof byte[] ) r.add(Arrays.copyOf((byte[])d,n)); else if( d instanceof short[] ) r.add(Arrays.copyOf((short[])d,n)); else if( d instanceof int[] ) r.add(Arrays.copyOf((int[])d,n)); else r.add(Arrays.copyOf((float[])d,n)); }
    static ArrayList<Object> one( State s , int[] p , int o , ImageGray shared ) {
        ArrayList<Object> r = new ArrayList<>(); int kind = p[o], variant = p[o+1], type = p[o+2], w = p[o+3], h = p[o+4], seed = p[o+5], a = p[o+6], b = p[o+7];
        ImageGray in = shared != null ? shared : input(type,w,h,seed,kind == 4 ? 1 : 255);
        Object kernel = new int[0]; int size = kind == 2 && variant == 2 ? a*a : a;
        if( type == 0 ) { int[] k = new int[size]; for( int i = 0; i < size; i++ ) k[i] = 1+value(seed+7,i)%3; kernel = k; } else { float[] k = new float[size]; for( int i = 0; i < size; i++ ) k[i] = 1+value(seed+7,i)%3; kernel = k; }
        try {
            switch( kind ) {
                case 0: { ImageGray out = Driver.blank(type); ImageGray st = b%2 == 0 ? null : Driver.blank(type); if( variant == 0 ) BOverrideBlurImageOps.mean.processMean(in,out,a,st); else BOverrideBlurImageOps.gaussian.processGaussian(in,out,0.5+0.3*b,a,st); add(r,out); break; }
                case 1: { ImageGray out = Driver.blank(type); out.reshape(w,h); if( variant == 0 ) BOverrideConvolveImageNormalized.horizontal.horizontal(Driver.k1(kernel,a,a/2),in,out); else BOverrideConvolveImageNormalized.vertical.vertical(Driver.k1(kernel,a,a/2),in,out); add(r,out); break; }
                case 2: { ImageGray out = Driver.blank(type == 0 ? 1+b/4 : 3);
                    switch( variant ) { case 0: BOverrideConvolveImage.horizontal.horizontal(Driver.k1(kernel,a,a/2),in,out,Driver.border(type == 0,b%4,0)); break; case 1: BOverrideConvolveImage.vertical.vertical(Driver.k1(kernel,a,a/2),in,out,Driver.border(type == 0,b%4,0)); break; default: BOverrideConvolveImage.convolve.convolve(Driver.k2(kernel,a,a/2),in,out,Driver.border(type == 0,b%4,0)); } add(r,out); break; }
                case 3: { String key = variant+" "+type+" "+a+" "+b; InputToBinary f = s.filters.get(key); Class c = Driver.typeClass(type); ConfigLength len = new ConfigLength(a,-1); boolean down = b%2 == 0, local = b%4 < 2;
                    if( f == null ) { switch( variant ) { case 0: f = BOverrideFactoryThresholdBinary.blockMean.handle(len,0.9,down,local,c); break; case 1: f = BOverrideFactoryThresholdBinary.blockMinMax.handle(len,0.9,down,10,local,c); break; case 2: f = BOverrideFactoryThresholdBinary.blockOtsu.handle(b > 3,len,1,0.9,down,local,c); break; case 3: f = BOverrideFactoryThresholdBinary.globalFixed.handle(20*a,down,c); break; case 4: f = BOverrideFactoryThresholdBinary.globalOtsu.handle(0,255,down,c); break; default: f = BOverrideFactoryThresholdBinary.localMean.handle(len,0.9,down,c); } s.filters.put(key,f); }
                    GrayU8 out = new GrayU8(1,1); f.process(in,out); add(r,out); break; }
                case 4: { if( s.finder == null ) s.finder = BOverrideFactoryBinaryContourFinder.chang2004.handle(); BinaryLabelContourFinder f = s.finder; f.setConnectRule(ConnectRule.values()[b%2]); f.setMinContour(a); f.setSaveInnerContour(b%4 < 2); GrayS32 out = new GrayS32(1,1); f.process((GrayU8)in,out); add(r,out); List<ContourPacked> l = f.getContours(); r.add(l.size()+" contours"); FastQueue<Point2D_I32> q = new FastQueue<>(Point2D_I32.class,true); ArrayList<Integer> v = new ArrayList<>();
                    for( ContourPacked c : l ) { v.add(c.id); v.add(c.internalIndexes.size); f.loadContour(c.externalIndex,q); for( int i = 0; i < q.size; i++ ) { v.add(q.get(i).x); v.add(q.get(i).y); } } r.add(v.stream().mapToInt(i -> i).toArray()); break; }
                case 5: { ImageGray out = Driver.blank(type == 0 ? 3 : 0); out.reshape(w,h); if( variant == 0 ) BOverrideConvolveImage.horizontal.horizontal(Driver.k1(kernel,a,a/2),in,out,Driver.border(type == 0,4,0)); else if( variant == 1 ) BOverrideConvolveImage.vertical.vertical(Driver.k1(kernel,a,a/2),in,out,Driver.border(type == 0,1,3)); else BOverrideBlurImageOps.mean.processMean(new GrayF64(w,h),new GrayF64(w,h),1,null); r.add("accepted"); break; }   // refused
                default: s.filters.clear(); s.finder = null; if( variant == 0 ) System.gc(); r.add("dropped");
            }
        } catch( Throwable t ) { r.add("threw "+t.getClass().getName()+(t instanceof RuntimeException ? "" : " "+t.getMessage())); }
        if( shared == null ) { ImageGray again = input(type,w,h,seed,kind == 4 ? 1 : 255); r.add(Objects.deepEquals(again._getData(),in._getData()) ? "input kept" : "input modified"); }
        return r;
    }
    static String what( int[] p , int o ) { String[] n = {"blur","normalized convolution","convolution","threshold","contours","refused call","drop"}; return n[p[o]]+" "+p[o+1]+" on "+(p[o+2] == 0 ? "U8 " : "F32 ")+p[o+3]+"x"+p[o+4]; }
    static String show( Object a ) { return a instanceof String ? (String)a : a instanceof byte[] ? Arrays.toString((byte[])a) : a instanceof short[] ? Arrays.toString((short[])a) : a instanceof int[] ? Arrays.toString((int[])a) : Arrays.toString((float[])a); }
    static String cut( String s ) { return s.length() > 200 ? s.substring(0,200)+"..." : s; }
    /** Returns null or what differed */
    public static String run( int[][] programs , int rounds , int millis ) throws Exception {
        int n = programs.length; ImageGray[][] shared = new ImageGray[n][]; Map<String,ImageGray> pool = new HashMap<>(); Map<ImageGray,int[]> from = new IdentityHashMap<>();
        for( int t = 0; t < n; t++ ) { int[] p = programs[t]; shared[t] = new ImageGray[p.length/LEN]; for( int k = 0; k < shared[t].length; k++ ) { int o = k*LEN; if( p[o+8] == 0 || p[o] > 4 ) continue; int top = p[o] == 4 ? 1 : 255; String key = p[o+2]+" "+p[o+3]+" "+p[o+4]+" "+top; final int oo = o; shared[t][k] = pool.computeIfAbsent(key,x -> input(p[oo+2],p[oo+3],p[oo+4],1,top)); from.putIfAbsent(shared[t][k],new int[]{p[o+2],p[o+3],p[o+4],top}); } }
        ArrayList<Object>[][] alone = new ArrayList[n][];
        for( int t = 0; t < n; t++ ) { State s = new State(); alone[t] = new ArrayList[programs[t].length/LEN]; for( int k = 0; k < alone[t].length; k++ ) { alone[t][k] = one(s,programs[t],k*LEN,shared[t][k]); String last = show(alone[t][k].get(0)); if( last.startsWith("threw") && !((refusable(programs[t],k*LEN) || programs[t][k*LEN] == 5) && last.equals("threw java.lang.RuntimeException")) ) return "alone: "+what(programs[t],k*LEN)+" "+last; if( programs[t][k*LEN] == 5 && last.equals("accepted") ) return "alone: a call which must be refused was accepted"; } }
        final long until = System.nanoTime()+millis*1000000L; AtomicReference<String> problem = new AtomicReference<>(); CyclicBarrier start = new CyclicBarrier(n); Thread[] th = new Thread[n];
        for( int t = 0; t < n; t++ ) { final int T = t; th[t] = new Thread(() -> {
            try { start.await(); } catch( Exception e ) { problem.compareAndSet(null,"harness: "+e); return; }
            for( int r = 0; (r < rounds || System.nanoTime() < until) && problem.get() == null; r++ ) { State s = new State(); for( int k = 0; k < alone[T].length; k++ ) {
                ArrayList<Object> got = one(s,programs[T],k*LEN,shared[T][k]), want = alone[T][k]; if( got.size() != want.size() || !Objects.deepEquals(got.toArray(),want.toArray()) ) { int i = 0; while( i < got.size() && i < want.size() && Objects.deepEquals(got.get(i),want.get(i)) ) i++; problem.compareAndSet(null,what(programs[T],k*LEN)+" gave "+(i < got.size() ? cut(show(got.get(i))) : "nothing")+" instead of "+(i < want.size() ? cut(show(want.get(i))) : "nothing")+" while other threads ran"); return; } } }
        }); th[t].start(); }
        for( Thread t : th ) t.join();
        if( problem.get() == null ) for( ImageGray g : pool.values() ) { int[] f = from.get(g); if( !Objects.deepEquals(g._getData(),input(f[0],f[1],f[2],1,f[3])._getData()) ) return "an input image shared by the threads was modified"; }
        return problem.get();
    }
    // block sizes and radii may be refused. C24 decides which
    static boolean refusable( int[] p , int o ) { return p[o] == 3; }
}
