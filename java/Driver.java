// Calls the Java classes of the library on behalf of the C24 harness. Images, filters and contour finders live in slots
import boofcv.abst.filter.binary.*;
import boofcv.alg.filter.binary.ContourPacked;
import boofcv.alg.filter.blur.BOverrideBlurImageOps;
import boofcv.alg.filter.convolve.*;
import boofcv.core.image.border.*;
import boofcv.factory.filter.binary.*;
import boofcv.struct.*;
import boofcv.struct.convolve.*;
import boofcv.struct.image.*;
import georegression.struct.point.Point2D_I32;
import org.boofcpp.BoofCPP;
import org.boofcpp.convolve.*;
import org.ddogleg.struct.FastQueue;
import java.util.*;

@SuppressWarnings({"unchecked","rawtypes","removal","deprecation"})
public class Driver {
    static ImageBase[] image = new ImageBase[16]; static InputToBinary[] filter = new InputToBinary[8]; static BinaryLabelContourFinder[] finder = new BinaryLabelContourFinder[4];
    static ImageGray blank( int type ) { switch( type ) { case 0: return new GrayU8(0,0); case 1: return new GrayS16(0,0); case 2: return new GrayS32(0,0); case 3: return new GrayF32(0,0); case 4: return new GrayF64(0,0); default: throw new Error("type"); } }
    public static Class typeClass( int type ) { return blank(type).getClass(); }
    public static void start() { BoofCPP.initialize(); }
    public static void reset() { Arrays.fill(image,null); Arrays.fill(filter,null); Arrays.fill(finder,null); }
    public static void gc() { System.gc(); System.runFinalization(); }
    public static void makeImage( int slot , int type , int w , int h , int start , int stride , boolean sub , Object data ) { ImageGray g = blank(type); g._setData(data); g.width = w; g.height = h; g.startIndex = start; g.stride = stride; g.setSubImage(sub); image[slot] = g; }
    public static void makeOther( int slot , int family , int type , int w , int h ) { image[slot] = family == 0 ? new Planar(typeClass(type),w,h,2) : new InterleavedU8(w,h,2); }
    public static int[] geometry( int slot ) { ImageBase g = image[slot]; return new int[]{g.width,g.height,g.startIndex,g.stride,g.isSubimage()?1:0}; }
    public static Object data( int slot ) { return ((ImageGray)image[slot])._getData(); }

    public static void blur( int kind , int in , int out , int storage , double sigma , int radius ) {
        ImageBase s = storage < 0 ? null : image[storage];
        if( kind == 0 ) BOverrideBlurImageOps.mean.processMean(image[in],image[out],radius,s); else BOverrideBlurImageOps.gaussian.processGaussian(image[in],image[out],sigma,radius,s);
    }
    static Kernel1D k1( Object d , int w , int o ) { return d instanceof int[] ? new Kernel1D_S32((int[])d,w,o) : new Kernel1D_F32((float[])d,w,o); }
    static Kernel2D k2( Object d , int w , int o ) { return d instanceof int[] ? new Kernel2D_S32((int[])d,w,o) : new Kernel2D_F32((float[])d,w,o); }
    public static void normalized( int kind , int in , int out , Object kernel , int width , int offset ) {
        switch( kind ) {
            case 0: BOverrideConvolveImageNormalized.horizontal.horizontal(k1(kernel,width,offset),image[in],image[out]); break;
            case 1: BOverrideConvolveImageNormalized.vertical.vertical(k1(kernel,width,offset),image[in],image[out]); break;
            default: new NativeImageConvolveNormalized().convolve(k2(kernel,width,offset),image[in],image[out]);
        }
    }
    static BorderIndex1D index( int border ) { switch( border ) { case 0: return new BorderIndex1D_Extend(); case 1: return new BorderIndex1D_Reflect(); case 2: return new BorderIndex1D_Wrap(); default: return new BorderIndex1D_Exception(); } }
    static ImageBorder border( boolean integer , int border , double value ) {
        if( border == 3 ) return integer ? new ImageBorderValue.Value_I((int)value) : new ImageBorderValue.Value_F32((float)value);
        if( border == 5 ) return new ImageBorderValue.Value_F64(value);
        return integer ? new ImageBorder1D_S32(index(border),index(border)) : new ImageBorder1D_F32(index(border),index(border));
    }
    public static void convolve( int dir , int in , int out , Object kernel , int width , int offset , boolean integer , int border , double value ) {
        ImageBorder b = border(integer,border,value);
        switch( dir ) {
            case 0: BOverrideConvolveImage.horizontal.horizontal(k1(kernel,width,offset),image[in],image[out],b); break;
            case 1: BOverrideConvolveImage.vertical.vertical(k1(kernel,width,offset),image[in],image[out],b); break;
            default: BOverrideConvolveImage.convolve.convolve(k2(kernel,width,offset),image[in],image[out],b);
        }
    }
    // parameters: length, fraction, scale, tuning, spread, threshold, min, max
    public static void makeFilter( int slot , int kind , int type , double[] p , boolean down , boolean local , boolean otsu2 ) {
        Class c = typeClass(type); ConfigLength len = new ConfigLength(p[0],p[1]);
        switch( kind ) {
            case 0: filter[slot] = BOverrideFactoryThresholdBinary.blockMean.handle(len,p[2],down,local,c); break;
            case 1: filter[slot] = BOverrideFactoryThresholdBinary.blockMinMax.handle(len,p[2],down,p[4],local,c); break;
            case 2: filter[slot] = BOverrideFactoryThresholdBinary.blockOtsu.handle(otsu2,len,p[3],p[2],down,local,c); break;
            case 3: filter[slot] = BOverrideFactoryThresholdBinary.globalFixed.handle(p[5],down,c); break;
            case 4: filter[slot] = BOverrideFactoryThresholdBinary.globalOtsu.handle(p[6],p[7],down,c); break;
            default: filter[slot] = BOverrideFactoryThresholdBinary.localMean.handle(len,p[2],down,c);
        }
        if( filter[slot].getInputType().getFamily() != ImageType.Family.GRAY || filter[slot].getInputType().getImageClass() != c ) throw new Error("getInputType() reports "+filter[slot].getInputType().getImageClass()+" instead of "+c);
    }
    public static void process( int slot , int in , int out ) { filter[slot].process((ImageGray)image[in],(GrayU8)image[out]); }
    public static void dropFilter( int slot ) { filter[slot] = null; }

    public static void makeFinder( int slot ) { finder[slot] = BOverrideFactoryBinaryContourFinder.chang2004.handle(); }
    public static void dropFinder( int slot ) { finder[slot] = null; }
    public static void setRule( int slot , int rule ) { finder[slot].setConnectRule(ConnectRule.values()[rule]); }
    public static void setSizes( int slot , int min , int max ) { finder[slot].setMinContour(min); finder[slot].setMaxContour(max); }
    public static void setInner( int slot , boolean v ) { finder[slot].setSaveInnerContour(v); }
    public static int[] settings( int slot ) { BinaryLabelContourFinder f = finder[slot]; return new int[]{f.getConnectRule().ordinal(),f.getMinContour(),f.getMaxContour(),f.isSaveInternalContours()?1:0}; }
    public static void find( int slot , int in , int out ) { finder[slot].process((GrayU8)image[in],(GrayS32)image[out]); }
    public static int[] contours( int slot ) {
        List<ContourPacked> l = finder[slot].getContours(); ArrayList<Integer> r = new ArrayList<>(); r.add(l.size());
        for( ContourPacked c : l ) { r.add(c.id); r.add(c.externalIndex); r.add(c.internalIndexes.size); for( int i = 0; i < c.internalIndexes.size; i++ ) r.add(c.internalIndexes.get(i)); }
        return r.stream().mapToInt(i -> i).toArray();
    }
    public static int[] load( int slot , int which ) {
        FastQueue<Point2D_I32> q = new FastQueue<>(Point2D_I32.class,true); for( int i = 0; i < which%7; i++ ) q.grow().set(-1,-1);
        finder[slot].loadContour(which,q); int[] r = new int[q.size*2]; for( int i = 0; i < q.size; i++ ) { r[2*i] = q.get(i).x; r[2*i+1] = q.get(i).y; } return r;
    }
    public static void write( int slot , int which , int[] xy ) { List<Point2D_I32> l = new ArrayList<>(); for( int i = 0; i+1 < xy.length; i += 2 ) l.add(new Point2D_I32(xy[i],xy[i+1])); finder[slot].writeContour(which,l); }
}
