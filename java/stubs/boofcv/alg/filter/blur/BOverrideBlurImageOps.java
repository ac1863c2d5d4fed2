package boofcv.alg.filter.blur;
import boofcv.struct.image.ImageBase;
@SuppressWarnings("rawtypes")
public class BOverrideBlurImageOps {
    public static Mean mean; public static Gaussian gaussian;
    public interface Mean<T extends ImageBase<T>> { void processMean( T input , T output , int radius , T storage ); }
    public interface Gaussian<T extends ImageBase<T>> { void processGaussian( T input , T output , double sigma , int radius , T storage ); }
}
