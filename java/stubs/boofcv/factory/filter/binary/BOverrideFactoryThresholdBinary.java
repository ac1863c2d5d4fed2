package boofcv.factory.filter.binary;
import boofcv.abst.filter.binary.InputToBinary; import boofcv.struct.ConfigLength; import boofcv.struct.image.ImageGray;
public class BOverrideFactoryThresholdBinary {
    public static GlobalFixed globalFixed; public static GlobalOtsu globalOtsu; public static LocalMean localMean; public static BlockMinMax blockMinMax; public static BlockMean blockMean; public static BlockOtsu blockOtsu;
    public interface GlobalFixed { <T extends ImageGray<T>> InputToBinary<T> handle( double threshold , boolean down , Class<T> inputType ); }
    public interface GlobalOtsu { <T extends ImageGray<T>> InputToBinary<T> handle( double minValue , double maxValue , boolean down , Class<T> inputType ); }
    public interface LocalMean { <T extends ImageGray<T>> InputToBinary<T> handle( ConfigLength width , double scale , boolean down , Class<T> inputType ); }
    public interface BlockMinMax { <T extends ImageGray<T>> InputToBinary<T> handle( ConfigLength width , double scale , boolean down , double minimumSpread , boolean thresholdFromLocalBlocks , Class<T> inputType ); }
    public interface BlockMean { <T extends ImageGray<T>> InputToBinary<T> handle( ConfigLength width , double scale , boolean down , boolean thresholdFromLocalBlocks , Class<T> inputType ); }
    public interface BlockOtsu { <T extends ImageGray<T>> InputToBinary<T> handle( boolean otsu2 , ConfigLength regionWidth , double tuning , double scale , boolean down , boolean thresholdFromLocalBlocks , Class<T> inputType ); }
}
