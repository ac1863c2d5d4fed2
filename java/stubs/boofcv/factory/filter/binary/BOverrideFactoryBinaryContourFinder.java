package boofcv.factory.filter.binary;
import boofcv.abst.filter.binary.BinaryLabelContourFinder;
public class BOverrideFactoryBinaryContourFinder { public static BinaryLabelContour chang2004; public interface BinaryLabelContour { BinaryLabelContourFinder handle(); } }
