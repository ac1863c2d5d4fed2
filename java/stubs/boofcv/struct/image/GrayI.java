package boofcv.struct.image;
public abstract class GrayI<T extends GrayI<T>> extends ImageGray<T> { protected GrayI( int w , int h ) { super(w,h); } }
