package boofcv.alg;
import boofcv.struct.image.ImageBase;
public class InputSanityCheck {
    public static <T extends ImageBase<T>> T checkDeclare( T input , T output ) { if( output == null ) output = input.createSameShape(); else output.reshape(input.width,input.height); return output; }
    public static void checkSameShape( ImageBase<?> a , ImageBase<?> b ) { if( a.width != b.width || a.height != b.height ) throw new IllegalArgumentException("Image shapes do not match"); }
}
