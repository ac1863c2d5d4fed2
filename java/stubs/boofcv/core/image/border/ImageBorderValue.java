package boofcv.core.image.border;
import boofcv.struct.image.*;
public class ImageBorderValue {
    public static class Value_F32 extends ImageBorder_F32 { public float value; public Value_F32( float value ) { this.value = value; } public float getValue() { return value; } }
    public static class Value_I<T extends GrayI<T>> extends ImageBorder_S32<T> { public int value; public Value_I( int value ) { this.value = value; } public int getValue() { return value; } }
    public static class Value_F64 extends ImageBorder<GrayF64> { public double value; public Value_F64( double value ) { this.value = value; } }
}
