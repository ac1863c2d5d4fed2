package boofcv.struct.image;
public class GrayF32 extends ImageGray<GrayF32> {
    public float[] data;
    public GrayF32( int width , int height ) { super(width,height); }
    public GrayF32() { this(0,0); }
    @Override public Object _getData() { return data; }
    @Override public void _setData( Object data ) { this.data = (float[])data; }
    @Override protected Class<?> elementType() { return float.class; }
    @Override public GrayF32 createNew( int width , int height ) { return new GrayF32(width,height); }
}
