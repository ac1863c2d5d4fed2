package boofcv.struct.image;
public class GrayF64 extends ImageGray<GrayF64> {
    public double[] data;
    public GrayF64( int width , int height ) { super(width,height); }
    public GrayF64() { this(0,0); }
    @Override public Object _getData() { return data; }
    @Override public void _setData( Object data ) { this.data = (double[])data; }
    @Override protected Class<?> elementType() { return double.class; }
    @Override public GrayF64 createNew( int width , int height ) { return new GrayF64(width,height); }
}
