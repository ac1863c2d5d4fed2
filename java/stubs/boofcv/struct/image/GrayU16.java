package boofcv.struct.image;
public class GrayU16 extends GrayI<GrayU16> {
    public short[] data;
    public GrayU16( int width , int height ) { super(width,height); }
    public GrayU16() { this(0,0); }
    @Override public Object _getData() { return data; }
    @Override public void _setData( Object data ) { this.data = (short[])data; }
    @Override protected Class<?> elementType() { return short.class; }
    @Override public GrayU16 createNew( int width , int height ) { return new GrayU16(width,height); }
}
