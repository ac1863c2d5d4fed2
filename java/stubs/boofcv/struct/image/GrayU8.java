package boofcv.struct.image;
public class GrayU8 extends GrayI<GrayU8> {
    public byte[] data;
    public GrayU8( int width , int height ) { super(width,height); }
    public GrayU8() { this(0,0); }
    @Override public Object _getData() { return data; }
    @Override public void _setData( Object data ) { this.data = (byte[])data; }
    @Override protected Class<?> elementType() { return byte.class; }
    @Override public GrayU8 createNew( int width , int height ) { return new GrayU8(width,height); }
}
