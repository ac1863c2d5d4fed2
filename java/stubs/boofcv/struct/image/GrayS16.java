package boofcv.struct.image;
public class GrayS16 extends GrayI<GrayS16> {
    public short[] data;
    public GrayS16( int width , int height ) { super(width,height); }
    public GrayS16() { this(0,0); }
    @Override public Object _getData() { return data; }
    @Override public void _setData( Object data ) { this.data = (short[])data; }
    @Override protected Class<?> elementType() { return short.class; }
    @Override public GrayS16 createNew( int width , int height ) { return new GrayS16(width,height); }
}
