package boofcv.struct.image;
public class GrayS32 extends GrayI<GrayS32> {
    public int[] data;
    public GrayS32( int width , int height ) { super(width,height); }
    public GrayS32() { this(0,0); }
    @Override public Object _getData() { return data; }
    @Override public void _setData( Object data ) { this.data = (int[])data; }
    @Override protected Class<?> elementType() { return int.class; }
    @Override public GrayS32 createNew( int width , int height ) { return new GrayS32(width,height); }
}
