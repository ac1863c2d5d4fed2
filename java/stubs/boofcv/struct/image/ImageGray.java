package boofcv.struct.image;
@SuppressWarnings({"unchecked","rawtypes"})
public abstract class ImageGray<T extends ImageGray<T>> extends ImageBase<T> {
    protected ImageGray( int width , int height ) { this.imageType = (ImageType<T>)(ImageType)ImageType.single((Class)getClass()); _setData(java.lang.reflect.Array.newInstance(elementType(),width*height)); this.width = width; this.height = height; this.stride = width; }
    public abstract Object _getData();
    public abstract void _setData( Object data );
    protected abstract Class<?> elementType();
    @Override public void reshape( int width , int height ) {
        if( this.width == width && this.height == height ) return;
        if( isSubimage() ) throw new IllegalArgumentException("Can't reshape sub-images");
        if( java.lang.reflect.Array.getLength(_getData()) < width*height ) _setData(java.lang.reflect.Array.newInstance(elementType(),width*height));
        this.startIndex = 0; this.stride = width; this.width = width; this.height = height;
    }
    public ImageDataType getDataType() { return imageType.getDataType(); }
    public int getIndex( int x , int y ) { return startIndex+y*stride+x; }
}
