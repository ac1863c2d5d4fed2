package boofcv.struct.image;
public abstract class ImageBase<T extends ImageBase<T>> {
    public int startIndex, stride, width, height;
    protected boolean subImage;
    public ImageType<T> imageType;
    public boolean isSubimage() { return subImage; }
    public int getWidth() { return width; }
    public int getHeight() { return height; }
    public int getStride() { return stride; }
    public int getStartIndex() { return startIndex; }
    public void setSubImage( boolean v ) { subImage = v; }
    public boolean isInBounds( int x , int y ) { return x >= 0 && x < width && y >= 0 && y < height; }
    public ImageType<T> getImageType() { return imageType; }
    public abstract void reshape( int width , int height );
    public void reshape( ImageBase<?> img ) { reshape(img.width,img.height); }
    public abstract T createNew( int width , int height );
    public T createSameShape() { return createNew(width,height); }
    public int totalPixels() { return width*height; }
}
