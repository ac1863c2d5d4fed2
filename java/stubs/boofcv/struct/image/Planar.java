package boofcv.struct.image;
@SuppressWarnings({"unchecked","rawtypes"})
public class Planar<T extends ImageGray<T>> extends ImageBase<Planar<T>> {
    public T[] bands; public Class<T> type;
    public Planar( Class<T> type , int width , int height , int numBands ) {
        this.type = type; this.width = width; this.height = height; this.stride = width; bands = (T[])java.lang.reflect.Array.newInstance(type,numBands);
        for( int i = 0; i < numBands; i++ ) try { bands[i] = type.getConstructor(int.class,int.class).newInstance(width,height); } catch( Exception e ) { throw new RuntimeException(e); }
        imageType = new ImageType<Planar<T>>(ImageType.Family.PLANAR,((ImageType)ImageType.single((Class)type)).getDataType(),numBands);
    }
    @Override public void reshape( int width , int height ) { this.width = width; this.height = height; this.stride = width; for( T b : bands ) b.reshape(width,height); }
    @Override public Planar<T> createNew( int width , int height ) { return new Planar<>(type,width,height,bands.length); }
    public T getBand( int i ) { return bands[i]; }
    public int getNumBands() { return bands.length; }
}
