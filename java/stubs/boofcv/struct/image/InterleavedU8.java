package boofcv.struct.image;
public class InterleavedU8 extends ImageBase<InterleavedU8> {
    public byte[] data; public int numBands;
    public InterleavedU8( int width , int height , int numBands ) { this.width = width; this.height = height; this.stride = width*numBands; this.numBands = numBands; data = new byte[width*height*numBands]; imageType = new ImageType<>(ImageType.Family.INTERLEAVED,ImageDataType.U8,numBands); }
    @Override public void reshape( int width , int height ) { if( data.length < width*height*numBands ) data = new byte[width*height*numBands]; this.width = width; this.height = height; this.stride = width*numBands; }
    @Override public InterleavedU8 createNew( int width , int height ) { return new InterleavedU8(width,height,numBands); }
}
