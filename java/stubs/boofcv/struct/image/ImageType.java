package boofcv.struct.image;
public class ImageType<T extends ImageBase<T>> implements java.io.Serializable {
    public enum Family { GRAY, PLANAR, INTERLEAVED }
    Family family; ImageDataType dataType; int numBands;
    public ImageType( Family family , ImageDataType dataType , int numBands ) { this.family = family; this.dataType = dataType; this.numBands = numBands; }
    @SuppressWarnings({"unchecked","rawtypes"})
    public static <I extends ImageGray<I>> ImageType<I> single( Class<I> type ) {
        ImageDataType d; Class c = type;
        if( c == GrayU8.class ) d = ImageDataType.U8; else if( c == GrayS16.class ) d = ImageDataType.S16; else if( c == GrayU16.class ) d = ImageDataType.U16;
        else if( c == GrayS32.class ) d = ImageDataType.S32; else if( c == GrayF32.class ) d = ImageDataType.F32; else if( c == GrayF64.class ) d = ImageDataType.F64;
        else throw new IllegalArgumentException("Unknown image type "+type);
        return new ImageType<>(Family.GRAY,d,1);
    }
    public Family getFamily() { return family; }
    public ImageDataType getDataType() { return dataType; }
    public int getNumBands() { return numBands; }
    @SuppressWarnings("rawtypes")
    public Class getImageClass() {
        switch( family ) {
            case GRAY: switch( dataType ) { case U8: return GrayU8.class; case S16: return GrayS16.class; case U16: return GrayU16.class; case S32: return GrayS32.class; case F32: return GrayF32.class; case F64: return GrayF64.class; default: break; } break;
            case PLANAR: return Planar.class;
            default: return InterleavedU8.class;
        }
        throw new RuntimeException("Support this image type thing");
    }
    public boolean isSameType( ImageType o ) { return family == o.family && dataType == o.dataType && numBands == o.numBands; }
}
