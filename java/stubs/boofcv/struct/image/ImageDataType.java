package boofcv.struct.image;
public enum ImageDataType {
    U8(true,8,false), S8(true,8,true), U16(true,16,false), S16(true,16,true), S32(true,32,true), S64(true,64,true), F32(false,32,true), F64(false,64,true);
    private final boolean integer, signed; private final int bits;
    ImageDataType( boolean integer , int bits , boolean signed ) { this.integer = integer; this.bits = bits; this.signed = signed; }
    public boolean isInteger() { return integer; }
    public boolean isSigned() { return signed; }
    public int getNumBits() { return bits; }
}
