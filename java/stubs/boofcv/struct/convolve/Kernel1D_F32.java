package boofcv.struct.convolve; public class Kernel1D_F32 extends Kernel1D { public float[] data; public Kernel1D_F32( float[] data , int width , int offset ) { this.data = data; this.width = width; this.offset = offset; } @Override public boolean isInteger() { return false; } }
