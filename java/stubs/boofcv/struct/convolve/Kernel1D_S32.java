package boofcv.struct.convolve; public class Kernel1D_S32 extends Kernel1D { public int[] data; public Kernel1D_S32( int[] data , int width , int offset ) { this.data = data; this.width = width; this.offset = offset; } @Override public boolean isInteger() { return true; } }
