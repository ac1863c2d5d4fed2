package boofcv.struct.convolve; public class Kernel2D_S32 extends Kernel2D { public int[] data; public Kernel2D_S32( int[] data , int width , int offset ) { this.data = data; this.width = width; this.offset = offset; } @Override public boolean isInteger() { return true; } }
