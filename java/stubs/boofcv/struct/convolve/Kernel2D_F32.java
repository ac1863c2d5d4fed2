package boofcv.struct.convolve; public class Kernel2D_F32 extends Kernel2D { public float[] data; public Kernel2D_F32( float[] data , int width , int offset ) { this.data = data; this.width = width; this.offset = offset; } @Override public boolean isInteger() { return false; } }
