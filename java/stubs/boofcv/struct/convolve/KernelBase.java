package boofcv.struct.convolve;
public abstract class KernelBase { public int width, offset; public int getWidth() { return width; } public int getOffset() { return offset; } public abstract boolean isInteger(); }
