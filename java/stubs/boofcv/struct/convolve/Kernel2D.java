package boofcv.struct.convolve; public abstract class Kernel2D extends KernelBase {}
