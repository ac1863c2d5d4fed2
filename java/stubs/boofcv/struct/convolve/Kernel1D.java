package boofcv.struct.convolve; public abstract class Kernel1D extends KernelBase {}
