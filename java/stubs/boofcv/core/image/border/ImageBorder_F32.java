package boofcv.core.image.border; public abstract class ImageBorder_F32 extends ImageBorder<boofcv.struct.image.GrayF32> {}
