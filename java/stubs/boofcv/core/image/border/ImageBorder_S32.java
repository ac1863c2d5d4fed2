package boofcv.core.image.border; public abstract class ImageBorder_S32<T extends boofcv.struct.image.GrayI<T>> extends ImageBorder<T> {}
