package boofcv.core.image.border; public class ImageBorder1D_S32<T extends boofcv.struct.image.GrayI<T>> extends ImageBorder_S32<T> implements ImageBorder1D { BorderIndex1D r, c; public ImageBorder1D_S32( BorderIndex1D r , BorderIndex1D c ) { this.r = r; this.c = c; } @Override public BorderIndex1D getRowWrap() { return r; } @Override public BorderIndex1D getColWrap() { return c; } }
