package boofcv.core.image.border; public class ImageBorder1D_F32 extends ImageBorder_F32 implements ImageBorder1D { BorderIndex1D r, c; public ImageBorder1D_F32( BorderIndex1D r , BorderIndex1D c ) { this.r = r; this.c = c; } @Override public BorderIndex1D getRowWrap() { return r; } @Override public BorderIndex1D getColWrap() { return c; } }
