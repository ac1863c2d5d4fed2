package boofcv.core.image.border; public interface ImageBorder1D { BorderIndex1D getRowWrap(); BorderIndex1D getColWrap(); }
