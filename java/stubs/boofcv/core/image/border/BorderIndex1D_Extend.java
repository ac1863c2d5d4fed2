package boofcv.core.image.border; public class BorderIndex1D_Extend extends BorderIndex1D { @Override public int getIndex( int i ) { return i < 0 ? 0 : i >= length ? length-1 : i; } }
