package boofcv.core.image.border; public class BorderIndex1D_Wrap extends BorderIndex1D { @Override public int getIndex( int i ) { return i < 0 ? length+i : i%length; } }
