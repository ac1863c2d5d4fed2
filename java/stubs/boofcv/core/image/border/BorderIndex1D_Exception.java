package boofcv.core.image.border; public class BorderIndex1D_Exception extends BorderIndex1D { @Override public int getIndex( int i ) { if( i < 0 || i >= length ) throw new IllegalArgumentException(); return i; } }
