package boofcv.core.image.border; public class BorderIndex1D_Reflect extends BorderIndex1D { @Override public int getIndex( int i ) { if( i < 0 ) return -i; if( i >= length ) return length-2-i%length; return i; } }
