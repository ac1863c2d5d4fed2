package boofcv.core.image.border; public abstract class BorderIndex1D { protected int length; public int getLength() { return length; } public void setLength( int length ) { this.length = length; } public abstract int getIndex( int index ); }
