package boofcv.struct;
public class BlockIndexLength { public int start, length, block; public void set( int start , int length , int block ) { this.start = start; this.length = length; this.block = block; } }
