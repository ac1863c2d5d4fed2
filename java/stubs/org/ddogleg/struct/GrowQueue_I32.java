package org.ddogleg.struct;
public class GrowQueue_I32 {
    public int[] data; public int size;
    public GrowQueue_I32( int max ) { data = new int[max]; }
    public GrowQueue_I32() { this(10); }
    public void reset() { size = 0; }
    public void resize( int size ) { if( data.length < size ) data = new int[size]; this.size = size; }
    public void setTo( GrowQueue_I32 o ) { resize(o.size); System.arraycopy(o.data,0,data,0,size); }
    public void add( int v ) { push(v); }
    public void push( int v ) { if( size == data.length ) data = java.util.Arrays.copyOf(data,size*2+5); data[size++] = v; }
    public int get( int i ) { if( i < 0 || i >= size ) throw new IndexOutOfBoundsException("index = "+i+"  size = "+size); return data[i]; }
    public int size() { return size; }
    public int getSize() { return size; }
    public int[] getData() { return data; }
}
