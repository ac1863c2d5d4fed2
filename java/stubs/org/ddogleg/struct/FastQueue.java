package org.ddogleg.struct;
import java.util.*;
@SuppressWarnings("unchecked")
public class FastQueue<T> {
    public T[] data; public int size; public Class<T> type; private boolean declareInstances;
    public FastQueue( Class<T> type , boolean declareInstances ) { this(10,type,declareInstances); }
    public FastQueue( int initial , Class<T> type , boolean declareInstances ) { this.type = type; this.declareInstances = declareInstances; data = (T[])java.lang.reflect.Array.newInstance(type,initial); if( declareInstances ) for( int i = 0; i < initial; i++ ) data[i] = createInstance(); }
    public void reset() { size = 0; }
    public T get( int index ) { if( index >= size ) throw new IllegalArgumentException("Out of bounds: index "+index+"  size "+size); return data[index]; }
    public T getTail() { return data[size-1]; }
    public T grow() { if( size >= data.length ) growArray((data.length+5)*2); return data[size++]; }
    public void resize( int length ) { growArray(length); this.size = length; }
    public void growArray( int length ) {
        if( data.length >= length ) return;
        T[] d = (T[])java.lang.reflect.Array.newInstance(type,length); System.arraycopy(data,0,d,0,data.length);
        if( declareInstances ) for( int i = data.length; i < length; i++ ) d[i] = createInstance();
        data = d;
    }
    protected T createInstance() { try { return type.getConstructor().newInstance(); } catch( Exception e ) { throw new RuntimeException(e); } }
    public List<T> toList() { List<T> l = new ArrayList<>(); for( int i = 0; i < size; i++ ) l.add(data[i]); return l; }
    public int size() { return size; }
    public int getSize() { return size; }
    public boolean isEmpty() { return size == 0; }
    public T[] getData() { return data; }
}
