package boofcv.struct;
import georegression.struct.point.Point2D_I32; import org.ddogleg.struct.FastQueue; import java.util.List;
public class PackedSetsPoint2D_I32 {
    final int blockLength; final FastQueue<int[]> blocks; final FastQueue<BlockIndexLength> sets = new FastQueue<>(BlockIndexLength.class,true);
    public PackedSetsPoint2D_I32( final int blockLength ) {
        if( blockLength < 2 ) throw new IllegalArgumentException("Block length must be more than 2");
        this.blockLength = blockLength+(blockLength%2);
        blocks = new FastQueue<int[]>(1,int[].class,true) { @Override protected int[] createInstance() { return new int[blockLength+(blockLength%2)]; } };
        blocks.grow();
    }
    public void reset() { blocks.reset(); blocks.grow(); sets.reset(); }
    public int size() { return sets.size; }
    public void getSet( int which , FastQueue<Point2D_I32> list ) {
        list.reset(); BlockIndexLength set = sets.get(which);
        for( int i = 0; i < set.length; i++ ) { int index = set.start+i*2, blockIndex = set.block+index/blockLength; index %= blockLength; int[] block = blocks.get(blockIndex); list.grow().set(block[index],block[index+1]); }
    }
    public void writeOverSet( int which , List<Point2D_I32> points ) {
        BlockIndexLength set = sets.get(which);
        if( set.length != points.size() ) throw new IllegalArgumentException("points and set don't have the same length");
        for( int i = 0; i < set.length; i++ ) { int index = set.start+i*2, blockIndex = set.block+index/blockLength; index %= blockLength; Point2D_I32 p = points.get(i); int[] block = blocks.get(blockIndex); block[index] = p.x; block[index+1] = p.y; }
    }
}
