package boofcv.alg.filter.binary;
import org.ddogleg.struct.GrowQueue_I32;
public class ContourPacked { public int externalIndex, id; public GrowQueue_I32 internalIndexes = new GrowQueue_I32(); public void reset() { externalIndex = id = -1; internalIndexes.reset(); } }
