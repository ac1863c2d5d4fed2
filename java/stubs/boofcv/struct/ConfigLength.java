package boofcv.struct;
public class ConfigLength {
    public double length = -1, fraction = -1;
    public ConfigLength( double length , double fraction ) { this.length = length; this.fraction = fraction; }
    public ConfigLength() {}
    public static ConfigLength fixed( double pixels ) { return new ConfigLength(pixels,-1); }
    public static ConfigLength relative( double fraction , double minimum ) { return new ConfigLength(minimum,fraction); }
    public boolean isFixed() { return !isRelative(); }
    public boolean isRelative() { return fraction >= 0; }
    public double getLength() { return length; }
    public double getFraction() { return fraction; }
}
