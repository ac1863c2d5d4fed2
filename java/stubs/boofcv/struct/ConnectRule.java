package boofcv.struct;
public enum ConnectRule { FOUR("4-connect"), EIGHT("8-connect"); String shortName; ConnectRule( String s ) { shortName = s; } public String getShortName() { return shortName; } }
