package boofcv.misc; public class BoofMiscOps { }
