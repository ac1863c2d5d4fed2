package boofcv.core.image.border; public enum BorderType { SKIP, EXTENDED, NORMALIZED, REFLECT, WRAP, ZERO }
