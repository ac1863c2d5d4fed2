package georegression.struct.point;
public class Point2D_I32 { public int x, y; public Point2D_I32( int x , int y ) { this.x = x; this.y = y; } public Point2D_I32() {} public void set( int x , int y ) { this.x = x; this.y = y; } public int getX() { return x; } public int getY() { return y; } }
