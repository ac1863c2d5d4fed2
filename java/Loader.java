// Runs one scripted use of the native library loader for the C25 harness. One line of output per operation
import boofcv.abst.filter.binary.InputToBinary;
import boofcv.factory.filter.binary.BOverrideFactoryThresholdBinary;
import boofcv.struct.image.*;
import cz.adamh.utils.NativeUtils;
import org.boofcpp.BoofCPP;
import java.io.*;
import java.nio.file.*;
import java.util.*;

public class Loader {
    // hands out bytes in short reads, fails where it is told to
    static class Slow extends InputStream {
        final byte[] data; final int chunk, fail; int at = 0, closed = 0;
        Slow( byte[] data , int chunk , int fail ) { this.data = data; this.chunk = chunk; this.fail = fail; }
        @Override public int read() throws IOException { byte[] b = new byte[1]; int n = read(b,0,1); return n < 0 ? -1 : b[0] & 0xff; }
        @Override public int read( byte[] b , int off , int len ) throws IOException {
            if( fail >= 0 && at >= fail ) throw new IOException("no more");
            if( at >= data.length ) return -1;
            int n = Math.min(Math.min(chunk,len),data.length-at); if( fail >= 0 ) n = Math.min(n,fail-at); System.arraycopy(data,at,b,off,n); at += n; return n;
        }
        @Override public void close() { closed++; }
    }
    static String mapped( String under ) throws IOException {
        TreeSet<String> r = new TreeSet<>();
        for( String l : Files.readAllLines(Paths.get("/proc/self/maps")) ) { int i = l.indexOf('/'); if( i >= 0 && l.startsWith(under,i) && l.contains("/lib") ) r.add(l.substring(i)); }
        return String.join("|",r);
    }
    static String filter() {
        InputToBinary<GrayU8> f = BOverrideFactoryThresholdBinary.globalFixed.handle(10,false,GrayU8.class); GrayU8 in = new GrayU8(3,1), out = new GrayU8(3,1); in.data[0] = 5; in.data[1] = 10; in.data[2] = (byte)200;
        f.process(in,out); return out.data[0]+" "+out.data[1]+" "+out.data[2];
    }
    static String run( String[] a ) throws Throwable {
        switch( a[0] ) {
            case "initialize": {
                int n = Integer.parseInt(a[1]); String[] r = new String[n]; Thread[] t = new Thread[n];
                for( int i = 0; i < n; i++ ) { int k = i; t[i] = new Thread(() -> { try { if( k%2 == 0 ) BoofCPP.loadlib(); else BoofCPP.initialize(); r[k] = "fine"; } catch( Throwable e ) { r[k] = ""+e; } }); }
                for( Thread k : t ) k.start(); for( Thread k : t ) k.join(); for( String k : r ) if( !k.equals("fine") ) return k;
                BoofCPP.initialize(); return "fine";
            }
            case "filter": return filter();
            case "name": NativeUtils.setLibraryName(a[1]); return "fine";
            case "local": return ""+NativeUtils.loadLocalPath(new File(a[1]));
            case "jar": return ""+NativeUtils.loadLibraryFromJar(a[1]);
            case "mapped": return mapped(a[1]);
            case "copy": {
                int n = Integer.parseInt(a[2]), fail = Integer.parseInt(a[4]); byte[] d = new byte[n]; new Random(n).nextBytes(d); File f = new File(a[1]); if( a[5].equals("1") ) Files.write(f.toPath(),new byte[n/2+3000]);
                Slow s = new Slow(d,Integer.parseInt(a[3]),fail); String r = "fine"; try { NativeUtils.copy(s,f); } catch( IOException e ) { r = "failed"; }
                if( s.closed == 0 ) return "left the input open"; if( r.equals("fine") && !Arrays.equals(Files.readAllBytes(f.toPath()),d) ) r = "other contents"; f.delete(); return r;
            }
        }
        throw new Error("operation "+a[0]);
    }
    public static void main( String[] args ) throws Exception {
        for( String line : Files.readAllLines(Paths.get(args[0])) ) { String r; try { r = run(line.split("\t")); } catch( Throwable e ) { r = "threw "+e.getClass().getName()+" "+(""+e.getMessage()).split("\n")[0]; } System.out.println(r); }
        System.out.println("end");
    }
}
