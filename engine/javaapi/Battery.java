// java Battery <dir written by natx ref> [indices...]
// The Java binding against what the Rust library computed; exit 1 with a line per difference.
import ethereum.cryptography.*;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;

public class Battery {
    static int bad = 0;
    static byte[] blob, com;
    static byte[][] cells, proofs;

    static void fail(String what) {
        bad++;
        System.out.println("FAILED " + (what.length() > 300 ? what.substring(0, 300) : what));
    }

    static byte[][] split(byte[] b, int n) {
        byte[][] r = new byte[b.length / n][];
        for (int i = 0; i < r.length; i++) r[i] = Arrays.copyOfRange(b, i * n, i * n + n);
        return r;
    }

    interface Call {
        Object run() throws Exception;
    }

    static void go(String what, Call f, Object want) {
        Object r;
        try {
            r = f.run();
        } catch (Throwable e) {
            if (want != null) fail(what + ": refused " + e);
            else if (!(e instanceof IllegalArgumentException)) fail(what + ": " + e);
            return;
        }
        if (want == null) fail(what + ": accepted " + r);
        else if (r instanceof CellsAndProofs) {
            CellsAndProofs o = (CellsAndProofs) r;
            if (!Arrays.deepEquals(o.cells, cells) || !Arrays.deepEquals(o.proofs, proofs)) fail(what + ": not the library's answer");
        } else if (r instanceof byte[]) {
            if (!Arrays.equals((byte[]) r, (byte[]) want)) fail(what + ": not the library's answer");
        } else if (!want.equals(r)) fail(what + ": not the library's answer " + r);
    }

    static byte[] cut(byte[] v, int d) {
        return Arrays.copyOf(v, v.length + d);
    }

    static <T> T[] put(T[] l, int at, T x) {
        T[] r = l.clone();
        r[at] = x;
        return r;
    }

    static long[] put(long[] l, int at, long x) {
        long[] r = l.clone();
        r[at] = x;
        return r;
    }

    public static void main(String[] a) throws Exception {
        Path d = Paths.get(a[0]);
        blob = Files.readAllBytes(d.resolve("blob.bin"));
        com = Files.readAllBytes(d.resolve("commitment.bin"));
        cells = split(Files.readAllBytes(d.resolve("cells.bin")), 2048);
        proofs = split(Files.readAllBytes(d.resolve("proofs.bin")), 48);
        new LibEthKZG(false, 1).close();
        System.out.println("BATTERY START");
        if (LibEthKZG.BYTES_PER_COMMITMENT != 48 || LibEthKZG.BYTES_PER_PROOF != 48 || LibEthKZG.BYTES_PER_FIELD_ELEMENT != 32
                || LibEthKZG.BYTES_PER_BLOB != 131072 || LibEthKZG.MAX_NUM_COLUMNS != 128 || LibEthKZG.BYTES_PER_CELL != 2048) fail("constants");
        Object ok = new Object();
        for (int t = 0; t < 3; t++) {
            LibEthKZG c = t == 2 ? new LibEthKZG() : new LibEthKZG(false, t * 3);
            go("commitment " + t, () -> c.blobToKZGCommitment(blob), com);
            go("compute " + t, () -> c.computeCellsAndKZGProofs(blob), ok);
            c.close();
            try {
                c.blobToKZGCommitment(blob);
                fail("a closed context is used");
            } catch (IllegalStateException e) {
            }
            c.close();
        }
        LibEthKZG c = new LibEthKZG(false, 1);
        byte[] high = blob.clone();
        high[32 * 77] = -1;
        byte[][] wrong = {new byte[0], cut(blob, -1), cut(blob, 1), cut(blob, -32), cut(blob, 131072), high, null};
        for (int i = 0; i < wrong.length; i++) {
            byte[] w = wrong[i];
            go("commitment of wrong blob " + i, () -> c.blobToKZGCommitment(w), null);
            go("compute of wrong blob " + i, () -> c.computeCellsAndKZGProofs(w), null);
        }
        Set<Long> values = new TreeSet<>(Arrays.asList(128L, 255L, 256L, 1L << 31, 1L << 32, (1L << 32) + 3, Long.MAX_VALUE, Long.MIN_VALUE, Long.MIN_VALUE + 3, -1L, -3L, -125L));
        for (int i = 1; i < a.length; i++) values.add(Long.parseUnsignedLong(a[i]));
        values.removeIf(x -> x >= 0 && x < 128);
        int[] half = new int[64];
        long[] hid = new long[64];
        byte[][] hc = new byte[64][];
        for (int i = 0; i < 64; i++) {
            half[i] = (i * 37 + 5) % 128;
            hid[i] = half[i];
            hc[i] = cells[half[i]];
        }
        long[] all = new long[128];
        for (int i = 0; i < 128; i++) all[i] = i;
        go("recover half", () -> c.recoverCellsAndKZGProofs(hid, hc), ok);
        go("recover all", () -> c.recoverCellsAndKZGProofs(all, cells), ok);
        go("recover nothing", () -> c.recoverCellsAndKZGProofs(new long[0], new byte[0][]), null);
        go("recover 63", () -> c.recoverCellsAndKZGProofs(Arrays.copyOf(hid, 63), Arrays.copyOf(hc, 63)), null);
        go("recover one index more", () -> c.recoverCellsAndKZGProofs(put(Arrays.copyOf(hid, 65), 64, 6), hc), null);
        go("recover one cell more", () -> c.recoverCellsAndKZGProofs(hid, put(Arrays.copyOf(hc, 65), 64, cells[6])), null);
        go("recover null indices", () -> c.recoverCellsAndKZGProofs(null, hc), null);
        go("recover null cells", () -> c.recoverCellsAndKZGProofs(hid, null), null);
        for (int at : new int[] {0, 31, 63}) {
            for (int n : new int[] {-1, 1, -2048, 2048})
                go("recover cell " + at + " of " + (2048 + n), () -> c.recoverCellsAndKZGProofs(hid, put(hc, at, cut(hc[at], n))), null);
            go("recover null cell " + at, () -> c.recoverCellsAndKZGProofs(hid, put(hc, at, null)), null);
            go("recover repeated " + at, () -> c.recoverCellsAndKZGProofs(put(hid, at, hid[(at + 1) % 64]), hc), null);
            for (long x : values) go("recover index " + at + " = " + x, () -> c.recoverCellsAndKZGProofs(put(hid, at, x), hc), null);
        }
        go("verify nothing", () -> c.verifyCellKZGProofBatch(new byte[0][], new long[0], new byte[0][], new byte[0][]), true);
        byte[] off = com.clone();
        off[47] ^= 1;
        byte[] cell = cells[0].clone();
        cell[32] = -1;
        for (int n : new int[] {1, 2, 5}) {
            byte[][] m = new byte[n][], e = new byte[n][], p = new byte[n][];
            long[] i = new long[n];
            for (int k = 0; k < n; k++) {
                m[k] = com;
                i[k] = half[k];
                e[k] = cells[half[k]];
                p[k] = proofs[half[k]];
            }
            String w = n + " cells";
            go(w, () -> c.verifyCellKZGProofBatch(m, i, e, p), true);
            for (int j = 0; j < n; j++) {
                int at = j;
                go(w + " wrong proof " + at, () -> c.verifyCellKZGProofBatch(m, i, e, put(p, at, proofs[90])), false);
                go(w + " wrong cell " + at, () -> c.verifyCellKZGProofBatch(m, i, put(e, at, cells[90]), p), false);
                go(w + " wrong index " + at, () -> c.verifyCellKZGProofBatch(m, put(i, at, 90), e, p), false);
                go(w + " wrong commitment " + at, () -> c.verifyCellKZGProofBatch(put(m, at, proofs[90]), i, e, p), false);
                for (int l = 0; l < 3; l++) {
                    int s = l == 1 ? 2048 : 48;
                    byte[] x = l == 0 ? m[at] : l == 1 ? e[at] : p[at];
                    for (int q : new int[] {-1, 1, -s, s, 0}) {
                        byte[] y = q == 0 ? null : cut(x, q);
                        byte[][] mm = l == 0 ? put(m, at, y) : m, ee = l == 1 ? put(e, at, y) : e, pp = l == 2 ? put(p, at, y) : p;
                        go(w + " list " + l + " item " + at + (q == 0 ? " null" : " of " + (s + q)), () -> c.verifyCellKZGProofBatch(mm, i, ee, pp), null);
                    }
                }
                go(w + " commitment " + at + " not a point", () -> c.verifyCellKZGProofBatch(put(m, at, off), i, e, p), null);
                go(w + " proof " + at + " not a point", () -> c.verifyCellKZGProofBatch(m, i, e, put(p, at, off)), null);
                go(w + " cell " + at + " not canonical", () -> c.verifyCellKZGProofBatch(m, i, put(e, at, cell), p), null);
                for (long x : values) go(w + " index " + at + " = " + x, () -> c.verifyCellKZGProofBatch(m, put(i, at, x), e, p), null);
            }
            for (int s : new int[] {-1, 1}) {
                byte[][] mm = Arrays.copyOf(m, n + s), ee = Arrays.copyOf(e, n + s), pp = Arrays.copyOf(p, n + s);
                long[] ii = Arrays.copyOf(i, n + s);
                if (s == 1) {
                    mm[n] = m[0];
                    ee[n] = e[0];
                    pp[n] = p[0];
                    ii[n] = i[0];
                }
                go(w + " commitments " + s, () -> c.verifyCellKZGProofBatch(mm, i, e, p), null);
                go(w + " indices " + s, () -> c.verifyCellKZGProofBatch(m, ii, e, p), null);
                go(w + " cell list " + s, () -> c.verifyCellKZGProofBatch(m, i, ee, p), null);
                go(w + " proofs " + s, () -> c.verifyCellKZGProofBatch(m, i, e, pp), null);
            }
            go(w + " null commitments", () -> c.verifyCellKZGProofBatch(null, i, e, p), null);
            go(w + " null indices", () -> c.verifyCellKZGProofBatch(m, null, e, p), null);
            go(w + " null cells", () -> c.verifyCellKZGProofBatch(m, i, null, p), null);
            go(w + " null proofs", () -> c.verifyCellKZGProofBatch(m, i, e, null), null);
        }
        go("commitment at the end", () -> c.blobToKZGCommitment(blob), com);
        go("compute at the end", () -> c.computeCellsAndKZGProofs(blob), ok);
        c.close();
        System.out.println(bad > 0 ? bad + " differences" : "BATTERY OK");
        System.exit(bad > 0 ? 1 : 0);
    }
}
