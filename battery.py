"""battery.py c|node|java [index values...] -- a language binding, built as it is, against what the Rust library computes."""
import glob, os, shutil, sys
import check

V, B = check.V, check.B


class NoBattery(Exception):
    pass


def reference():
    d = os.path.join(B, "reference")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc, out = check.run([check.cargo_build("natx"), "ref", d], timeout=300)
    if rc != 0:
        raise NoBattery("the Rust library itself fails: " + out[-300:])
    return d


def run(which, values):
    """(exit code, output, command line); values in hexadecimal"""
    nums = sorted({int(v, 16) for v in values})
    how = f"python3 {V}/battery.py {which} " + " ".join(hex(n)[2:] for n in nums)
    try:
        if which == "c":
            exe = check.cargo_build("natx", ["capi"], "-capi")
            rc, out = check.run([exe, "all", "C19", "quick"], timeout=600)
            return rc, "\n".join(("FAILED " if l.startswith("    ") else "") + l for l in out.splitlines()), how
        ref = reference()
        if which == "node":
            check.cargo_build("jsapi")
            so = os.path.join(B, "jsapi", "debug", "libnode_eth_kzg.so")
            cmd = ["node", os.path.join(V, "engine", "jsapi", "battery.js"), so, ref] + [str(n) for n in nums]
        else:
            check.cargo_build("javaapi")
            cls = os.path.join(B, "javaapi", "classes")
            shutil.rmtree(cls, ignore_errors=True)
            src = glob.glob("/repo/bindings/java/java_code/src/main/java/ethereum/cryptography/*.java")
            rc, out = check.run(["javac", "-d", cls, *src, os.path.join(V, "engine", "javaapi", "Battery.java")], timeout=300)
            if rc != 0:
                raise NoBattery("the Java classes do not compile: " + out[-300:])
            cmd = ["java", "-Xmx2g", "-Djava.library.path=" + os.path.join(B, "javaapi", "debug"), "-cp", cls, "Battery", ref] + [str(n) for n in nums if n < 1 << 64]
    except check.NoAnswer as e:
        raise NoBattery(str(e))
    scratch = os.path.join(B, "scratch")
    os.makedirs(scratch, exist_ok=True)
    rc, out = check.run(cmd, cwd=scratch, timeout=600)
    if "BATTERY START" not in out or rc == 124:
        raise NoBattery(f"the {which} battery did not run: " + out[-300:])
    return rc, out, how


if __name__ == "__main__":
    rc, out, _ = run(sys.argv[1], sys.argv[2:])
    print(out)
    sys.exit(1 if rc else 0)
