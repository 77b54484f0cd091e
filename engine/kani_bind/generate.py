"""Writes the crate kani_bind builds: the sources of the language bindings over the mock crates beside this file."""
import os, shutil

HERE = os.path.dirname(os.path.abspath(__file__))


def generate(dst, repo="/repo"):
    shutil.rmtree(dst, ignore_errors=True)
    m = os.path.join(HERE, "mocks")

    def dep(n, d=None, extra=""):
        return '%s = { path = "%s/%s"%s }\n' % (n, m, d or n.replace("-", "_"), extra)
    head = '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n'
    tail = '[workspace]\n[lints.rust]\nunexpected_cfgs = "allow"\nwarnings = "allow"\n'
    for name, src, deps in (
        ("c_eth_kzg", "c/src", dep("rust_eth_kzg")),
        ("node_eth_kzg", "node/src", dep("rust_eth_kzg") + dep("napi") + dep("napi-derive")),
        ("java_eth_kzg", "java/rust_code/src", dep("jni") + dep("hex") + 'c_eth_kzg = { path = "../c_eth_kzg" }\n'),
    ):
        d = os.path.join(dst, name)
        shutil.copytree(os.path.join(repo, "bindings", src), os.path.join(d, "src"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(head % name + "[dependencies]\n" + deps + tail)
    os.makedirs(os.path.join(dst, "harness"))
    with open(os.path.join(dst, "harness", "Cargo.toml"), "w") as f:
        f.write(head % "kani_bind" + '[features]\nb_c = ["c_eth_kzg"]\nb_node = ["node_eth_kzg", "napi"]\nb_java = ["java_eth_kzg", "jni", "c_eth_kzg"]\n')
        f.write('[lib]\npath = "%s/src/lib.rs"\n[[bin]]\nname = "kani_bind"\npath = "%s/src/main.rs"\n[dependencies]\n' % (HERE, HERE))
        f.write("".join('%s = { path = "../%s", optional = true }\n' % (n, n) for n in ("c_eth_kzg", "node_eth_kzg", "java_eth_kzg")))
        f.write(dep("rust_eth_kzg") + dep("napi", extra=", optional = true") + dep("jni", extra=", optional = true"))
        f.write(tail + "[profile.dev]\noverflow-checks = true\n")
    return os.path.join(dst, "harness")
