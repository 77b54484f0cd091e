"""Writes the crate kani_unit builds: eip7594's sources with accessors appended, over the mock crates beside this file."""
import os, re, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ACCESS = {
    "verifier.rs": '''
pub mod kani_access {
    #[cfg(feature = "k_validate")]
    pub fn validate(d: &[crate::Bytes48Ref], r: &[u64], i: &[u64], c: &[crate::CellRef], p: &[crate::Bytes48Ref]) -> Result<(), crate::Error> {
        super::validation::verify_cell_kzg_proof_batch(d, r, i, c, p).map_err(Into::into)
    }
    #[cfg(feature = "k_dedup")]
    pub fn dedup<T: Eq + std::hash::Hash + Clone>(v: Vec<T>) -> (Vec<T>, Vec<u64>) {
        super::deduplicate_with_indices(v)
    }
}
''',
    "recovery.rs": '''
pub mod kani_access {
    #[cfg(feature = "k_recover")]
    pub fn validate(i: &[u64], c: &[crate::CellRef]) -> Result<(), crate::Error> {
        super::validation::recover_polynomial_coeff(i, c).map_err(Into::into)
    }
}
''',
    "serialization.rs": '''
pub mod kani_access {
    #[cfg(feature = "k_scalar")]
    pub fn scalars(b: &[u8]) -> Result<Vec<bls12_381::Scalar>, crate::Error> {
        super::deserialize_bytes_to_scalars(b).map_err(Into::into)
    }
    #[cfg(feature = "k_scalar")]
    pub fn cell_scalars(b: &[u8]) -> Result<Vec<bls12_381::Scalar>, crate::Error> {
        super::deserialize_cell_to_scalars(b).map_err(Into::into)
    }
    #[cfg(feature = "k_cell")]
    pub fn cell(v: &[bls12_381::Scalar]) -> Vec<u8> {
        super::serialize_scalars_to_cell(v)
    }
    #[cfg(feature = "k_point")]
    pub fn points(v: Vec<&[u8; 48]>) -> Result<Vec<bls12_381::G1Point>, crate::Error> {
        super::deserialize_compressed_g1_points(v).map_err(Into::into)
    }
}
''',
    "lib.rs": '''
pub mod kani_access {
    pub use crate::recovery::kani_access as recovery;
    pub use crate::serialization::kani_access as serialization;
    pub use crate::verifier::kani_access as verifier;
}
''',
}
FEATURES = ["k_validate", "k_dedup", "k_recover", "k_scalar", "k_cell", "k_point"]


def generate(dst, repo="/repo"):
    shutil.rmtree(dst, ignore_errors=True)
    src = os.path.join(dst, "eip7594", "src")
    shutil.copytree(os.path.join(repo, "eip7594", "src"), src)
    os.makedirs(os.path.join(dst, "eip7594", "data"))
    for f in os.listdir(os.path.join(repo, "eip7594", "data")):
        with open(os.path.join(dst, "eip7594", "data", f), "w") as g:
            g.write("{}")
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                t = open(p).read().replace("std::collections::", "coll::")
                if root == src:
                    t += ACCESS.get(f, "")
                with open(p, "w") as g:
                    g.write(t)
    m = os.path.join(HERE, "mocks")

    def dep(n):
        return '%s = { path = "%s/%s" }\n' % (n, m, n)
    head = '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n'
    tail = '[workspace]\n[lints.rust]\nunexpected_cfgs = "allow"\n'
    with open(os.path.join(dst, "eip7594", "Cargo.toml"), "w") as f:
        f.write(head % "rust_eth_kzg" + "[features]\nmultithreaded = []\nsinglethreaded = []\n")
        f.write("".join("%s = []\n" % x for x in FEATURES) + "[dependencies]\n")
        f.write("".join(dep(n) for n in ("bls12_381", "kzg_multi_open", "erasure_codes", "rayon", "serde", "serde_json", "hex", "coll")))
        f.write(tail)
    c = os.path.join(repo, "cryptography", "kzg_multi_open", "src", "fk20", "cosets.rs")
    os.makedirs(os.path.join(dst, "harness"))
    with open(os.path.join(dst, "harness", "cosets.rs"), "w") as f:
        f.write(re.sub(r"\b(bls12_381|polynomial)::", r"tiny::\1::", open(c).read()) if os.path.exists(c) else "compile_error!(\"no cosets.rs\");")
    with open(os.path.join(dst, "harness", "Cargo.toml"), "w") as f:
        f.write(head % "kani_unit" + "[features]\nk_cosets = [\"tiny\"]\n" + "".join('%s = ["rust_eth_kzg/%s"]\n' % (x, x) for x in FEATURES))
        f.write('[lib]\npath = "%s/src/lib.rs"\n[[bin]]\nname = "kani_unit"\npath = "%s/src/main.rs"\n[dependencies]\n' % (HERE, HERE))
        f.write('rust_eth_kzg = { path = "../eip7594" }\n' + "".join(dep(n) for n in ("bls12_381",)))
        f.write('tiny = { path = "%s/tiny", optional = true }\n' % m)
        f.write(tail + "[profile.dev]\noverflow-checks = true\n")
    return os.path.join(dst, "harness")
