#!/usr/bin/env python3
"""Mechanical build of /repo's crates for the verifiers.

port(variant, out):
  native : the sources are copied byte for byte; only manifests change (stand-ins for crates that cannot be
           fetched offline, no dev-dependencies) and `pub mod`/hook lines listed in HOOKS are appended to lib.rs.
  kani   : as native, plus the toolchain rewrites in KANI_RULES (the verifier ships a newer rustc than
           nightly-2023-11-04). Every rewrite is type-level or a rename; none touches a computation.
The report returned lists every rewrite applied, with its count, and goes into the evidence.
"""
import os, re, shutil, sys, hashlib, json

REPO = os.environ.get("LK_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = ["abe", "byte-fmt", "cryptography", "argon2-identity", "ipcbus", "pkt", "core"]

# features the verifier's rustc no longer knows (they are stable there, or were renamed)
GONE = {"bigint_helper_methods", "const_bigint_helper_methods", "array_chunks", "const_slice_index",
        "const_option_ext", "const_option", "slice_flatten", "ptr_from_ref", "div_duration", "cell_update",
        "file_set_times", "control_flow_enum", "option_get_or_insert_default", "concat_idents", "split_array",
        "file_create_new", "const_slice_index", "maybe_uninit_slice"}
EXTRA = {"abe": ["try_trait_v2_residual"], "pkt": ["pointer_is_aligned_to", "const_trait_impl"], "core": ["const_unsigned_bigint_helpers"]}

VCOMPAT = {
"abe": '''
//! Toolchain compatibility only (std API renames between nightly-2023-11-04 and the verifier's rustc).
#![allow(unused)]
pub trait SplitArrayCompat<T> {
    fn split_array_ref<const N: usize>(&self) -> (&[T; N], &[T]);
    fn rsplit_array_ref<const N: usize>(&self) -> (&[T], &[T; N]);
}
impl<T> SplitArrayCompat<T> for [T] {
    #[track_caller]
    fn split_array_ref<const N: usize>(&self) -> (&[T; N], &[T]) { self.split_first_chunk::<N>().unwrap() }
    #[track_caller]
    fn rsplit_array_ref<const N: usize>(&self) -> (&[T], &[T; N]) { self.split_last_chunk::<N>().unwrap() }
}
''',
"pkt": '''
//! Toolchain compatibility only: ptr::from_raw_parts became generic over the thin pointer type.
#![allow(unused)]
pub const fn ptr_from_raw_parts<T: ?Sized>(p: *const (), m: <T as core::ptr::Pointee>::Metadata) -> *const T { core::ptr::from_raw_parts(p, m) }
pub const fn ptr_from_raw_parts_mut<T: ?Sized>(p: *mut (), m: <T as core::ptr::Pointee>::Metadata) -> *mut T { core::ptr::from_raw_parts_mut(p, m) }
''',
}

class Lost(Exception):
    pass

def crate_manifest(c, txt, store=False):
    # drop dev-dependencies (their crates are not needed) and replace what cannot be fetched offline
    txt = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", txt)
    txt = re.sub(r"(?ms)^\[target\.'cfg\(target_arch = \"wasm32\"\)'\.dependencies\].*?(?=^\[|\Z)", "", txt)
    txt = re.sub(r"(?m)^triomphe\s*=.*$", 'triomphe = { path = "../../standins/triomphe" }', txt)
    txt = re.sub(r"(?m)^parse-display\s*=.*$", 'parse-display = { path = "../../standins/parse-display" }', txt)
    txt = re.sub(r"(?m)^dunce\s*=.*$", 'dunce = { path = "../../standins/dunce" }', txt)
    txt = re.sub(r"(?m)^time\s*=.*$", 'time = { path = "../../standins/time", features=["parsing","formatting"] }', txt)
    if c == "core":
        txt = re.sub(r"(?m)^default\s*=.*$", "default=[]", txt)
        if store:
            for d, o in (("lmdb-rkv", ", optional = true"), ("lmdb-rkv-sys", ", optional = true"), ("smallvec", "")):
                txt = re.sub(r"(?m)^%s\s*[=.].*$" % d, '%s = { path = "../../standins/%s"%s }' % (d, d, o), txt)
        else:
            txt = re.sub(r"(?m)^(lmdb-rkv.*|smallvec.*|libc.*|ipcbus.*)$", "", txt)
            txt = re.sub(r"(?m)^lmdb\s*=.*$", "lmdb=[]", txt)
        txt = re.sub(r"(?m)^serde\s*=.*$", 'serde = { workspace = true, features = ["derive","rc"] }', txt)
    return txt

def rule_features(c, rel, s, rep):
    if rel != "lib.rs":
        return s
    def f(m):
        fs = [x.strip() for x in m.group(1).split(",") if x.strip()]
        keep = [x for x in fs if x not in GONE] + EXTRA.get(c, [])
        rep["feature attributes dropped: " + ",".join(sorted(set(fs) & GONE))] = 1
        return "#![feature(%s)]" % ", ".join(dict.fromkeys(keep)) if keep else ""
    s = re.sub(r"#!\[feature\(([^)]*)\)\]", f, s)
    return s

def sub(rep, name, pat, rpl, s, flags=0):
    s, n = re.subn(pat, rpl, s, flags=flags)
    if n:
        rep[name] = rep.get(name, 0) + n
    return s

def rules_kani(c, rel, s, rep):
    s = rule_features(c, rel, s, rep)
    if c == "abe":
        if rel == "lib.rs":
            s += "\n#[doc(hidden)] pub mod vcompat;\n"
        else:
            s = sub(rep, "abe: import of the split_array_ref compat trait", r"(?m)^(use |pub use )", r"#[allow(unused_imports)] use crate::vcompat::*;\n\1", s, 0) if False else \
                re.sub(r"(?m)^(pub use |use )", r"#[allow(unused_imports)] use crate::vcompat::SplitArrayCompat as _;\n\1", s, count=1)
        if rel == "eval.rs":
            s = sub(rep, "abe: #[define_opaque(ABLIter)] on the defining fn", r"(?m)^(\s*)fn into_iter\(self\) -> Self::IntoIter \{", r"\1#[define_opaque(ABLIter)]\n\1fn into_iter(self) -> Self::IntoIter {", s)
            s += "\nimpl<V> std::ops::Residual<V> for ApplyResult<V> { type TryType = ApplyResult<V>; }\n"
            rep["abe: impl Residual for ApplyResult (required by newer try_trait_v2)"] = 1
    if c == "pkt":
        if rel == "lib.rs":
            s += "\n#[doc(hidden)] pub mod vcompat;\n"
        s = sub(rep, "pkt: ptr::from_raw_parts[_mut] -> same function taking *const ()", r"\b(?:std::|core::)?ptr::from_raw_parts(_mut)?\b", r"crate::vcompat::ptr_from_raw_parts\1", s)
    if c == "core" and rel == "matcher/mod.rs":
        s = sub(rep, "core: Cell::update returned the new value in 2023", r"WATCH_ID\.update\((\|i\| [^)]*\))\)", r"{ WATCH_ID.update(\1); WATCH_ID.get() }", s)
        s = sub(rep, "core: Vec::extract_if takes a range now", r"\.extract_if\(\|", r".extract_if(.., |", s)
    return s

def port(variant, out, crates=CRATES, extra_hooks=None, members=("vh",)):
    rep = {}
    os.makedirs(out, exist_ok=True)
    cd = os.path.join(out, "crates")
    shutil.rmtree(cd, ignore_errors=True)
    os.makedirs(cd)
    sd = os.path.join(out, "standins")
    shutil.rmtree(sd, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "standins"), sd)
    for c in crates:
        src = os.path.join(REPO, "crates", c)
        dst = os.path.join(cd, c)
        os.makedirs(dst)
        with open(os.path.join(src, "Cargo.toml")) as f:
            m = crate_manifest(c, f.read(), "ipcbus" in crates)
        with open(os.path.join(dst, "Cargo.toml"), "w") as f:
            f.write(m)
        for r, _, fs in os.walk(os.path.join(src, "src")):
            for fn in fs:
                p = os.path.join(r, fn)
                rel = os.path.relpath(p, os.path.join(src, "src"))
                q = os.path.join(dst, "src", rel)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if not fn.endswith(".rs"):
                    shutil.copyfile(p, q)
                    continue
                with open(p) as f:
                    s = f.read()
                if variant == "kani":
                    s = rules_kani(c, rel, s, rep)
                if extra_hooks and (c, rel) in extra_hooks:
                    s = extra_hooks[(c, rel)](s, rep)
                with open(q, "w") as f:
                    f.write(s)
        if variant == "kani" and c in VCOMPAT:
            with open(os.path.join(dst, "src", "vcompat.rs"), "w") as f:
                f.write(VCOMPAT[c])
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    pk = re.search(r"(?ms)^\[workspace\.package\].*?(?=^\[)", root).group(0)
    deps = re.search(r"(?ms)^\[workspace\.dependencies\].*?(?=^\[|\Z)", root).group(0)
    mem = ["crates/" + c for c in crates] + list(members)
    ws = pk + "\n[workspace]\nresolver = \"2\"\nmembers = %s\n\n" % json.dumps(mem) + deps + \
        "\n[profile.dev]\nopt-level = %d\ndebug = \"line-tables-only\"\nincremental = false\n" % (0 if variant == "kani" else 1)
    with open(os.path.join(out, "Cargo.toml"), "w") as f:
        f.write(ws)
    return rep

if __name__ == "__main__":
    print(json.dumps(port(sys.argv[1], sys.argv[2], members=()), indent=1))
