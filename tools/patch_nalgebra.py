#!/usr/bin/env python3
"""Copies the nalgebra the repository uses out of cargo's registry to /verif/work/nalgebra and inserts three
hooks, so that the symbolic executor can replace iterative numerical routines by their specification:

  0/1  Rotation2/Rotation3::from_matrix_eps (Mueller's iteration)
  2    svd_ordered3 (Jacobi-free 3x3 SVD: symmetric QR iteration, then QR)
  3    UnitQuaternion::from_rotation_matrix

A hook only ever answers for the symbolic scalar; f32 and f64 run nalgebra's own code."""
import os, re, shutil, sys, glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = os.path.join(V, "work", "nalgebra")
VERSION = re.search(r'name = "nalgebra"\nversion = "([^"]+)"', open(os.path.join(V, "symx", "Cargo.lock")).read()).group(1)

HOOK = '''
/// inserted by /verif/tools/patch_nalgebra.py
pub mod symx_hook {
    use core::any::TypeId;
    use core::sync::atomic::{AtomicUsize, Ordering};
    /// which routine, the type of the input, the input, where the output goes; true when answered
    pub type Hook = fn(usize, TypeId, *const (), *mut ()) -> bool;
    static HOOK: AtomicUsize = AtomicUsize::new(0);
    pub fn install(h: Hook) {
        HOOK.store(h as usize, Ordering::SeqCst)
    }
    pub(crate) fn call<I: 'static, O>(which: usize, input: &I, output: &mut O) -> bool {
        let p = HOOK.load(Ordering::Relaxed);
        if p == 0 {
            return false;
        }
        let h: Hook = unsafe { core::mem::transmute(p) };
        h(which, TypeId::of::<I>(), input as *const I as *const (), output as *mut O as *mut ())
    }
}
'''


def edit(path, old, new):
    p = os.path.join(DST, "src", path)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit(f"patch_nalgebra: {path}: anchor found {s.count(old)} times")
    open(p, "w").write(s.replace(old, new))


def main():
    stamp = os.path.join(DST, ".stamp")
    me = open(os.path.abspath(__file__)).read() + VERSION
    if os.path.exists(stamp) and open(stamp).read() == me:
        return
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    found = glob.glob(os.path.join(home, "registry", "src", "*", f"nalgebra-{VERSION}"))
    if not found:
        sys.exit("patch_nalgebra: no source of nalgebra " + VERSION)
    shutil.rmtree(DST, ignore_errors=True)
    os.makedirs(DST)
    shutil.copytree(os.path.join(found[0], "src"), os.path.join(DST, "src"))
    toml = open(os.path.join(found[0], "Cargo.toml")).read()
    # only what the library itself needs
    keep, skip = [], False
    for line in toml.splitlines():
        if line.startswith("["):
            skip = line.startswith(("[dev-dependencies", "[[example", "[[test", "[[bench", "[badges", "[package.metadata"))
        if not skip:
            keep.append(line)
    toml = "\n".join(keep) + "\n"
    open(os.path.join(DST, "Cargo.toml"), "w").write(toml)
    open(os.path.join(DST, "README.md"), "w").write("see tools/patch_nalgebra.py\n")
    p = os.path.join(DST, "src", "lib.rs")
    s = open(p).read()
    s = re.sub(r"#!?\[deny\([^\]]*\)\]", "", s)
    s = re.sub(r"#!\[deny\((.|\n)*?\)\]", "", s)
    open(p, "w").write(s + HOOK)
    for n in (2, 3):
        edit(
            "geometry/rotation_specialization.rs",
            f"pub fn from_matrix_eps(m: &Matrix{n}<T>, eps: T, mut max_iter: usize, guess: Self) -> Self\n    where\n        T: RealField,\n    {{\n",
            f"pub fn from_matrix_eps(m: &Matrix{n}<T>, eps: T, mut max_iter: usize, guess: Self) -> Self\n    where\n        T: RealField,\n    {{\n"
            f"        let mut symx = m.clone();\n        if crate::symx_hook::call({n - 2}, m, &mut symx) {{\n            return Self::from_matrix_unchecked(symx);\n        }}\n",
        )
    edit(
        "linalg/svd3.rs",
        ") -> Option<SVD<T, U3, U3>> {\n",
        ") -> Option<SVD<T, U3, U3>> {\n"
        "    let mut symx = (m.clone(), crate::Vector3::<T>::zeros(), m.clone());\n"
        "    if crate::symx_hook::call(2, m, &mut symx) {\n"
        "        let (u, singular_values, v_t) = symx;\n"
        "        return Some(SVD { u: compute_u.then_some(u), singular_values, v_t: compute_v.then_some(v_t) });\n    }\n",
    )
    p = os.path.join(DST, "src", "geometry", "quaternion_construction.rs")
    s = open(p).read()
    i = s.index("pub fn from_rotation_matrix(rotmat: &Rotation3<T>) -> Self {\n")
    j = s.index("{\n", i) + 2
    s = s[:j] + (
        "        let mut symx = Quaternion::new(T::zero(), T::zero(), T::zero(), T::zero());\n"
        "        if crate::symx_hook::call(3, rotmat.matrix(), &mut symx) {\n            return Self::new_unchecked(symx);\n        }\n"
    ) + s[j:]
    open(p, "w").write(s)
    open(stamp, "w").write(me)


main()
