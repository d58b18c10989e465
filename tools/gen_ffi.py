"""rust/more.rs from CPython's headers: declarations of the rest of the C API, so that the extension still compiles when it
comes to use functions that it doesn't use today.  (Run by hand; needs /usr/include/python3.12 and gcc.)"""
import os, re, subprocess
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "rust")
src = subprocess.run(["gcc", "-E", "-P", "-I/usr/include/python3.12", "-xc", "-"], input="#include <Python.h>\n", capture_output=True, text=True, check=True).stdout
src = re.sub(r"__attribute__\s*\(\((?:[^()]|\([^()]*\))*\)\)", "", src)
T = {"int": "c_int", "long": "c_long", "unsigned long": "c_ulong", "long long": "c_longlong", "unsigned long long": "u64", "double": "f64", "float": "f32",
     "Py_ssize_t": "Py_ssize_t", "size_t": "usize", "Py_hash_t": "Py_hash_t", "unsigned int": "c_uint", "char": "c_char", "unsigned char": "c_uchar",
     "PyObject": "PyObject", "PyTypeObject": "PyTypeObject", "void": "c_void", "PyModuleDef": "PyModuleDef", "PyType_Spec": "PyType_Spec", "PyMethodDef": "PyMethodDef",
     "struct PyModuleDef": "PyModuleDef", "int64_t": "i64", "uint64_t": "u64", "uint32_t": "u32", "int32_t": "i32"}


def ty(t):
    t = t.strip()
    stars = t.count("*")
    const = bool(re.match(r"const\b", t))
    b = re.sub(r"\bconst\b|\*", " ", t)
    b = " ".join(b.split())
    if b not in T or (b == "void" and not stars):
        return None
    r = T[b]
    for k in range(stars):
        r = ("*const " if const and k == 0 else "*mut ") + r
    return r


def arg(a):
    a = a.strip()
    if a == "...":
        return "..."
    m = re.match(r"^(.*?)\b(\w+)\s*(\[\])?$", a)
    if not m:
        return ty(a)
    if m[1].strip() and ty(a) is None:
        t = ty(m[1])
        return "*mut " + t if t and m[3] else t
    return ty(a)


have = set(re.findall(r"\bfn (\w+)|static mut (\w+)|pub const (\w+)", open(os.path.join(R, "pyo3_ffi.rs")).read()))
have = {x for t in have for x in t if x}
fns, stat = {}, {}
for m in re.finditer(r"(?:extern\s+)?((?:const\s+)?(?:unsigned\s+)?(?:long\s+)?(?:struct\s+)?\w+[\s*]+)(Py\w+)\s*\(([^()]*)\)\s*;", src):
    ret, name, args = m.groups()
    if name in have or "static" in ret:
        continue
    r = "" if ret.strip() == "void" else ty(ret)
    a = [] if args.strip() == "void" else [arg(x) for x in args.split(",")]
    if r is None or None in a:
        continue
    a = [x if x == "..." else f"a{i}: {x}" for i, x in enumerate(a)]
    fns[name] = f"    pub fn {name}({', '.join(a)})" + (f" -> {r}" if r else "") + ";"
for m in re.finditer(r"extern\s+(PyTypeObject|PyObject\s*\*)\s*(Py\w+)\s*;", src):
    if m[2] not in have:
        stat[m[2]] = f"    pub static mut {m[2]}: {'PyTypeObject' if m[1] == 'PyTypeObject' else '*mut PyObject'};"
hand = '''
macro_rules! exact {
    ($($f:ident $t:ident),*) => { $(#[inline] pub unsafe fn $f(o: *mut PyObject) -> c_int { (Py_TYPE(o) == core::ptr::addr_of_mut!($t)) as c_int })* };
}
exact!(PyLong_CheckExact PyLong_Type, PyUnicode_CheckExact PyUnicode_Type, PyBytes_CheckExact PyBytes_Type, PyFloat_CheckExact PyFloat_Type,
       PyTuple_CheckExact PyTuple_Type, PyList_CheckExact PyList_Type, PyDict_CheckExact PyDict_Type, PyBool_Check PyBool_Type,
       PySet_CheckExact PySet_Type, PyModule_CheckExact PyModule_Type);
macro_rules! sub {
    ($($f:ident $bit:expr),*) => { $(#[inline] pub unsafe fn $f(o: *mut PyObject) -> c_int { ((*Py_TYPE(o)).tp_flags & (1 << $bit) != 0) as c_int })* };
}
sub!(PyList_Check 25, PyTuple_Check 26, PyDict_Check 29, PyType_Check 31);
#[inline] pub unsafe fn Py_REFCNT(o: *mut PyObject) -> Py_ssize_t { ((*o).ob_refcnt as u32) as Py_ssize_t }
#[inline] pub unsafe fn Py_SIZE(o: *mut PyObject) -> Py_ssize_t { (*o.cast::<PyVarObject>()).ob_size }
#[inline] pub unsafe fn Py_IS_TYPE(o: *mut PyObject, t: *mut PyTypeObject) -> c_int { (Py_TYPE(o) == t) as c_int }
#[inline] pub unsafe fn PyObject_TypeCheck(o: *mut PyObject, t: *mut PyTypeObject) -> c_int {
    (Py_TYPE(o) == t || PyType_IsSubtype(Py_TYPE(o), t) != 0) as c_int
}
#[inline] pub unsafe fn Py_XINCREF(o: *mut PyObject) { if !o.is_null() { Py_INCREF(o) } }
#[inline] pub unsafe fn PyTuple_SET_ITEM(t: *mut PyObject, i: Py_ssize_t, v: *mut PyObject) {
    *t.cast::<u8>().add(core::mem::size_of::<PyVarObject>()).cast::<*mut PyObject>().offset(i) = v
}
#[inline] pub unsafe fn PyType_HasFeature(t: *mut PyTypeObject, f: c_ulong) -> c_int { ((*t).tp_flags & f != 0) as c_int }
#[inline] pub unsafe fn Py_Ellipsis() -> *mut PyObject { core::ptr::addr_of_mut!(_Py_EllipsisObject) }
extern "C" { static mut _Py_EllipsisObject: PyObject; }
'''
for n in re.findall(r"pub unsafe fn (\w+)|^exact|(\w+) \d+[,)]", hand):
    for x in n:
        fns.pop(x, None)
with open(os.path.join(R, "more.rs"), "w") as f:
    f.write("// written by tools/gen_ffi.py\nuse super::*;\n" + hand + "extern \"C\" {\n" + "\n".join(stat[k] for k in sorted(stat)) + "\n" + "\n".join(fns[k] for k in sorted(fns)) + "\n}\n")
print(len(fns), "functions,", len(stat), "data")
