//! A stand-in for the crate `pyo3-ffi` 0.23 (which cannot be fetched here): the declarations of CPython 3.12's C API that
//! /repo/src uses, in the layout of /usr/include/python3.12.  Nothing here is part of what is being checked.
#![allow(non_camel_case_types, non_snake_case, non_upper_case_globals, clippy::all)]
mod more;
pub use more::*;
pub use core::ffi::{c_char, c_int, c_long, c_longlong, c_uchar, c_uint, c_ulong, c_void, CStr};

pub type Py_ssize_t = isize;
pub type Py_hash_t = isize;

#[repr(C)]
pub struct PyObject {
    pub ob_refcnt: Py_ssize_t,
    pub ob_type: *mut PyTypeObject,
}
#[repr(C)]
pub struct PyVarObject {
    pub ob_base: PyObject,
    pub ob_size: Py_ssize_t,
}
pub type visitproc = unsafe extern "C" fn(*mut PyObject, *mut c_void) -> c_int;
pub type traverseproc = unsafe extern "C" fn(*mut PyObject, visitproc, *mut c_void) -> c_int;
pub type inquiry = unsafe extern "C" fn(*mut PyObject) -> c_int;
pub type freefunc = unsafe extern "C" fn(*mut c_void);
pub type destructor = unsafe extern "C" fn(*mut PyObject);
pub type getter = unsafe extern "C" fn(*mut PyObject, *mut c_void) -> *mut PyObject;
pub type setter = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut c_void) -> c_int;
pub type hashfunc = unsafe extern "C" fn(*mut PyObject) -> Py_hash_t;
pub type allocfunc = unsafe extern "C" fn(*mut PyTypeObject, Py_ssize_t) -> *mut PyObject;
pub type newfunc = unsafe extern "C" fn(*mut PyTypeObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
pub type initproc = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> c_int;
pub type descrgetfunc = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
pub type descrsetfunc = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> c_int;
pub type vectorcallfunc = unsafe extern "C" fn(*mut PyObject, *const *mut PyObject, usize, *mut PyObject) -> *mut PyObject;

#[repr(C)]
pub struct PyTypeObject {
    pub ob_base: PyVarObject,
    pub tp_name: *const c_char,
    pub tp_basicsize: Py_ssize_t,
    pub tp_itemsize: Py_ssize_t,
    pub tp_dealloc: Option<destructor>,
    pub tp_vectorcall_offset: Py_ssize_t,
    pub tp_getattr: *mut c_void,
    pub tp_setattr: *mut c_void,
    pub tp_as_async: *mut c_void,
    pub tp_repr: *mut c_void,
    pub tp_as_number: *mut c_void,
    pub tp_as_sequence: *mut c_void,
    pub tp_as_mapping: *mut c_void,
    pub tp_hash: Option<hashfunc>,
    pub tp_call: *mut c_void,
    pub tp_str: *mut c_void,
    pub tp_getattro: *mut c_void,
    pub tp_setattro: *mut c_void,
    pub tp_as_buffer: *mut c_void,
    pub tp_flags: c_ulong,
    pub tp_doc: *const c_char,
    pub tp_traverse: Option<traverseproc>,
    pub tp_clear: Option<inquiry>,
    pub tp_richcompare: *mut c_void,
    pub tp_weaklistoffset: Py_ssize_t,
    pub tp_iter: *mut c_void,
    pub tp_iternext: *mut c_void,
    pub tp_methods: *mut PyMethodDef,
    pub tp_members: *mut c_void,
    pub tp_getset: *mut PyGetSetDef,
    pub tp_base: *mut PyTypeObject,
    pub tp_dict: *mut PyObject,
    pub tp_descr_get: Option<descrgetfunc>,
    pub tp_descr_set: Option<descrsetfunc>,
    pub tp_dictoffset: Py_ssize_t,
    pub tp_init: Option<initproc>,
    pub tp_alloc: Option<allocfunc>,
    pub tp_new: Option<newfunc>,
    pub tp_free: Option<freefunc>,
    pub tp_is_gc: Option<inquiry>,
    pub tp_bases: *mut PyObject,
    pub tp_mro: *mut PyObject,
    pub tp_cache: *mut PyObject,
    pub tp_subclasses: *mut c_void,
    pub tp_weaklist: *mut PyObject,
    pub tp_del: Option<destructor>,
    pub tp_version_tag: c_uint,
    pub tp_finalize: Option<destructor>,
    pub tp_vectorcall: Option<vectorcallfunc>,
    pub tp_watched: c_uchar,
}

// ---- methods, getters, types, modules
pub type PyCFunction = unsafe extern "C" fn(*mut PyObject, *mut PyObject) -> *mut PyObject;
pub type PyCFunctionFast = unsafe extern "C" fn(*mut PyObject, *mut *mut PyObject, Py_ssize_t) -> *mut PyObject;
pub type PyCFunctionWithKeywords = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
pub type PyCMethod =
    unsafe extern "C" fn(*mut PyObject, *mut PyTypeObject, *const *mut PyObject, Py_ssize_t, *mut PyObject) -> *mut PyObject;

#[repr(C)]
#[derive(Copy, Clone)]
pub union PyMethodDefPointer {
    pub PyCFunction: PyCFunction,
    pub PyCFunctionFast: PyCFunctionFast,
    pub PyCFunctionWithKeywords: PyCFunctionWithKeywords,
    pub PyCMethod: PyCMethod,
    pub Void: *mut c_void,
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyMethodDef {
    pub ml_name: *const c_char,
    pub ml_meth: PyMethodDefPointer,
    pub ml_flags: c_int,
    pub ml_doc: *const c_char,
}
impl PyMethodDef {
    pub const fn zeroed() -> PyMethodDef {
        PyMethodDef {
            ml_name: core::ptr::null(),
            ml_meth: PyMethodDefPointer { Void: core::ptr::null_mut() },
            ml_flags: 0,
            ml_doc: core::ptr::null(),
        }
    }
}
unsafe impl Sync for PyMethodDef {}
pub const METH_VARARGS: c_int = 0x0001;
pub const METH_KEYWORDS: c_int = 0x0002;
pub const METH_NOARGS: c_int = 0x0004;
pub const METH_O: c_int = 0x0008;
pub const METH_CLASS: c_int = 0x0010;
pub const METH_STATIC: c_int = 0x0020;
pub const METH_COEXIST: c_int = 0x0040;
pub const METH_FASTCALL: c_int = 0x0080;
pub const METH_METHOD: c_int = 0x0200;

#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyGetSetDef {
    pub name: *const c_char,
    pub get: Option<getter>,
    pub set: Option<setter>,
    pub doc: *const c_char,
    pub closure: *mut c_void,
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyType_Slot {
    pub slot: c_int,
    pub pfunc: *mut c_void,
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyType_Spec {
    pub name: *const c_char,
    pub basicsize: c_int,
    pub itemsize: c_int,
    pub flags: c_uint,
    pub slots: *mut PyType_Slot,
}
#[repr(C)]
pub struct PyModuleDef_Base {
    pub ob_base: PyObject,
    pub m_init: Option<unsafe extern "C" fn() -> *mut PyObject>,
    pub m_index: Py_ssize_t,
    pub m_copy: *mut PyObject,
}
pub const PyModuleDef_HEAD_INIT: PyModuleDef_Base = PyModuleDef_Base {
    ob_base: PyObject { ob_refcnt: 0xFFFF_FFFF, ob_type: core::ptr::null_mut() },
    m_init: None,
    m_index: 0,
    m_copy: core::ptr::null_mut(),
};
#[repr(C)]
pub struct PyModuleDef_Slot {
    pub slot: c_int,
    pub value: *mut c_void,
}
#[repr(C)]
pub struct PyModuleDef {
    pub m_base: PyModuleDef_Base,
    pub m_name: *const c_char,
    pub m_doc: *const c_char,
    pub m_size: Py_ssize_t,
    pub m_methods: *mut PyMethodDef,
    pub m_slots: *mut PyModuleDef_Slot,
    pub m_traverse: Option<traverseproc>,
    pub m_clear: Option<inquiry>,
    pub m_free: Option<freefunc>,
}
pub const Py_mod_create: c_int = 1;
pub const Py_mod_exec: c_int = 2;
pub const Py_mod_multiple_interpreters: c_int = 3;
pub const Py_MOD_PER_INTERPRETER_GIL_SUPPORTED: *mut c_void = 2 as *mut c_void;

pub const Py_TPFLAGS_IMMUTABLETYPE: c_ulong = 1 << 8;
pub const Py_TPFLAGS_HEAPTYPE: c_ulong = 1 << 9;
pub const Py_TPFLAGS_BASETYPE: c_ulong = 1 << 10;
pub const Py_TPFLAGS_HAVE_GC: c_ulong = 1 << 14;
pub const Py_TPFLAGS_HAVE_VERSION_TAG: c_ulong = 1 << 18;
pub const Py_TPFLAGS_DEFAULT: c_ulong = 0;
pub const Py_TPFLAGS_LONG_SUBCLASS: c_ulong = 1 << 24;
pub const Py_TPFLAGS_TUPLE_SUBCLASS: c_ulong = 1 << 26;
pub const Py_TPFLAGS_BYTES_SUBCLASS: c_ulong = 1 << 27;
pub const Py_TPFLAGS_UNICODE_SUBCLASS: c_ulong = 1 << 28;
pub const Py_TPFLAGS_DICT_SUBCLASS: c_ulong = 1 << 29;

pub const Py_LT: c_int = 0;
pub const Py_LE: c_int = 1;
pub const Py_EQ: c_int = 2;
pub const Py_NE: c_int = 3;
pub const Py_GT: c_int = 4;
pub const Py_GE: c_int = 5;

pub const Py_bf_getbuffer: c_int = 1;
pub const Py_bf_releasebuffer: c_int = 2;
pub const Py_mp_ass_subscript: c_int = 3;
pub const Py_mp_length: c_int = 4;
pub const Py_mp_subscript: c_int = 5;
pub const Py_nb_absolute: c_int = 6;
pub const Py_nb_add: c_int = 7;
pub const Py_nb_and: c_int = 8;
pub const Py_nb_bool: c_int = 9;
pub const Py_nb_divmod: c_int = 10;
pub const Py_nb_float: c_int = 11;
pub const Py_nb_floor_divide: c_int = 12;
pub const Py_nb_index: c_int = 13;
pub const Py_nb_inplace_add: c_int = 14;
pub const Py_nb_inplace_and: c_int = 15;
pub const Py_nb_inplace_floor_divide: c_int = 16;
pub const Py_nb_inplace_lshift: c_int = 17;
pub const Py_nb_inplace_multiply: c_int = 18;
pub const Py_nb_inplace_or: c_int = 19;
pub const Py_nb_inplace_power: c_int = 20;
pub const Py_nb_inplace_remainder: c_int = 21;
pub const Py_nb_inplace_rshift: c_int = 22;
pub const Py_nb_inplace_subtract: c_int = 23;
pub const Py_nb_inplace_true_divide: c_int = 24;
pub const Py_nb_inplace_xor: c_int = 25;
pub const Py_nb_int: c_int = 26;
pub const Py_nb_invert: c_int = 27;
pub const Py_nb_lshift: c_int = 28;
pub const Py_nb_multiply: c_int = 29;
pub const Py_nb_negative: c_int = 30;
pub const Py_nb_or: c_int = 31;
pub const Py_nb_positive: c_int = 32;
pub const Py_nb_power: c_int = 33;
pub const Py_nb_remainder: c_int = 34;
pub const Py_nb_rshift: c_int = 35;
pub const Py_nb_subtract: c_int = 36;
pub const Py_nb_true_divide: c_int = 37;
pub const Py_nb_xor: c_int = 38;
pub const Py_sq_ass_item: c_int = 39;
pub const Py_sq_concat: c_int = 40;
pub const Py_sq_contains: c_int = 41;
pub const Py_sq_inplace_concat: c_int = 42;
pub const Py_sq_inplace_repeat: c_int = 43;
pub const Py_sq_item: c_int = 44;
pub const Py_sq_length: c_int = 45;
pub const Py_sq_repeat: c_int = 46;
pub const Py_tp_alloc: c_int = 47;
pub const Py_tp_base: c_int = 48;
pub const Py_tp_bases: c_int = 49;
pub const Py_tp_call: c_int = 50;
pub const Py_tp_clear: c_int = 51;
pub const Py_tp_dealloc: c_int = 52;
pub const Py_tp_del: c_int = 53;
pub const Py_tp_descr_get: c_int = 54;
pub const Py_tp_descr_set: c_int = 55;
pub const Py_tp_doc: c_int = 56;
pub const Py_tp_getattr: c_int = 57;
pub const Py_tp_getattro: c_int = 58;
pub const Py_tp_hash: c_int = 59;
pub const Py_tp_init: c_int = 60;
pub const Py_tp_is_gc: c_int = 61;
pub const Py_tp_iter: c_int = 62;
pub const Py_tp_iternext: c_int = 63;
pub const Py_tp_methods: c_int = 64;
pub const Py_tp_new: c_int = 65;
pub const Py_tp_repr: c_int = 66;
pub const Py_tp_richcompare: c_int = 67;
pub const Py_tp_setattr: c_int = 68;
pub const Py_tp_setattro: c_int = 69;
pub const Py_tp_str: c_int = 70;
pub const Py_tp_traverse: c_int = 71;
pub const Py_tp_members: c_int = 72;
pub const Py_tp_getset: c_int = 73;
pub const Py_tp_free: c_int = 74;
pub const Py_nb_matrix_multiply: c_int = 75;
pub const Py_nb_inplace_matrix_multiply: c_int = 76;
pub const Py_am_await: c_int = 77;
pub const Py_am_aiter: c_int = 78;
pub const Py_am_anext: c_int = 79;
pub const Py_tp_finalize: c_int = 80;
pub const Py_am_send: c_int = 81;

// ---- inline functions of the headers
#[inline]
pub unsafe fn Py_TYPE(o: *mut PyObject) -> *mut PyTypeObject {
    (*o).ob_type
}
#[inline]
unsafe fn fast_subclass(o: *mut PyObject, flag: c_ulong) -> c_int {
    ((*Py_TYPE(o)).tp_flags & flag != 0) as c_int
}
#[inline]
pub unsafe fn PyLong_Check(o: *mut PyObject) -> c_int {
    fast_subclass(o, Py_TPFLAGS_LONG_SUBCLASS)
}
#[inline]
pub unsafe fn PyUnicode_Check(o: *mut PyObject) -> c_int {
    fast_subclass(o, Py_TPFLAGS_UNICODE_SUBCLASS)
}
#[inline]
pub unsafe fn PyBytes_Check(o: *mut PyObject) -> c_int {
    fast_subclass(o, Py_TPFLAGS_BYTES_SUBCLASS)
}
#[inline]
unsafe fn type_check(o: *mut PyObject, t: *mut PyTypeObject) -> c_int {
    (Py_TYPE(o) == t || PyType_IsSubtype(Py_TYPE(o), t) != 0) as c_int
}
#[inline]
pub unsafe fn PyFloat_Check(o: *mut PyObject) -> c_int {
    type_check(o, core::ptr::addr_of_mut!(PyFloat_Type))
}
#[inline]
pub unsafe fn PyTuple_GET_SIZE(o: *mut PyObject) -> Py_ssize_t {
    (*o.cast::<PyVarObject>()).ob_size
}
#[inline]
pub unsafe fn PyTuple_GET_ITEM(o: *mut PyObject, i: Py_ssize_t) -> *mut PyObject {
    *o.cast::<u8>().add(core::mem::size_of::<PyVarObject>()).cast::<*mut PyObject>().offset(i)
}
#[inline]
pub unsafe fn PyVectorcall_NARGS(n: usize) -> Py_ssize_t {
    (n & !(1usize << (8 * core::mem::size_of::<usize>() - 1))) as Py_ssize_t
}
#[inline]
pub unsafe fn Py_INCREF(o: *mut PyObject) {
    Py_IncRef(o)
}
#[inline]
pub unsafe fn Py_DECREF(o: *mut PyObject) {
    Py_DecRef(o)
}
#[inline]
pub unsafe fn Py_XDECREF(o: *mut PyObject) {
    if !o.is_null() {
        Py_DECREF(o)
    }
}
#[inline]
pub unsafe fn Py_CLEAR(op: *mut *mut PyObject) {
    let tmp = *op;
    if !tmp.is_null() {
        *op = core::ptr::null_mut();
        Py_DECREF(tmp);
    }
}
#[inline]
pub unsafe fn Py_None() -> *mut PyObject {
    core::ptr::addr_of_mut!(_Py_NoneStruct)
}
#[inline]
pub unsafe fn Py_IsNone(o: *mut PyObject) -> c_int {
    (o == Py_None()) as c_int
}
#[inline]
pub unsafe fn Py_True() -> *mut PyObject {
    core::ptr::addr_of_mut!(_Py_TrueStruct)
}
#[inline]
pub unsafe fn Py_False() -> *mut PyObject {
    core::ptr::addr_of_mut!(_Py_FalseStruct)
}
#[inline]
pub unsafe fn Py_NotImplemented() -> *mut PyObject {
    core::ptr::addr_of_mut!(_Py_NotImplementedStruct)
}
#[inline]
pub unsafe fn PyObject_CallMethodNoArgs(o: *mut PyObject, name: *mut PyObject) -> *mut PyObject {
    PyObject_CallMethodObjArgs(o, name, core::ptr::null_mut::<PyObject>())
}
#[inline]
pub unsafe fn PyObject_CallMethodOneArg(o: *mut PyObject, name: *mut PyObject, a: *mut PyObject) -> *mut PyObject {
    PyObject_CallMethodObjArgs(o, name, a, core::ptr::null_mut::<PyObject>())
}
#[inline]
pub unsafe fn PyLong_FromI128(_: i128) {}

// ---- datetime
#[repr(C)]
pub struct PyDateTime_CAPI {
    pub DateType: *mut PyTypeObject,
    pub DateTimeType: *mut PyTypeObject,
    pub TimeType: *mut PyTypeObject,
    pub DeltaType: *mut PyTypeObject,
    pub TZInfoType: *mut PyTypeObject,
    pub TimeZone_UTC: *mut PyObject,
    pub Date_FromDate: unsafe extern "C" fn(c_int, c_int, c_int, *mut PyTypeObject) -> *mut PyObject,
    pub DateTime_FromDateAndTime:
        unsafe extern "C" fn(c_int, c_int, c_int, c_int, c_int, c_int, c_int, *mut PyObject, *mut PyTypeObject) -> *mut PyObject,
    pub Time_FromTime: unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyObject, *mut PyTypeObject) -> *mut PyObject,
    pub Delta_FromDelta: unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyTypeObject) -> *mut PyObject,
    pub TimeZone_FromTimeZone: unsafe extern "C" fn(*mut PyObject, *mut PyObject) -> *mut PyObject,
    pub DateTime_FromTimestamp: unsafe extern "C" fn(*mut PyTypeObject, *mut PyObject, *mut PyObject) -> *mut PyObject,
    pub Date_FromTimestamp: unsafe extern "C" fn(*mut PyTypeObject, *mut PyObject) -> *mut PyObject,
    pub DateTime_FromDateAndTimeAndFold: unsafe extern "C" fn(
        c_int, c_int, c_int, c_int, c_int, c_int, c_int, *mut PyObject, c_int, *mut PyTypeObject,
    ) -> *mut PyObject,
    pub Time_FromTimeAndFold: unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyObject, c_int, *mut PyTypeObject) -> *mut PyObject,
}
unsafe impl Sync for PyDateTime_CAPI {}
static mut DATETIME_API: *mut PyDateTime_CAPI = core::ptr::null_mut();
pub unsafe fn PyDateTime_IMPORT() {
    DATETIME_API = PyCapsule_Import(c"datetime.datetime_CAPI".as_ptr(), 1).cast();
}
#[inline]
pub unsafe fn PyDateTimeAPI() -> *mut PyDateTime_CAPI {
    if DATETIME_API.is_null() {
        PyDateTime_IMPORT();
    }
    DATETIME_API
}
// (date: data[4]; time: data[6], fold, tzinfo; datetime: data[10], fold, tzinfo; each after hashcode and hastzinfo)
#[repr(C)]
struct DateData {
    ob_base: PyObject,
    hashcode: Py_hash_t,
    hastzinfo: c_char,
    data: [c_uchar; 4],
}
#[repr(C)]
struct TimeData {
    ob_base: PyObject,
    hashcode: Py_hash_t,
    hastzinfo: c_char,
    data: [c_uchar; 6],
    fold: c_uchar,
    tzinfo: *mut PyObject,
}
#[repr(C)]
struct DateTimeData {
    ob_base: PyObject,
    hashcode: Py_hash_t,
    hastzinfo: c_char,
    data: [c_uchar; 10],
    fold: c_uchar,
    tzinfo: *mut PyObject,
}
#[repr(C)]
struct DeltaData {
    ob_base: PyObject,
    hashcode: Py_hash_t,
    days: c_int,
    seconds: c_int,
    microseconds: c_int,
}
#[inline]
pub unsafe fn PyDate_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*PyDateTimeAPI()).DateType)
}
#[inline]
pub unsafe fn PyDateTime_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*PyDateTimeAPI()).DateTimeType)
}
#[inline]
pub unsafe fn PyTime_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*PyDateTimeAPI()).TimeType)
}
#[inline]
pub unsafe fn PyDelta_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*PyDateTimeAPI()).DeltaType)
}
#[inline]
pub unsafe fn PyTZInfo_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*PyDateTimeAPI()).TZInfoType)
}
macro_rules! byte {
    ($f:ident, $t:ty, $i:expr) => {
        #[inline]
        pub unsafe fn $f(o: *mut PyObject) -> c_int {
            (*o.cast::<$t>()).data[$i] as c_int
        }
    };
}
#[inline]
pub unsafe fn PyDateTime_GET_YEAR(o: *mut PyObject) -> c_int {
    let d = &(*o.cast::<DateData>()).data;
    (d[0] as c_int) << 8 | d[1] as c_int
}
byte!(PyDateTime_GET_MONTH, DateData, 2);
byte!(PyDateTime_GET_DAY, DateData, 3);
byte!(PyDateTime_DATE_GET_HOUR, DateTimeData, 4);
byte!(PyDateTime_DATE_GET_MINUTE, DateTimeData, 5);
byte!(PyDateTime_DATE_GET_SECOND, DateTimeData, 6);
byte!(PyDateTime_TIME_GET_HOUR, TimeData, 0);
byte!(PyDateTime_TIME_GET_MINUTE, TimeData, 1);
byte!(PyDateTime_TIME_GET_SECOND, TimeData, 2);
#[inline]
pub unsafe fn PyDateTime_DATE_GET_MICROSECOND(o: *mut PyObject) -> c_int {
    let d = &(*o.cast::<DateTimeData>()).data;
    (d[7] as c_int) << 16 | (d[8] as c_int) << 8 | d[9] as c_int
}
#[inline]
pub unsafe fn PyDateTime_TIME_GET_MICROSECOND(o: *mut PyObject) -> c_int {
    let d = &(*o.cast::<TimeData>()).data;
    (d[3] as c_int) << 16 | (d[4] as c_int) << 8 | d[5] as c_int
}
#[inline]
pub unsafe fn PyDateTime_DATE_GET_FOLD(o: *mut PyObject) -> c_uchar {
    (*o.cast::<DateTimeData>()).fold
}
#[inline]
pub unsafe fn PyDateTime_TIME_GET_FOLD(o: *mut PyObject) -> c_uchar {
    (*o.cast::<TimeData>()).fold
}
#[inline]
pub unsafe fn PyDateTime_DATE_GET_TZINFO(o: *mut PyObject) -> *mut PyObject {
    let d = o.cast::<DateTimeData>();
    if (*d).hastzinfo != 0 { (*d).tzinfo } else { Py_None() }
}
#[inline]
pub unsafe fn PyDateTime_TIME_GET_TZINFO(o: *mut PyObject) -> *mut PyObject {
    let d = o.cast::<TimeData>();
    if (*d).hastzinfo != 0 { (*d).tzinfo } else { Py_None() }
}
#[inline]
pub unsafe fn PyDateTime_DELTA_GET_DAYS(o: *mut PyObject) -> c_int {
    (*o.cast::<DeltaData>()).days
}
#[inline]
pub unsafe fn PyDateTime_DELTA_GET_SECONDS(o: *mut PyObject) -> c_int {
    (*o.cast::<DeltaData>()).seconds
}
#[inline]
pub unsafe fn PyDateTime_DELTA_GET_MICROSECONDS(o: *mut PyObject) -> c_int {
    (*o.cast::<DeltaData>()).microseconds
}

// ---- functions and data of the interpreter
extern "C" {
    static mut _Py_NoneStruct: PyObject;
    static mut _Py_TrueStruct: PyObject;
    static mut _Py_FalseStruct: PyObject;
    static mut _Py_NotImplementedStruct: PyObject;
    pub static mut PyFloat_Type: PyTypeObject;
    pub static mut PyExc_ValueError: *mut PyObject;
    pub static mut PyExc_TypeError: *mut PyObject;
    pub static mut PyExc_OverflowError: *mut PyObject;
    pub static mut PyExc_RuntimeError: *mut PyObject;
    pub static mut PyExc_OSError: *mut PyObject;
    pub static mut PyExc_ZeroDivisionError: *mut PyObject;
    pub static mut PyExc_AttributeError: *mut PyObject;
    pub static mut PyExc_KeyError: *mut PyObject;
    pub static mut PyExc_IndexError: *mut PyObject;
    pub static mut PyExc_Exception: *mut PyObject;
    pub static mut PyExc_SystemError: *mut PyObject;
    pub static mut PyExc_MemoryError: *mut PyObject;
    pub static mut PyExc_NotImplementedError: *mut PyObject;

    fn Py_IncRef(o: *mut PyObject);
    fn Py_DecRef(o: *mut PyObject);
    pub fn PyType_IsSubtype(a: *mut PyTypeObject, b: *mut PyTypeObject) -> c_int;
    pub fn PyType_GetModule(t: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyType_GetModuleState(t: *mut PyTypeObject) -> *mut c_void;
    pub fn PyType_GetSlot(t: *mut PyTypeObject, slot: c_int) -> *mut c_void;
    pub fn PyType_FromModuleAndSpec(m: *mut PyObject, spec: *mut PyType_Spec, bases: *mut PyObject) -> *mut PyObject;
    pub fn PyModule_GetState(m: *mut PyObject) -> *mut c_void;
    pub fn PyModule_AddType(m: *mut PyObject, t: *mut PyTypeObject) -> c_int;
    pub fn PyModuleDef_Init(d: *mut PyModuleDef) -> *mut PyObject;
    pub fn PyImport_ImportModule(name: *const c_char) -> *mut PyObject;
    pub fn PyCapsule_Import(name: *const c_char, no_block: c_int) -> *mut c_void;

    pub fn PyErr_Occurred() -> *mut PyObject;
    pub fn PyErr_Clear();
    pub fn PyErr_SetObject(e: *mut PyObject, v: *mut PyObject);
    pub fn PyErr_SetString(e: *mut PyObject, v: *const c_char);
    pub fn PyErr_SetNone(e: *mut PyObject);
    pub fn PyErr_NoMemory() -> *mut PyObject;
    pub fn PyErr_ExceptionMatches(e: *mut PyObject) -> c_int;
    pub fn PyErr_NewExceptionWithDoc(
        name: *const c_char, doc: *const c_char, base: *mut PyObject, dict: *mut PyObject,
    ) -> *mut PyObject;

    pub fn PyObject_Repr(o: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_Str(o: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_Hash(o: *mut PyObject) -> Py_hash_t;
    pub fn PyObject_IsTrue(o: *mut PyObject) -> c_int;
    pub fn PyObject_IsInstance(o: *mut PyObject, t: *mut PyObject) -> c_int;
    pub fn PyObject_GetAttrString(o: *mut PyObject, name: *const c_char) -> *mut PyObject;
    pub fn PyObject_GetAttr(o: *mut PyObject, name: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_SetAttrString(o: *mut PyObject, name: *const c_char, v: *mut PyObject) -> c_int;
    pub fn PyObject_RichCompare(a: *mut PyObject, b: *mut PyObject, op: c_int) -> *mut PyObject;
    pub fn PyObject_RichCompareBool(a: *mut PyObject, b: *mut PyObject, op: c_int) -> c_int;
    pub fn PyObject_Call(f: *mut PyObject, args: *mut PyObject, kw: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallObject(f: *mut PyObject, args: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallNoArgs(f: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallOneArg(f: *mut PyObject, a: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallMethod(o: *mut PyObject, name: *const c_char, format: *const c_char, ...) -> *mut PyObject;
    pub fn PyObject_CallMethodObjArgs(o: *mut PyObject, name: *mut PyObject, ...) -> *mut PyObject;
    pub fn PyObject_CallFunctionObjArgs(f: *mut PyObject, ...) -> *mut PyObject;
    pub fn PyObject_Vectorcall(f: *mut PyObject, args: *const *mut PyObject, n: usize, kw: *mut PyObject) -> *mut PyObject;

    pub fn PyLong_FromLong(v: c_long) -> *mut PyObject;
    pub fn PyLong_FromLongLong(v: c_longlong) -> *mut PyObject;
    pub fn PyLong_FromUnsignedLong(v: c_ulong) -> *mut PyObject;
    pub fn PyLong_AsLong(o: *mut PyObject) -> c_long;
    pub fn PyLong_AsLongLong(o: *mut PyObject) -> c_longlong;
    pub fn _PyLong_FromByteArray(b: *const c_uchar, n: usize, little: c_int, signed: c_int) -> *mut PyObject;
    pub fn _PyLong_AsByteArray(o: *mut PyLongObject, b: *mut c_uchar, n: usize, little: c_int, signed: c_int) -> c_int;
    pub fn PyFloat_FromDouble(v: f64) -> *mut PyObject;
    pub fn PyFloat_AsDouble(o: *mut PyObject) -> f64;
    pub fn PyBytes_FromStringAndSize(s: *const c_char, n: Py_ssize_t) -> *mut PyObject;
    pub fn PyBytes_AsString(o: *mut PyObject) -> *mut c_char;
    pub fn PyBytes_Size(o: *mut PyObject) -> Py_ssize_t;
    pub fn PyUnicode_FromStringAndSize(s: *const c_char, n: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_FromString(s: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_InternFromString(s: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut Py_ssize_t) -> *const c_char;
    pub fn PyUnicode_Concat(a: *mut PyObject, b: *mut PyObject) -> *mut PyObject;
    pub fn PyTuple_New(n: Py_ssize_t) -> *mut PyObject;
    pub fn PyTuple_SetItem(t: *mut PyObject, i: Py_ssize_t, v: *mut PyObject) -> c_int;
    pub fn PyTuple_GetItem(t: *mut PyObject, i: Py_ssize_t) -> *mut PyObject;
    pub fn PyTuple_Pack(n: Py_ssize_t, ...) -> *mut PyObject;
    pub fn PyDict_New() -> *mut PyObject;
    pub fn PyDict_Size(o: *mut PyObject) -> Py_ssize_t;
    pub fn PyDict_Next(o: *mut PyObject, pos: *mut Py_ssize_t, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;
    pub fn PyDict_SetItem(o: *mut PyObject, k: *mut PyObject, v: *mut PyObject) -> c_int;
    pub fn PyDict_SetItemString(o: *mut PyObject, k: *const c_char, v: *mut PyObject) -> c_int;
    pub fn PyDict_GetItemString(o: *mut PyObject, k: *const c_char) -> *mut PyObject;
    pub fn PyDict_GetItemWithError(o: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
    pub fn PyArg_ParseTupleAndKeywords(
        args: *mut PyObject, kw: *mut PyObject, format: *const c_char, names: *mut *mut c_char, ...
    ) -> c_int;
    pub fn PyArg_ParseTuple(args: *mut PyObject, format: *const c_char, ...) -> c_int;
    pub fn Py_BuildValue(format: *const c_char, ...) -> *mut PyObject;
}
#[repr(C)]
pub struct PyLongObject {
    _opaque: [u8; 0],
}
