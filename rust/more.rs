// written by tools/gen_ffi.py
use super::*;

macro_rules! exact {
    ($($f:ident $t:ident),*) => { $(#[inline] pub unsafe fn $f(o: *mut PyObject) -> c_int { (Py_TYPE(o) == core::ptr::addr_of_mut!($t)) as c_int })* };
}
exact!(PyLong_CheckExact PyLong_Type, PyUnicode_CheckExact PyUnicode_Type, PyBytes_CheckExact PyBytes_Type, PyFloat_CheckExact PyFloat_Type,
       PyTuple_CheckExact PyTuple_Type, PyList_CheckExact PyList_Type, PyDict_CheckExact PyDict_Type, PyBool_Check PyBool_Type,
       PySet_CheckExact PySet_Type, PyModule_CheckExact PyModule_Type);
macro_rules! sub {
    ($($f:ident $bit:expr),*) => { $(#[inline] pub unsafe fn $f(o: *mut PyObject) -> c_int { ((*Py_TYPE(o)).tp_flags & (1 << $bit) != 0) as c_int })* };
}
sub!(PyList_Check 25, PyTuple_Check 26, PyDict_Check 29, PyType_Check 31);
#[inline] pub unsafe fn Py_REFCNT(o: *mut PyObject) -> Py_ssize_t { ((*o).ob_refcnt as u32) as Py_ssize_t }
#[inline] pub unsafe fn Py_SIZE(o: *mut PyObject) -> Py_ssize_t { (*o.cast::<PyVarObject>()).ob_size }
#[inline] pub unsafe fn Py_IS_TYPE(o: *mut PyObject, t: *mut PyTypeObject) -> c_int { (Py_TYPE(o) == t) as c_int }
#[inline] pub unsafe fn PyObject_TypeCheck(o: *mut PyObject, t: *mut PyTypeObject) -> c_int {
    (Py_TYPE(o) == t || PyType_IsSubtype(Py_TYPE(o), t) != 0) as c_int
}
#[inline] pub unsafe fn Py_XINCREF(o: *mut PyObject) { if !o.is_null() { Py_INCREF(o) } }
#[inline] pub unsafe fn PyTuple_SET_ITEM(t: *mut PyObject, i: Py_ssize_t, v: *mut PyObject) {
    *t.cast::<u8>().add(core::mem::size_of::<PyVarObject>()).cast::<*mut PyObject>().offset(i) = v
}
#[inline] pub unsafe fn PyType_HasFeature(t: *mut PyTypeObject, f: c_ulong) -> c_int { ((*t).tp_flags & f != 0) as c_int }
#[inline] pub unsafe fn Py_Ellipsis() -> *mut PyObject { core::ptr::addr_of_mut!(_Py_EllipsisObject) }
extern "C" { static mut _Py_EllipsisObject: PyObject; }
extern "C" {
    pub static mut PyAsyncGen_Type: PyTypeObject;
    pub static mut PyBaseObject_Type: PyTypeObject;
    pub static mut PyBool_Type: PyTypeObject;
    pub static mut PyByteArrayIter_Type: PyTypeObject;
    pub static mut PyByteArray_Type: PyTypeObject;
    pub static mut PyBytesIter_Type: PyTypeObject;
    pub static mut PyBytes_Type: PyTypeObject;
    pub static mut PyCFunction_Type: PyTypeObject;
    pub static mut PyCMethod_Type: PyTypeObject;
    pub static mut PyCallIter_Type: PyTypeObject;
    pub static mut PyCapsule_Type: PyTypeObject;
    pub static mut PyCell_Type: PyTypeObject;
    pub static mut PyClassMethodDescr_Type: PyTypeObject;
    pub static mut PyClassMethod_Type: PyTypeObject;
    pub static mut PyCode_Type: PyTypeObject;
    pub static mut PyComplex_Type: PyTypeObject;
    pub static mut PyContextToken_Type: PyTypeObject;
    pub static mut PyContextVar_Type: PyTypeObject;
    pub static mut PyContext_Type: PyTypeObject;
    pub static mut PyCoro_Type: PyTypeObject;
    pub static mut PyDictItems_Type: PyTypeObject;
    pub static mut PyDictIterItem_Type: PyTypeObject;
    pub static mut PyDictIterKey_Type: PyTypeObject;
    pub static mut PyDictIterValue_Type: PyTypeObject;
    pub static mut PyDictKeys_Type: PyTypeObject;
    pub static mut PyDictProxy_Type: PyTypeObject;
    pub static mut PyDictRevIterItem_Type: PyTypeObject;
    pub static mut PyDictRevIterKey_Type: PyTypeObject;
    pub static mut PyDictRevIterValue_Type: PyTypeObject;
    pub static mut PyDictValues_Type: PyTypeObject;
    pub static mut PyDict_Type: PyTypeObject;
    pub static mut PyEllipsis_Type: PyTypeObject;
    pub static mut PyEnum_Type: PyTypeObject;
    pub static mut PyExc_ArithmeticError: *mut PyObject;
    pub static mut PyExc_AssertionError: *mut PyObject;
    pub static mut PyExc_BaseException: *mut PyObject;
    pub static mut PyExc_BaseExceptionGroup: *mut PyObject;
    pub static mut PyExc_BlockingIOError: *mut PyObject;
    pub static mut PyExc_BrokenPipeError: *mut PyObject;
    pub static mut PyExc_BufferError: *mut PyObject;
    pub static mut PyExc_BytesWarning: *mut PyObject;
    pub static mut PyExc_ChildProcessError: *mut PyObject;
    pub static mut PyExc_ConnectionAbortedError: *mut PyObject;
    pub static mut PyExc_ConnectionError: *mut PyObject;
    pub static mut PyExc_ConnectionRefusedError: *mut PyObject;
    pub static mut PyExc_ConnectionResetError: *mut PyObject;
    pub static mut PyExc_DeprecationWarning: *mut PyObject;
    pub static mut PyExc_EOFError: *mut PyObject;
    pub static mut PyExc_EncodingWarning: *mut PyObject;
    pub static mut PyExc_EnvironmentError: *mut PyObject;
    pub static mut PyExc_FileExistsError: *mut PyObject;
    pub static mut PyExc_FileNotFoundError: *mut PyObject;
    pub static mut PyExc_FloatingPointError: *mut PyObject;
    pub static mut PyExc_FutureWarning: *mut PyObject;
    pub static mut PyExc_GeneratorExit: *mut PyObject;
    pub static mut PyExc_IOError: *mut PyObject;
    pub static mut PyExc_ImportError: *mut PyObject;
    pub static mut PyExc_ImportWarning: *mut PyObject;
    pub static mut PyExc_IndentationError: *mut PyObject;
    pub static mut PyExc_InterruptedError: *mut PyObject;
    pub static mut PyExc_IsADirectoryError: *mut PyObject;
    pub static mut PyExc_KeyboardInterrupt: *mut PyObject;
    pub static mut PyExc_LookupError: *mut PyObject;
    pub static mut PyExc_ModuleNotFoundError: *mut PyObject;
    pub static mut PyExc_NameError: *mut PyObject;
    pub static mut PyExc_NotADirectoryError: *mut PyObject;
    pub static mut PyExc_PendingDeprecationWarning: *mut PyObject;
    pub static mut PyExc_PermissionError: *mut PyObject;
    pub static mut PyExc_ProcessLookupError: *mut PyObject;
    pub static mut PyExc_RecursionError: *mut PyObject;
    pub static mut PyExc_ReferenceError: *mut PyObject;
    pub static mut PyExc_ResourceWarning: *mut PyObject;
    pub static mut PyExc_RuntimeWarning: *mut PyObject;
    pub static mut PyExc_StopAsyncIteration: *mut PyObject;
    pub static mut PyExc_StopIteration: *mut PyObject;
    pub static mut PyExc_SyntaxError: *mut PyObject;
    pub static mut PyExc_SyntaxWarning: *mut PyObject;
    pub static mut PyExc_SystemExit: *mut PyObject;
    pub static mut PyExc_TabError: *mut PyObject;
    pub static mut PyExc_TimeoutError: *mut PyObject;
    pub static mut PyExc_UnboundLocalError: *mut PyObject;
    pub static mut PyExc_UnicodeDecodeError: *mut PyObject;
    pub static mut PyExc_UnicodeEncodeError: *mut PyObject;
    pub static mut PyExc_UnicodeError: *mut PyObject;
    pub static mut PyExc_UnicodeTranslateError: *mut PyObject;
    pub static mut PyExc_UnicodeWarning: *mut PyObject;
    pub static mut PyExc_UserWarning: *mut PyObject;
    pub static mut PyExc_Warning: *mut PyObject;
    pub static mut PyFilter_Type: PyTypeObject;
    pub static mut PyFrame_Type: PyTypeObject;
    pub static mut PyFrozenSet_Type: PyTypeObject;
    pub static mut PyFunction_Type: PyTypeObject;
    pub static mut PyGen_Type: PyTypeObject;
    pub static mut PyGetSetDescr_Type: PyTypeObject;
    pub static mut PyInstanceMethod_Type: PyTypeObject;
    pub static mut PyListIter_Type: PyTypeObject;
    pub static mut PyListRevIter_Type: PyTypeObject;
    pub static mut PyList_Type: PyTypeObject;
    pub static mut PyLongRangeIter_Type: PyTypeObject;
    pub static mut PyLong_Type: PyTypeObject;
    pub static mut PyMap_Type: PyTypeObject;
    pub static mut PyMemberDescr_Type: PyTypeObject;
    pub static mut PyMemoryView_Type: PyTypeObject;
    pub static mut PyMethodDescr_Type: PyTypeObject;
    pub static mut PyMethod_Type: PyTypeObject;
    pub static mut PyModuleDef_Type: PyTypeObject;
    pub static mut PyModule_Type: PyTypeObject;
    pub static mut PyODictItems_Type: PyTypeObject;
    pub static mut PyODictIter_Type: PyTypeObject;
    pub static mut PyODictKeys_Type: PyTypeObject;
    pub static mut PyODictValues_Type: PyTypeObject;
    pub static mut PyODict_Type: PyTypeObject;
    pub static mut PyPickleBuffer_Type: PyTypeObject;
    pub static mut PyProperty_Type: PyTypeObject;
    pub static mut PyRangeIter_Type: PyTypeObject;
    pub static mut PyRange_Type: PyTypeObject;
    pub static mut PyReversed_Type: PyTypeObject;
    pub static mut PySeqIter_Type: PyTypeObject;
    pub static mut PySetIter_Type: PyTypeObject;
    pub static mut PySet_Type: PyTypeObject;
    pub static mut PySlice_Type: PyTypeObject;
    pub static mut PyStaticMethod_Type: PyTypeObject;
    pub static mut PyStdPrinter_Type: PyTypeObject;
    pub static mut PySuper_Type: PyTypeObject;
    pub static mut PyTraceBack_Type: PyTypeObject;
    pub static mut PyTupleIter_Type: PyTypeObject;
    pub static mut PyTuple_Type: PyTypeObject;
    pub static mut PyType_Type: PyTypeObject;
    pub static mut PyUnicodeIter_Type: PyTypeObject;
    pub static mut PyUnicode_Type: PyTypeObject;
    pub static mut PyWrapperDescr_Type: PyTypeObject;
    pub static mut PyZip_Type: PyTypeObject;
    pub static mut Py_GenericAliasType: PyTypeObject;
    pub fn PyAIter_Check(a0: *mut PyObject) -> c_int;
    pub fn PyArg_Parse(a0: *mut PyObject, a1: *const c_char, ...) -> c_int;
    pub fn PyArg_UnpackTuple(a0: *mut PyObject, a1: *const c_char, a2: Py_ssize_t, a3: Py_ssize_t, ...) -> c_int;
    pub fn PyArg_ValidateKeywordArguments(a0: *mut PyObject) -> c_int;
    pub fn PyBool_FromLong(a0: c_long) -> *mut PyObject;
    pub fn PyBuffer_FillContiguousStrides(a0: c_int, a1: *mut Py_ssize_t, a2: *mut Py_ssize_t, a3: c_int, a4: c_char);
    pub fn PyBuffer_SizeFromFormat(a0: *const c_char) -> Py_ssize_t;
    pub fn PyByteArray_AsString(a0: *mut PyObject) -> *mut c_char;
    pub fn PyByteArray_Concat(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyByteArray_FromObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyByteArray_FromStringAndSize(a0: *const c_char, a1: Py_ssize_t) -> *mut PyObject;
    pub fn PyByteArray_Resize(a0: *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PyByteArray_Size(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyBytes_AsStringAndSize(a0: *mut PyObject, a1: *mut *mut c_char, a2: *mut Py_ssize_t) -> c_int;
    pub fn PyBytes_Concat(a0: *mut *mut PyObject, a1: *mut PyObject);
    pub fn PyBytes_ConcatAndDel(a0: *mut *mut PyObject, a1: *mut PyObject);
    pub fn PyBytes_DecodeEscape(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char, a3: Py_ssize_t, a4: *const c_char) -> *mut PyObject;
    pub fn PyBytes_FromFormat(a0: *const c_char, ...) -> *mut PyObject;
    pub fn PyBytes_FromObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyBytes_FromString(a0: *const c_char) -> *mut PyObject;
    pub fn PyBytes_Repr(a0: *mut PyObject, a1: c_int) -> *mut PyObject;
    pub fn PyCFunction_Call(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyCFunction_GetFlags(a0: *mut PyObject) -> c_int;
    pub fn PyCFunction_GetSelf(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCFunction_New(a0: *mut PyMethodDef, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyCFunction_NewEx(a0: *mut PyMethodDef, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyCMethod_New(a0: *mut PyMethodDef, a1: *mut PyObject, a2: *mut PyObject, a3: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyCallIter_New(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyCallable_Check(a0: *mut PyObject) -> c_int;
    pub fn PyCapsule_GetContext(a0: *mut PyObject) -> *mut c_void;
    pub fn PyCapsule_GetName(a0: *mut PyObject) -> *const c_char;
    pub fn PyCapsule_GetPointer(a0: *mut PyObject, a1: *const c_char) -> *mut c_void;
    pub fn PyCapsule_IsValid(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyCapsule_SetContext(a0: *mut PyObject, a1: *mut c_void) -> c_int;
    pub fn PyCapsule_SetName(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyCapsule_SetPointer(a0: *mut PyObject, a1: *mut c_void) -> c_int;
    pub fn PyCell_Get(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCell_New(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCell_Set(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyClassMethod_New(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCode_ClearWatcher(a0: c_int) -> c_int;
    pub fn PyCode_Optimize(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject, a3: *mut PyObject) -> *mut PyObject;
    pub fn PyCodec_BackslashReplaceErrors(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCodec_Decode(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> *mut PyObject;
    pub fn PyCodec_Decoder(a0: *const c_char) -> *mut PyObject;
    pub fn PyCodec_Encode(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> *mut PyObject;
    pub fn PyCodec_Encoder(a0: *const c_char) -> *mut PyObject;
    pub fn PyCodec_IgnoreErrors(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCodec_IncrementalDecoder(a0: *const c_char, a1: *const c_char) -> *mut PyObject;
    pub fn PyCodec_IncrementalEncoder(a0: *const c_char, a1: *const c_char) -> *mut PyObject;
    pub fn PyCodec_KnownEncoding(a0: *const c_char) -> c_int;
    pub fn PyCodec_LookupError(a0: *const c_char) -> *mut PyObject;
    pub fn PyCodec_NameReplaceErrors(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCodec_Register(a0: *mut PyObject) -> c_int;
    pub fn PyCodec_RegisterError(a0: *const c_char, a1: *mut PyObject) -> c_int;
    pub fn PyCodec_ReplaceErrors(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCodec_StreamReader(a0: *const c_char, a1: *mut PyObject, a2: *const c_char) -> *mut PyObject;
    pub fn PyCodec_StreamWriter(a0: *const c_char, a1: *mut PyObject, a2: *const c_char) -> *mut PyObject;
    pub fn PyCodec_StrictErrors(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCodec_Unregister(a0: *mut PyObject) -> c_int;
    pub fn PyCodec_XMLCharRefReplaceErrors(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyCompile_OpcodeStackEffect(a0: c_int, a1: c_int) -> c_int;
    pub fn PyCompile_OpcodeStackEffectWithJump(a0: c_int, a1: c_int, a2: c_int) -> c_int;
    pub fn PyComplex_FromDoubles(a0: f64, a1: f64) -> *mut PyObject;
    pub fn PyComplex_ImagAsDouble(a0: *mut PyObject) -> f64;
    pub fn PyComplex_RealAsDouble(a0: *mut PyObject) -> f64;
    pub fn PyContextVar_Get(a0: *mut PyObject, a1: *mut PyObject, a2: *mut *mut PyObject) -> c_int;
    pub fn PyContextVar_New(a0: *const c_char, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyContextVar_Reset(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyContextVar_Set(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyContext_Copy(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyContext_CopyCurrent() -> *mut PyObject;
    pub fn PyContext_Enter(a0: *mut PyObject) -> c_int;
    pub fn PyContext_Exit(a0: *mut PyObject) -> c_int;
    pub fn PyContext_New() -> *mut PyObject;
    pub fn PyDescr_IsData(a0: *mut PyObject) -> c_int;
    pub fn PyDescr_NewClassMethod(a0: *mut PyTypeObject, a1: *mut PyMethodDef) -> *mut PyObject;
    pub fn PyDescr_NewMethod(a0: *mut PyTypeObject, a1: *mut PyMethodDef) -> *mut PyObject;
    pub fn PyDictProxy_New(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyDict_Clear(a0: *mut PyObject);
    pub fn PyDict_ClearWatcher(a0: c_int) -> c_int;
    pub fn PyDict_Contains(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyDict_Copy(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyDict_DelItem(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyDict_DelItemString(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyDict_GetItem(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyDict_Items(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyDict_Keys(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyDict_Merge(a0: *mut PyObject, a1: *mut PyObject, a2: c_int) -> c_int;
    pub fn PyDict_MergeFromSeq2(a0: *mut PyObject, a1: *mut PyObject, a2: c_int) -> c_int;
    pub fn PyDict_SetDefault(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyDict_Unwatch(a0: c_int, a1: *mut PyObject) -> c_int;
    pub fn PyDict_Update(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyDict_Values(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyDict_Watch(a0: c_int, a1: *mut PyObject) -> c_int;
    pub fn PyErr_BadArgument() -> c_int;
    pub fn PyErr_BadInternalCall();
    pub fn PyErr_CheckSignals() -> c_int;
    pub fn PyErr_Display(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject);
    pub fn PyErr_DisplayException(a0: *mut PyObject);
    pub fn PyErr_Fetch(a0: *mut *mut PyObject, a1: *mut *mut PyObject, a2: *mut *mut PyObject);
    pub fn PyErr_Format(a0: *mut PyObject, a1: *const c_char, ...) -> *mut PyObject;
    pub fn PyErr_GetExcInfo(a0: *mut *mut PyObject, a1: *mut *mut PyObject, a2: *mut *mut PyObject);
    pub fn PyErr_GetHandledException() -> *mut PyObject;
    pub fn PyErr_GetRaisedException() -> *mut PyObject;
    pub fn PyErr_GivenExceptionMatches(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyErr_NewException(a0: *const c_char, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyErr_NormalizeException(a0: *mut *mut PyObject, a1: *mut *mut PyObject, a2: *mut *mut PyObject);
    pub fn PyErr_Print();
    pub fn PyErr_PrintEx(a0: c_int);
    pub fn PyErr_ProgramText(a0: *const c_char, a1: c_int) -> *mut PyObject;
    pub fn PyErr_ProgramTextObject(a0: *mut PyObject, a1: c_int) -> *mut PyObject;
    pub fn PyErr_RangedSyntaxLocationObject(a0: *mut PyObject, a1: c_int, a2: c_int, a3: c_int, a4: c_int);
    pub fn PyErr_ResourceWarning(a0: *mut PyObject, a1: Py_ssize_t, a2: *const c_char, ...) -> c_int;
    pub fn PyErr_Restore(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject);
    pub fn PyErr_SetExcInfo(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject);
    pub fn PyErr_SetFromErrno(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyErr_SetFromErrnoWithFilename(a0: *mut PyObject, a1: *const c_char) -> *mut PyObject;
    pub fn PyErr_SetFromErrnoWithFilenameObject(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyErr_SetFromErrnoWithFilenameObjects(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyErr_SetHandledException(a0: *mut PyObject);
    pub fn PyErr_SetImportError(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyErr_SetImportErrorSubclass(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject, a3: *mut PyObject) -> *mut PyObject;
    pub fn PyErr_SetInterrupt();
    pub fn PyErr_SetInterruptEx(a0: c_int) -> c_int;
    pub fn PyErr_SetRaisedException(a0: *mut PyObject);
    pub fn PyErr_SyntaxLocation(a0: *const c_char, a1: c_int);
    pub fn PyErr_SyntaxLocationEx(a0: *const c_char, a1: c_int, a2: c_int);
    pub fn PyErr_SyntaxLocationObject(a0: *mut PyObject, a1: c_int, a2: c_int);
    pub fn PyErr_WarnEx(a0: *mut PyObject, a1: *const c_char, a2: Py_ssize_t) -> c_int;
    pub fn PyErr_WarnExplicit(a0: *mut PyObject, a1: *const c_char, a2: *const c_char, a3: c_int, a4: *const c_char, a5: *mut PyObject) -> c_int;
    pub fn PyErr_WarnExplicitFormat(a0: *mut PyObject, a1: *const c_char, a2: c_int, a3: *const c_char, a4: *mut PyObject, a5: *const c_char, ...) -> c_int;
    pub fn PyErr_WarnExplicitObject(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject, a3: c_int, a4: *mut PyObject, a5: *mut PyObject) -> c_int;
    pub fn PyErr_WarnFormat(a0: *mut PyObject, a1: Py_ssize_t, a2: *const c_char, ...) -> c_int;
    pub fn PyErr_WriteUnraisable(a0: *mut PyObject);
    pub fn PyEval_AcquireLock();
    pub fn PyEval_CallFunction(a0: *mut PyObject, a1: *const c_char, ...) -> *mut PyObject;
    pub fn PyEval_CallMethod(a0: *mut PyObject, a1: *const c_char, a2: *const c_char, ...) -> *mut PyObject;
    pub fn PyEval_CallObjectWithKeywords(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyEval_EvalCode(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyEval_EvalCodeEx(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject, a3: *mut *mut PyObject, a4: c_int, a5: *mut *mut PyObject, a6: c_int, a7: *mut *mut PyObject, a8: c_int, a9: *mut PyObject, a10: *mut PyObject) -> *mut PyObject;
    pub fn PyEval_GetBuiltins() -> *mut PyObject;
    pub fn PyEval_GetFuncDesc(a0: *mut PyObject) -> *const c_char;
    pub fn PyEval_GetFuncName(a0: *mut PyObject) -> *const c_char;
    pub fn PyEval_GetGlobals() -> *mut PyObject;
    pub fn PyEval_GetLocals() -> *mut PyObject;
    pub fn PyEval_InitThreads();
    pub fn PyEval_ReleaseLock();
    pub fn PyEval_ThreadsInitialized() -> c_int;
    pub fn PyExceptionClass_Name(a0: *mut PyObject) -> *const c_char;
    pub fn PyException_GetArgs(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyException_GetCause(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyException_GetContext(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyException_GetTraceback(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyException_SetArgs(a0: *mut PyObject, a1: *mut PyObject);
    pub fn PyException_SetCause(a0: *mut PyObject, a1: *mut PyObject);
    pub fn PyException_SetContext(a0: *mut PyObject, a1: *mut PyObject);
    pub fn PyException_SetTraceback(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyFile_FromFd(a0: c_int, a1: *const c_char, a2: *const c_char, a3: c_int, a4: *const c_char, a5: *const c_char, a6: *const c_char, a7: c_int) -> *mut PyObject;
    pub fn PyFile_GetLine(a0: *mut PyObject, a1: c_int) -> *mut PyObject;
    pub fn PyFile_NewStdPrinter(a0: c_int) -> *mut PyObject;
    pub fn PyFile_OpenCode(a0: *const c_char) -> *mut PyObject;
    pub fn PyFile_OpenCodeObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFile_WriteObject(a0: *mut PyObject, a1: *mut PyObject, a2: c_int) -> c_int;
    pub fn PyFile_WriteString(a0: *const c_char, a1: *mut PyObject) -> c_int;
    pub fn PyFloat_FromString(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFloat_GetInfo() -> *mut PyObject;
    pub fn PyFloat_GetMax() -> f64;
    pub fn PyFloat_GetMin() -> f64;
    pub fn PyFloat_Pack2(a0: f64, a1: *mut c_char, a2: c_int) -> c_int;
    pub fn PyFloat_Pack4(a0: f64, a1: *mut c_char, a2: c_int) -> c_int;
    pub fn PyFloat_Pack8(a0: f64, a1: *mut c_char, a2: c_int) -> c_int;
    pub fn PyFloat_Unpack2(a0: *const c_char, a1: c_int) -> f64;
    pub fn PyFloat_Unpack4(a0: *const c_char, a1: c_int) -> f64;
    pub fn PyFloat_Unpack8(a0: *const c_char, a1: c_int) -> f64;
    pub fn PyFrozenSet_New(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_ClearWatcher(a0: c_int) -> c_int;
    pub fn PyFunction_GetAnnotations(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_GetClosure(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_GetCode(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_GetDefaults(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_GetGlobals(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_GetKwDefaults(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_GetModule(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_New(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_NewWithQualName(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyFunction_SetAnnotations(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyFunction_SetClosure(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyFunction_SetDefaults(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyFunction_SetKwDefaults(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyGC_Collect() -> Py_ssize_t;
    pub fn PyGC_Disable() -> c_int;
    pub fn PyGC_Enable() -> c_int;
    pub fn PyGC_IsEnabled() -> c_int;
    pub fn PyGILState_Check() -> c_int;
    pub fn PyImport_AddModule(a0: *const c_char) -> *mut PyObject;
    pub fn PyImport_AddModuleObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyImport_ExecCodeModule(a0: *const c_char, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyImport_ExecCodeModuleEx(a0: *const c_char, a1: *mut PyObject, a2: *const c_char) -> *mut PyObject;
    pub fn PyImport_ExecCodeModuleObject(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject, a3: *mut PyObject) -> *mut PyObject;
    pub fn PyImport_ExecCodeModuleWithPathnames(a0: *const c_char, a1: *mut PyObject, a2: *const c_char, a3: *const c_char) -> *mut PyObject;
    pub fn PyImport_GetImporter(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyImport_GetMagicNumber() -> c_long;
    pub fn PyImport_GetMagicTag() -> *const c_char;
    pub fn PyImport_GetModule(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyImport_GetModuleDict() -> *mut PyObject;
    pub fn PyImport_Import(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyImport_ImportFrozenModule(a0: *const c_char) -> c_int;
    pub fn PyImport_ImportFrozenModuleObject(a0: *mut PyObject) -> c_int;
    pub fn PyImport_ImportModuleLevel(a0: *const c_char, a1: *mut PyObject, a2: *mut PyObject, a3: *mut PyObject, a4: c_int) -> *mut PyObject;
    pub fn PyImport_ImportModuleLevelObject(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject, a3: *mut PyObject, a4: c_int) -> *mut PyObject;
    pub fn PyImport_ImportModuleNoBlock(a0: *const c_char) -> *mut PyObject;
    pub fn PyImport_ReloadModule(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyIndex_Check(a0: *mut PyObject) -> c_int;
    pub fn PyInit__imp() -> *mut PyObject;
    pub fn PyInstanceMethod_Function(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyInstanceMethod_New(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyIter_Check(a0: *mut PyObject) -> c_int;
    pub fn PyIter_Next(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyList_Append(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyList_AsTuple(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyList_GetItem(a0: *mut PyObject, a1: Py_ssize_t) -> *mut PyObject;
    pub fn PyList_GetSlice(a0: *mut PyObject, a1: Py_ssize_t, a2: Py_ssize_t) -> *mut PyObject;
    pub fn PyList_Insert(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut PyObject) -> c_int;
    pub fn PyList_New(a0: Py_ssize_t) -> *mut PyObject;
    pub fn PyList_Reverse(a0: *mut PyObject) -> c_int;
    pub fn PyList_SetItem(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut PyObject) -> c_int;
    pub fn PyList_SetSlice(a0: *mut PyObject, a1: Py_ssize_t, a2: Py_ssize_t, a3: *mut PyObject) -> c_int;
    pub fn PyList_Size(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyList_Sort(a0: *mut PyObject) -> c_int;
    pub fn PyLong_AsDouble(a0: *mut PyObject) -> f64;
    pub fn PyLong_AsLongAndOverflow(a0: *mut PyObject, a1: *mut c_int) -> c_long;
    pub fn PyLong_AsLongLongAndOverflow(a0: *mut PyObject, a1: *mut c_int) -> c_longlong;
    pub fn PyLong_AsSize_t(a0: *mut PyObject) -> usize;
    pub fn PyLong_AsSsize_t(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyLong_AsUnsignedLong(a0: *mut PyObject) -> c_ulong;
    pub fn PyLong_AsUnsignedLongLong(a0: *mut PyObject) -> u64;
    pub fn PyLong_AsUnsignedLongLongMask(a0: *mut PyObject) -> u64;
    pub fn PyLong_AsUnsignedLongMask(a0: *mut PyObject) -> c_ulong;
    pub fn PyLong_AsVoidPtr(a0: *mut PyObject) -> *mut c_void;
    pub fn PyLong_FromDouble(a0: f64) -> *mut PyObject;
    pub fn PyLong_FromSize_t(a0: usize) -> *mut PyObject;
    pub fn PyLong_FromSsize_t(a0: Py_ssize_t) -> *mut PyObject;
    pub fn PyLong_FromString(a0: *const c_char, a1: *mut *mut c_char, a2: c_int) -> *mut PyObject;
    pub fn PyLong_FromUnicodeObject(a0: *mut PyObject, a1: c_int) -> *mut PyObject;
    pub fn PyLong_FromUnsignedLongLong(a0: u64) -> *mut PyObject;
    pub fn PyLong_FromVoidPtr(a0: *mut c_void) -> *mut PyObject;
    pub fn PyLong_GetInfo() -> *mut PyObject;
    pub fn PyMapping_Check(a0: *mut PyObject) -> c_int;
    pub fn PyMapping_GetItemString(a0: *mut PyObject, a1: *const c_char) -> *mut PyObject;
    pub fn PyMapping_HasKey(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyMapping_HasKeyString(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyMapping_Items(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyMapping_Keys(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyMapping_Length(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyMapping_SetItemString(a0: *mut PyObject, a1: *const c_char, a2: *mut PyObject) -> c_int;
    pub fn PyMapping_Size(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyMapping_Values(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyMem_Calloc(a0: usize, a1: usize) -> *mut c_void;
    pub fn PyMem_Free(a0: *mut c_void);
    pub fn PyMem_Malloc(a0: usize) -> *mut c_void;
    pub fn PyMem_RawCalloc(a0: usize, a1: usize) -> *mut c_void;
    pub fn PyMem_RawFree(a0: *mut c_void);
    pub fn PyMem_RawMalloc(a0: usize) -> *mut c_void;
    pub fn PyMem_RawRealloc(a0: *mut c_void, a1: usize) -> *mut c_void;
    pub fn PyMem_Realloc(a0: *mut c_void, a1: usize) -> *mut c_void;
    pub fn PyMem_SetupDebugHooks();
    pub fn PyMemoryView_FromMemory(a0: *mut c_char, a1: Py_ssize_t, a2: c_int) -> *mut PyObject;
    pub fn PyMemoryView_FromObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyMemoryView_GetContiguous(a0: *mut PyObject, a1: c_int, a2: c_char) -> *mut PyObject;
    pub fn PyMethod_Function(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyMethod_New(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyMethod_Self(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyModule_AddFunctions(a0: *mut PyObject, a1: *mut PyMethodDef) -> c_int;
    pub fn PyModule_AddIntConstant(a0: *mut PyObject, a1: *const c_char, a2: c_long) -> c_int;
    pub fn PyModule_AddObject(a0: *mut PyObject, a1: *const c_char, a2: *mut PyObject) -> c_int;
    pub fn PyModule_AddObjectRef(a0: *mut PyObject, a1: *const c_char, a2: *mut PyObject) -> c_int;
    pub fn PyModule_AddStringConstant(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> c_int;
    pub fn PyModule_Create2(a0: *mut PyModuleDef, a1: c_int) -> *mut PyObject;
    pub fn PyModule_ExecDef(a0: *mut PyObject, a1: *mut PyModuleDef) -> c_int;
    pub fn PyModule_FromDefAndSpec2(a0: *mut PyModuleDef, a1: *mut PyObject, a2: c_int) -> *mut PyObject;
    pub fn PyModule_GetDef(a0: *mut PyObject) -> *mut PyModuleDef;
    pub fn PyModule_GetDict(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyModule_GetFilename(a0: *mut PyObject) -> *const c_char;
    pub fn PyModule_GetFilenameObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyModule_GetName(a0: *mut PyObject) -> *const c_char;
    pub fn PyModule_GetNameObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyModule_New(a0: *const c_char) -> *mut PyObject;
    pub fn PyModule_NewObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyModule_SetDocString(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyNumber_Absolute(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Add(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_And(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_AsSsize_t(a0: *mut PyObject, a1: *mut PyObject) -> Py_ssize_t;
    pub fn PyNumber_Check(a0: *mut PyObject) -> c_int;
    pub fn PyNumber_Divmod(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Float(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_FloorDivide(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceAdd(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceAnd(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceFloorDivide(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceLshift(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceMatrixMultiply(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceMultiply(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceOr(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlacePower(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceRemainder(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceRshift(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceSubtract(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceTrueDivide(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_InPlaceXor(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Index(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Invert(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Long(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Lshift(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_MatrixMultiply(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Multiply(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Negative(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Or(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Positive(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Power(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Remainder(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Rshift(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Subtract(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_ToBase(a0: *mut PyObject, a1: c_int) -> *mut PyObject;
    pub fn PyNumber_TrueDivide(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyNumber_Xor(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyODict_DelItem(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyODict_New() -> *mut PyObject;
    pub fn PyODict_SetItem(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> c_int;
    pub fn PyOS_AfterFork();
    pub fn PyOS_AfterFork_Child();
    pub fn PyOS_AfterFork_Parent();
    pub fn PyOS_BeforeFork();
    pub fn PyOS_FSPath(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyOS_InterruptOccurred() -> c_int;
    pub fn PyOS_double_to_string(a0: f64, a1: c_char, a2: c_int, a3: c_int, a4: *mut c_int) -> *mut c_char;
    pub fn PyOS_mystricmp(a0: *const c_char, a1: *const c_char) -> c_int;
    pub fn PyOS_mystrnicmp(a0: *const c_char, a1: *const c_char, a2: Py_ssize_t) -> c_int;
    pub fn PyOS_snprintf(a0: *mut c_char, a1: usize, a2: *const c_char, ...) -> c_int;
    pub fn PyOS_string_to_double(a0: *const c_char, a1: *mut *mut c_char, a2: *mut PyObject) -> f64;
    pub fn PyOS_strtol(a0: *const c_char, a1: *mut *mut c_char, a2: c_int) -> c_long;
    pub fn PyOS_strtoul(a0: *const c_char, a1: *mut *mut c_char, a2: c_int) -> c_ulong;
    pub fn PyObject_ASCII(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_AsCharBuffer(a0: *mut PyObject, a1: *mut *const c_char, a2: *mut Py_ssize_t) -> c_int;
    pub fn PyObject_AsFileDescriptor(a0: *mut PyObject) -> c_int;
    pub fn PyObject_AsReadBuffer(a0: *mut PyObject, a1: *mut *const c_void, a2: *mut Py_ssize_t) -> c_int;
    pub fn PyObject_AsWriteBuffer(a0: *mut PyObject, a1: *mut *mut c_void, a2: *mut Py_ssize_t) -> c_int;
    pub fn PyObject_Bytes(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallFinalizer(a0: *mut PyObject);
    pub fn PyObject_CallFinalizerFromDealloc(a0: *mut PyObject) -> c_int;
    pub fn PyObject_CallFunction(a0: *mut PyObject, a1: *const c_char, ...) -> *mut PyObject;
    pub fn PyObject_Calloc(a0: usize, a1: usize) -> *mut c_void;
    pub fn PyObject_CheckBuffer(a0: *mut PyObject) -> c_int;
    pub fn PyObject_CheckReadBuffer(a0: *mut PyObject) -> c_int;
    pub fn PyObject_ClearWeakRefs(a0: *mut PyObject);
    pub fn PyObject_CopyData(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyObject_DelItem(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyObject_DelItemString(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyObject_Dir(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_Format(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_Free(a0: *mut c_void);
    pub fn PyObject_GC_Del(a0: *mut c_void);
    pub fn PyObject_GC_IsFinalized(a0: *mut PyObject) -> c_int;
    pub fn PyObject_GC_IsTracked(a0: *mut PyObject) -> c_int;
    pub fn PyObject_GC_Track(a0: *mut c_void);
    pub fn PyObject_GC_UnTrack(a0: *mut c_void);
    pub fn PyObject_GET_WEAKREFS_LISTPTR(a0: *mut PyObject) -> *mut *mut PyObject;
    pub fn PyObject_GenericGetAttr(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_GenericGetDict(a0: *mut PyObject, a1: *mut c_void) -> *mut PyObject;
    pub fn PyObject_GenericSetAttr(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> c_int;
    pub fn PyObject_GenericSetDict(a0: *mut PyObject, a1: *mut PyObject, a2: *mut c_void) -> c_int;
    pub fn PyObject_GetAIter(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_GetItem(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_GetItemData(a0: *mut PyObject) -> *mut c_void;
    pub fn PyObject_GetIter(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_GetTypeData(a0: *mut PyObject, a1: *mut PyTypeObject) -> *mut c_void;
    pub fn PyObject_HasAttr(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyObject_HasAttrString(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyObject_HashNotImplemented(a0: *mut PyObject) -> Py_hash_t;
    pub fn PyObject_IS_GC(a0: *mut PyObject) -> c_int;
    pub fn PyObject_Init(a0: *mut PyObject, a1: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyObject_IsSubclass(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyObject_Length(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyObject_LengthHint(a0: *mut PyObject, a1: Py_ssize_t) -> Py_ssize_t;
    pub fn PyObject_Malloc(a0: usize) -> *mut c_void;
    pub fn PyObject_Not(a0: *mut PyObject) -> c_int;
    pub fn PyObject_Realloc(a0: *mut c_void, a1: usize) -> *mut c_void;
    pub fn PyObject_SelfIter(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_SetAttr(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> c_int;
    pub fn PyObject_SetItem(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> c_int;
    pub fn PyObject_Size(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyObject_Type(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_VectorcallDict(a0: *mut PyObject, a1: *mut *mut PyObject, a2: usize, a3: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_VectorcallMethod(a0: *mut PyObject, a1: *mut *mut PyObject, a2: usize, a3: *mut PyObject) -> *mut PyObject;
    pub fn PyPickleBuffer_FromObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyPickleBuffer_Release(a0: *mut PyObject) -> c_int;
    pub fn PyRun_SimpleString(a0: *const c_char) -> c_int;
    pub fn PyRun_String(a0: *const c_char, a1: c_int, a2: *mut PyObject, a3: *mut PyObject) -> *mut PyObject;
    pub fn PySeqIter_New(a0: *mut PyObject) -> *mut PyObject;
    pub fn PySequence_Check(a0: *mut PyObject) -> c_int;
    pub fn PySequence_Concat(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PySequence_Contains(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PySequence_Count(a0: *mut PyObject, a1: *mut PyObject) -> Py_ssize_t;
    pub fn PySequence_DelItem(a0: *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PySequence_DelSlice(a0: *mut PyObject, a1: Py_ssize_t, a2: Py_ssize_t) -> c_int;
    pub fn PySequence_Fast(a0: *mut PyObject, a1: *const c_char) -> *mut PyObject;
    pub fn PySequence_GetItem(a0: *mut PyObject, a1: Py_ssize_t) -> *mut PyObject;
    pub fn PySequence_GetSlice(a0: *mut PyObject, a1: Py_ssize_t, a2: Py_ssize_t) -> *mut PyObject;
    pub fn PySequence_In(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PySequence_InPlaceConcat(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PySequence_InPlaceRepeat(a0: *mut PyObject, a1: Py_ssize_t) -> *mut PyObject;
    pub fn PySequence_Index(a0: *mut PyObject, a1: *mut PyObject) -> Py_ssize_t;
    pub fn PySequence_Length(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PySequence_List(a0: *mut PyObject) -> *mut PyObject;
    pub fn PySequence_Repeat(a0: *mut PyObject, a1: Py_ssize_t) -> *mut PyObject;
    pub fn PySequence_SetItem(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut PyObject) -> c_int;
    pub fn PySequence_SetSlice(a0: *mut PyObject, a1: Py_ssize_t, a2: Py_ssize_t, a3: *mut PyObject) -> c_int;
    pub fn PySequence_Size(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PySequence_Tuple(a0: *mut PyObject) -> *mut PyObject;
    pub fn PySet_Add(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PySet_Clear(a0: *mut PyObject) -> c_int;
    pub fn PySet_Contains(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PySet_Discard(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PySet_New(a0: *mut PyObject) -> *mut PyObject;
    pub fn PySet_Pop(a0: *mut PyObject) -> *mut PyObject;
    pub fn PySet_Size(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PySignal_SetWakeupFd(a0: c_int) -> c_int;
    pub fn PySlice_AdjustIndices(a0: Py_ssize_t, a1: *mut Py_ssize_t, a2: *mut Py_ssize_t, a3: Py_ssize_t) -> Py_ssize_t;
    pub fn PySlice_GetIndices(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut Py_ssize_t, a3: *mut Py_ssize_t, a4: *mut Py_ssize_t) -> c_int;
    pub fn PySlice_GetIndicesEx(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut Py_ssize_t, a3: *mut Py_ssize_t, a4: *mut Py_ssize_t, a5: *mut Py_ssize_t) -> c_int;
    pub fn PySlice_New(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PySlice_Unpack(a0: *mut PyObject, a1: *mut Py_ssize_t, a2: *mut Py_ssize_t, a3: *mut Py_ssize_t) -> c_int;
    pub fn PyState_AddModule(a0: *mut PyObject, a1: *mut PyModuleDef) -> c_int;
    pub fn PyState_FindModule(a0: *mut PyModuleDef) -> *mut PyObject;
    pub fn PyState_RemoveModule(a0: *mut PyModuleDef) -> c_int;
    pub fn PyStaticMethod_New(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyStructSequence_GetItem(a0: *mut PyObject, a1: Py_ssize_t) -> *mut PyObject;
    pub fn PyStructSequence_New(a0: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyStructSequence_SetItem(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut PyObject);
    pub fn PySys_AddWarnOptionUnicode(a0: *mut PyObject);
    pub fn PySys_Audit(a0: *const c_char, a1: *const c_char, ...) -> c_int;
    pub fn PySys_FormatStderr(a0: *const c_char, ...);
    pub fn PySys_FormatStdout(a0: *const c_char, ...);
    pub fn PySys_GetObject(a0: *const c_char) -> *mut PyObject;
    pub fn PySys_GetXOptions() -> *mut PyObject;
    pub fn PySys_HasWarnOptions() -> c_int;
    pub fn PySys_ResetWarnOptions();
    pub fn PySys_SetObject(a0: *const c_char, a1: *mut PyObject) -> c_int;
    pub fn PySys_WriteStderr(a0: *const c_char, ...);
    pub fn PySys_WriteStdout(a0: *const c_char, ...);
    pub fn PyThreadState_DeleteCurrent();
    pub fn PyThreadState_GetDict() -> *mut PyObject;
    pub fn PyThreadState_SetAsyncExc(a0: c_ulong, a1: *mut PyObject) -> c_int;
    pub fn PyThread_GetInfo() -> *mut PyObject;
    pub fn PyThread_ReInitTLS();
    pub fn PyThread_create_key() -> c_int;
    pub fn PyThread_delete_key(a0: c_int);
    pub fn PyThread_delete_key_value(a0: c_int);
    pub fn PyThread_exit_thread();
    pub fn PyThread_get_key_value(a0: c_int) -> *mut c_void;
    pub fn PyThread_get_stacksize() -> usize;
    pub fn PyThread_get_thread_ident() -> c_ulong;
    pub fn PyThread_get_thread_native_id() -> c_ulong;
    pub fn PyThread_init_thread();
    pub fn PyThread_set_key_value(a0: c_int, a1: *mut c_void) -> c_int;
    pub fn PyThread_set_stacksize(a0: usize) -> c_int;
    pub fn PyTraceBack_Print(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyTuple_GetSlice(a0: *mut PyObject, a1: Py_ssize_t, a2: Py_ssize_t) -> *mut PyObject;
    pub fn PyTuple_Size(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyType_ClearCache() -> c_uint;
    pub fn PyType_ClearWatcher(a0: c_int) -> c_int;
    pub fn PyType_FromMetaclass(a0: *mut PyTypeObject, a1: *mut PyObject, a2: *mut PyType_Spec, a3: *mut PyObject) -> *mut PyObject;
    pub fn PyType_FromSpec(a0: *mut PyType_Spec) -> *mut PyObject;
    pub fn PyType_FromSpecWithBases(a0: *mut PyType_Spec, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyType_GenericAlloc(a0: *mut PyTypeObject, a1: Py_ssize_t) -> *mut PyObject;
    pub fn PyType_GenericNew(a0: *mut PyTypeObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyType_GetDict(a0: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyType_GetFlags(a0: *mut PyTypeObject) -> c_ulong;
    pub fn PyType_GetModuleByDef(a0: *mut PyTypeObject, a1: *mut PyModuleDef) -> *mut PyObject;
    pub fn PyType_GetName(a0: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyType_GetQualName(a0: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyType_GetTypeDataSize(a0: *mut PyTypeObject) -> Py_ssize_t;
    pub fn PyType_Modified(a0: *mut PyTypeObject);
    pub fn PyType_Ready(a0: *mut PyTypeObject) -> c_int;
    pub fn PyType_SUPPORTS_WEAKREFS(a0: *mut PyTypeObject) -> c_int;
    pub fn PyType_Unwatch(a0: c_int, a1: *mut PyObject) -> c_int;
    pub fn PyType_Watch(a0: c_int, a1: *mut PyObject) -> c_int;
    pub fn PyUnicodeDecodeError_Create(a0: *const c_char, a1: *const c_char, a2: Py_ssize_t, a3: Py_ssize_t, a4: Py_ssize_t, a5: *const c_char) -> *mut PyObject;
    pub fn PyUnicodeDecodeError_GetEncoding(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicodeDecodeError_GetEnd(a0: *mut PyObject, a1: *mut Py_ssize_t) -> c_int;
    pub fn PyUnicodeDecodeError_GetObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicodeDecodeError_GetReason(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicodeDecodeError_GetStart(a0: *mut PyObject, a1: *mut Py_ssize_t) -> c_int;
    pub fn PyUnicodeDecodeError_SetEnd(a0: *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PyUnicodeDecodeError_SetReason(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyUnicodeDecodeError_SetStart(a0: *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PyUnicodeEncodeError_GetEncoding(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicodeEncodeError_GetEnd(a0: *mut PyObject, a1: *mut Py_ssize_t) -> c_int;
    pub fn PyUnicodeEncodeError_GetObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicodeEncodeError_GetReason(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicodeEncodeError_GetStart(a0: *mut PyObject, a1: *mut Py_ssize_t) -> c_int;
    pub fn PyUnicodeEncodeError_SetEnd(a0: *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PyUnicodeEncodeError_SetReason(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyUnicodeEncodeError_SetStart(a0: *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PyUnicodeTranslateError_GetEnd(a0: *mut PyObject, a1: *mut Py_ssize_t) -> c_int;
    pub fn PyUnicodeTranslateError_GetObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicodeTranslateError_GetReason(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicodeTranslateError_GetStart(a0: *mut PyObject, a1: *mut Py_ssize_t) -> c_int;
    pub fn PyUnicodeTranslateError_SetEnd(a0: *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PyUnicodeTranslateError_SetReason(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyUnicodeTranslateError_SetStart(a0: *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PyUnicode_Append(a0: *mut *mut PyObject, a1: *mut PyObject);
    pub fn PyUnicode_AppendAndDel(a0: *mut *mut PyObject, a1: *mut PyObject);
    pub fn PyUnicode_AsASCIIString(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_AsCharmapString(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_AsDecodedObject(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_AsDecodedUnicode(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_AsEncodedObject(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_AsEncodedString(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_AsEncodedUnicode(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_AsLatin1String(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_AsRawUnicodeEscapeString(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_AsUTF16String(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_AsUTF32String(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_AsUTF8(a0: *mut PyObject) -> *const c_char;
    pub fn PyUnicode_AsUTF8String(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_AsUnicodeEscapeString(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_BuildEncodingMap(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_Compare(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyUnicode_CompareWithASCIIString(a0: *mut PyObject, a1: *const c_char) -> c_int;
    pub fn PyUnicode_Contains(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn PyUnicode_CopyCharacters(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut PyObject, a3: Py_ssize_t, a4: Py_ssize_t) -> Py_ssize_t;
    pub fn PyUnicode_Count(a0: *mut PyObject, a1: *mut PyObject, a2: Py_ssize_t, a3: Py_ssize_t) -> Py_ssize_t;
    pub fn PyUnicode_Decode(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char, a3: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeASCII(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeCharmap(a0: *const c_char, a1: Py_ssize_t, a2: *mut PyObject, a3: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeFSDefault(a0: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeFSDefaultAndSize(a0: *const c_char, a1: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_DecodeLatin1(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeLocale(a0: *const c_char, a1: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeLocaleAndSize(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeRawUnicodeEscape(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeUTF16(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char, a3: *mut c_int) -> *mut PyObject;
    pub fn PyUnicode_DecodeUTF16Stateful(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char, a3: *mut c_int, a4: *mut Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_DecodeUTF32(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char, a3: *mut c_int) -> *mut PyObject;
    pub fn PyUnicode_DecodeUTF32Stateful(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char, a3: *mut c_int, a4: *mut Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_DecodeUTF7(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeUTF7Stateful(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char, a3: *mut Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_DecodeUTF8(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_DecodeUTF8Stateful(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char, a3: *mut Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_DecodeUnicodeEscape(a0: *const c_char, a1: Py_ssize_t, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_EncodeFSDefault(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_EncodeLocale(a0: *mut PyObject, a1: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_FSConverter(a0: *mut PyObject, a1: *mut c_void) -> c_int;
    pub fn PyUnicode_FSDecoder(a0: *mut PyObject, a1: *mut c_void) -> c_int;
    pub fn PyUnicode_Find(a0: *mut PyObject, a1: *mut PyObject, a2: Py_ssize_t, a3: Py_ssize_t, a4: c_int) -> Py_ssize_t;
    pub fn PyUnicode_Format(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_FromEncodedObject(a0: *mut PyObject, a1: *const c_char, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_FromFormat(a0: *const c_char, ...) -> *mut PyObject;
    pub fn PyUnicode_FromKindAndData(a0: c_int, a1: *const c_void, a2: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_FromObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_FromOrdinal(a0: c_int) -> *mut PyObject;
    pub fn PyUnicode_GetDefaultEncoding() -> *const c_char;
    pub fn PyUnicode_GetLength(a0: *mut PyObject) -> Py_ssize_t;
    pub fn PyUnicode_InternInPlace(a0: *mut *mut PyObject);
    pub fn PyUnicode_IsIdentifier(a0: *mut PyObject) -> c_int;
    pub fn PyUnicode_Join(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_Partition(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_RPartition(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyUnicode_RSplit(a0: *mut PyObject, a1: *mut PyObject, a2: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_Replace(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject, a3: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_Resize(a0: *mut *mut PyObject, a1: Py_ssize_t) -> c_int;
    pub fn PyUnicode_RichCompare(a0: *mut PyObject, a1: *mut PyObject, a2: c_int) -> *mut PyObject;
    pub fn PyUnicode_Split(a0: *mut PyObject, a1: *mut PyObject, a2: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_Splitlines(a0: *mut PyObject, a1: c_int) -> *mut PyObject;
    pub fn PyUnicode_Substring(a0: *mut PyObject, a1: Py_ssize_t, a2: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_Tailmatch(a0: *mut PyObject, a1: *mut PyObject, a2: Py_ssize_t, a3: Py_ssize_t, a4: c_int) -> Py_ssize_t;
    pub fn PyUnicode_Translate(a0: *mut PyObject, a1: *mut PyObject, a2: *const c_char) -> *mut PyObject;
    pub fn PyUnstable_Code_GetExtra(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut *mut c_void) -> c_int;
    pub fn PyUnstable_Code_SetExtra(a0: *mut PyObject, a1: Py_ssize_t, a2: *mut c_void) -> c_int;
    pub fn PyUnstable_Exc_PrepReraiseStar(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyUnstable_Object_GC_NewWithExtraData(a0: *mut PyTypeObject, a1: usize) -> *mut PyObject;
    pub fn PyUnstable_PerfMapState_Fini();
    pub fn PyUnstable_PerfMapState_Init() -> c_int;
    pub fn PyUnstable_Type_AssignVersionTag(a0: *mut PyTypeObject) -> c_int;
    pub fn PyUnstable_WritePerfMapEntry(a0: *const c_void, a1: c_uint, a2: *const c_char) -> c_int;
    pub fn PyVectorcall_Call(a0: *mut PyObject, a1: *mut PyObject, a2: *mut PyObject) -> *mut PyObject;
    pub fn PyWeakref_GetObject(a0: *mut PyObject) -> *mut PyObject;
    pub fn PyWeakref_NewProxy(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyWeakref_NewRef(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn PyWrapper_New(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn Py_BytesMain(a0: c_int, a1: *mut *mut c_char) -> c_int;
    pub fn Py_CompileString(a0: *const c_char, a1: *const c_char, a2: c_int) -> *mut PyObject;
    pub fn Py_EnterRecursiveCall(a0: *const c_char) -> c_int;
    pub fn Py_Exit(a0: c_int);
    pub fn Py_FatalError(a0: *const c_char);
    pub fn Py_Finalize();
    pub fn Py_FinalizeEx() -> c_int;
    pub fn Py_FrozenMain(a0: c_int, a1: *mut *mut c_char) -> c_int;
    pub fn Py_GETENV(a0: *const c_char) -> *mut c_char;
    pub fn Py_GenericAlias(a0: *mut PyObject, a1: *mut PyObject) -> *mut PyObject;
    pub fn Py_GetBuildInfo() -> *const c_char;
    pub fn Py_GetCompiler() -> *const c_char;
    pub fn Py_GetCopyright() -> *const c_char;
    pub fn Py_GetPlatform() -> *const c_char;
    pub fn Py_GetRecursionLimit() -> c_int;
    pub fn Py_GetVersion() -> *const c_char;
    pub fn Py_Initialize();
    pub fn Py_InitializeEx(a0: c_int);
    pub fn Py_Is(a0: *mut PyObject, a1: *mut PyObject) -> c_int;
    pub fn Py_IsFalse(a0: *mut PyObject) -> c_int;
    pub fn Py_IsInitialized() -> c_int;
    pub fn Py_IsTrue(a0: *mut PyObject) -> c_int;
    pub fn Py_LeaveRecursiveCall();
    pub fn Py_MakePendingCalls() -> c_int;
    pub fn Py_NewRef(a0: *mut PyObject) -> *mut PyObject;
    pub fn Py_ReprEnter(a0: *mut PyObject) -> c_int;
    pub fn Py_ReprLeave(a0: *mut PyObject);
    pub fn Py_RunMain() -> c_int;
    pub fn Py_SetRecursionLimit(a0: c_int);
    pub fn Py_SetStandardStreamEncoding(a0: *const c_char, a1: *const c_char) -> c_int;
    pub fn Py_XNewRef(a0: *mut PyObject) -> *mut PyObject;
}
