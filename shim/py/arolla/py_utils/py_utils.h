// Minimal stand-in for arolla's Python helpers: only what the Koda View native
// module uses. Reference counting semantics follow arolla's documentation.
#ifndef VP_SHIM_PY_UTILS_H_
#define VP_SHIM_PY_UTILS_H_
#include <Python.h>
#include <cassert>
#include <cstddef>
#include <utility>
#include "absl/types/span.h"

namespace arolla::python {

class PyObjectPtr {
 public:
  PyObjectPtr() = default;
  PyObjectPtr(std::nullptr_t) {}  // NOLINT
  static PyObjectPtr Own(PyObject* p) { PyObjectPtr r; r.p_ = p; return r; }
  static PyObjectPtr NewRef(PyObject* p) { Py_XINCREF(p); return Own(p); }
  PyObjectPtr(const PyObjectPtr& o) : p_(o.p_) { Py_XINCREF(p_); }
  PyObjectPtr(PyObjectPtr&& o) noexcept : p_(o.release()) {}
  PyObjectPtr& operator=(PyObjectPtr o) noexcept { std::swap(p_, o.p_); return *this; }
  ~PyObjectPtr() { Py_XDECREF(p_); }
  PyObject* get() const { return p_; }
  PyObject* release() { return std::exchange(p_, nullptr); }
  void reset() { Py_XDECREF(std::exchange(p_, nullptr)); }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const PyObjectPtr& a, std::nullptr_t) { return a.p_ == nullptr; }
  friend bool operator!=(const PyObjectPtr& a, std::nullptr_t) { return a.p_ != nullptr; }
  friend bool operator==(const PyObjectPtr& a, const PyObjectPtr& b) { return a.p_ == b.p_; }
  friend bool operator!=(const PyObjectPtr& a, const PyObjectPtr& b) { return a.p_ != b.p_; }

 private:
  PyObject* p_ = nullptr;
};

inline void DCheckPyGIL() { assert(PyGILState_Check()); }
inline void CheckPyGIL() { if (!PyGILState_Check()) Py_FatalError("GIL not held"); }

// True and a view of the items for a tuple or a list; false without a Python
// exception otherwise.
inline bool PyTuple_AsSpan(PyObject* o, absl::Span<PyObject*>* out) {
  if (PyTuple_Check(o) || PyList_Check(o)) {
    *out = absl::Span<PyObject*>(PySequence_Fast_ITEMS(o),
                                 PySequence_Fast_GET_SIZE(o));
    return true;
  }
  return false;
}

}  // namespace arolla::python
#endif
