// The Python layer (miso/): the bindings and the OpenMDAO components on top of them, run by an interpreter of the
// harness's own (property C37).  The cases are written in pyomdao.py; this file serves them.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "integcheck.hpp"
#include "solvecheck.hpp"
#include <mpi4py/mpi4py.h>
#define STR2(x) #x
#define STR(x) STR2(x)
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic; using namespace sc;
extern "C" PyObject *PyInit_pyMISO();
PyTypeObject PyMPIComm_Type = [] { PyTypeObject t = {PyVarObject_HEAD_INIT(nullptr, 0)}; t.tp_name = "mpi4py.MPI.Comm"; t.tp_basicsize = sizeof(PyMPICommObject); t.tp_flags = Py_TPFLAGS_DEFAULT; return t; }();
static Case *now;
#define ARGS(...) if (!PyArg_ParseTuple(a, __VA_ARGS__)) { return nullptr; }
static PyObject *v_uni(PyObject *, PyObject *a) { double x, y; ARGS("dd", &x, &y) return PyFloat_FromDouble(now->rng.uni(x, y)); }
static PyObject *v_logu(PyObject *, PyObject *a) { double x, y; ARGS("dd", &x, &y) return PyFloat_FromDouble(now->rng.logu(x, y)); }
static PyObject *v_irand(PyObject *, PyObject *a) { int x, y; ARGS("ii", &x, &y) return PyLong_FromLong(now->rng.irand(x, y)); }
static PyObject *v_coin(PyObject *, PyObject *a) { double p = 0.5; ARGS("|d", &p) return PyBool_FromLong(now->rng.coin(p)); }
static PyObject *v_check(PyObject *, PyObject *a) { int ok; const char *n, *m = ""; ARGS("ps|s", &ok, &n, &m) return PyBool_FromLong(now->check(ok, n, m)); }
static PyObject *v_near(PyObject *, PyObject *a) { double x, y, t; const char *n, *m = ""; ARGS("ddds|s", &x, &y, &t, &n, &m) return PyBool_FromLong(now->near(x, y, t, n, m)); }
static PyObject *v_count(PyObject *, PyObject *a) { const char *n; ARGS("s", &n) now->count(n); Py_RETURN_NONE; }
static PyObject *v_trivial(PyObject *, PyObject *) { now->trivial = true; Py_RETURN_NONE; }
static PyObject *v_note(PyObject *, PyObject *a) { const char *n, *v; ARGS("ss", &n, &v) now->desc << n << "=" << v << " "; Py_RETURN_NONE; }
/// a random mesh on a file: (smallest element size, order, attributes, boundary attributes, volume dimension)
static PyObject *v_mesh(PyObject *, PyObject *a)
{
   const char *f; int dim; ARGS("si", &f, &dim) int order; auto m = serial(*now, dim, order); std::ofstream o(f); o.precision(17); m->Print(o); double h = 1e300; for (int e = 0; e < m->GetNE(); ++e) { h = std::min(h, m->GetElementSize(e, 1)); }
   auto list = [](const Array<int> &v) { PyObject *l = PyList_New(0); for (int i : v) { PyObject *q = PyLong_FromLong(i); PyList_Append(l, q); Py_DECREF(q); } return l; }; return Py_BuildValue("diNN", h, order, list(m->attributes), list(m->bdr_attributes));
}
/// derivative(claimed, f, name, floor, step, rough)
static PyObject *v_derivative(PyObject *, PyObject *a)
{
   double c, fl, h, rough; PyObject *f; const char *n; ARGS("dOsddd", &c, &f, &n, &fl, &h, &rough) bool bad = false; auto fn = [&](double e) { if (bad) { return 0.0; } PyObject *r = PyObject_CallFunction(f, "d", e); double v = r ? PyFloat_AsDouble(r) : 0; Py_XDECREF(r); bad = PyErr_Occurred() != nullptr; return v; };
   struct Failed { }; try { derivative(*now, c, [&](double e) { double v = fn(e); if (bad) { throw Failed(); } return v; }, n, fl, h, rough); } catch (const Failed &) { return nullptr; } Py_RETURN_NONE;
}
static PyObject *v_comm(PyObject *, PyObject *) { return PyMPIComm_New(MPI_COMM_WORLD); }
static PyMethodDef methods[] = {{"uni", v_uni, METH_VARARGS, ""}, {"logu", v_logu, METH_VARARGS, ""}, {"irand", v_irand, METH_VARARGS, ""}, {"coin", v_coin, METH_VARARGS, ""}, {"check", v_check, METH_VARARGS, ""}, {"near", v_near, METH_VARARGS, ""}, {"count", v_count, METH_VARARGS, ""}, {"trivial", v_trivial, METH_NOARGS, ""}, {"note", v_note, METH_VARARGS, ""}, {"mesh", v_mesh, METH_VARARGS, ""}, {"derivative", v_derivative, METH_VARARGS, ""}, {"comm", v_comm, METH_NOARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef vhdef = {PyModuleDef_HEAD_INIT, "vh", nullptr, -1, methods};
static std::string trouble()
{
   PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); std::string r; PyObject *m = PyImport_ImportModule("traceback"), *l = m ? PyObject_CallMethod(m, "format_exception", "OOO", t, v ? v : Py_None, b ? b : Py_None) : nullptr;
   if (l) { for (Py_ssize_t i = 0; i < PyList_Size(l); ++i) { r += PyUnicode_AsUTF8(PyList_GetItem(l, i)); } } else { PyErr_Clear(); r = "a Python error"; } return r;
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); init(argc, argv);
   setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONNOUSERSITE", "1", 1); unsetenv("PYTHONPATH"); unsetenv("PYTHONHOME"); setenv("OPENBLAS_NUM_THREADS", "1", 1);
   Py_InitializeEx(0); PyType_Ready(&PyMPIComm_Type); PyObject *py = PyInit_pyMISO(), *vm = PyModule_Create(&vhdef), *mods = PyImport_GetModuleDict();
   if (!py) { std::cerr << trouble(); return 3; } PyDict_SetItemString(mods, "miso.pyMISO", py); PyDict_SetItemString(mods, "vh", vm);
   std::string here = __FILE__; here = here.substr(0, here.rfind("/h/")); std::string set = "import sys, os\nsys.path[:0] = ['" + here + "/shim/py/stubs', '" STR(REPO_DIR) "', '" + here + "/h', '/opt/veriftools/pyvenv/lib/python3.12/site-packages']\nsys.stdout = open(os.devnull, 'w')\n";
   PyObject *drv = nullptr; if (PyRun_SimpleString(set.c_str()) == 0) { drv = PyImport_ImportModule("pyomdao"); } if (!drv) { std::string t = trouble(); std::cerr << t; }
   auto go = [&](const char *group) { return [&, group](Case &c) { Mute mute; if (!drv) { c.check(false, "package-loads"); return; } now = &c; PyObject *r = PyObject_CallMethod(drv, group, nullptr); if (!r) { c.check(false, "unexpected-exception", trouble()); } Py_XDECREF(r); HYPRE_ClearAllErrors(); }; };
   run("state", 240, go("state")); run("functional", 160, go("functional")); run("warper", 100, go("warper")); run("builder", 100, go("builder")); run("bindings", 200, go("bindings"));
   int rc = finish(); fflush(nullptr); MPI_Finalize(); _exit(rc);
}
