// stand-in for mpi4py's C interface
#pragma once
#include <Python.h>
#include <mpi.h>
struct PyMPICommObject { PyObject_HEAD MPI_Comm ob_mpi; };
extern PyTypeObject PyMPIComm_Type;
inline int import_mpi4py() { return PyType_Ready(&PyMPIComm_Type); }
inline MPI_Comm *PyMPIComm_Get(PyObject *o) { return &reinterpret_cast<PyMPICommObject *>(o)->ob_mpi; }
inline PyObject *PyMPIComm_New(MPI_Comm c) { import_mpi4py(); auto *o = PyObject_New(PyMPICommObject, &PyMPIComm_Type); o->ob_mpi = c; return reinterpret_cast<PyObject *>(o); }
