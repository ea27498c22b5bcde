// The Python module, embedded in the process of a harness. Floating point numbers that cross the border between Python and C++ stay
// symbolic: the object is created by the interpreter, and its value is written by code that is executed symbolically. Such objects are
// never released, so that their memory is not used again by the interpreter.
#pragma once
#include <Python.h>
inline PyObject* symbolicFloat( double x )
{
  PyObject* o = PyFloat_FromDouble( 0.0 );
  Py_INCREF( o );
  reinterpret_cast<PyFloatObject*>( o )->ob_fval = x;
  return o;
}
inline double valueOfFloat( PyObject* o )
{
  if( PyFloat_Check( o ) )
    return reinterpret_cast<PyFloatObject*>( o )->ob_fval;
  return PyFloat_AsDouble( o );
}
#define PyFloat_FromDouble symbolicFloat
#define PyFloat_AsDouble valueOfFloat
#include "sym.h"
#include "../bindings/python/aleph.cc"
#include <pybind11/embed.h>
#include <cstdlib>
#include <memory>
#include <vector>

inline py::object startPython()
{
  setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  setenv( "PYTHONHASHSEED", "0", 1 );
  setenv( "PYTHONDONTWRITEBYTECODE", "1", 1 );
  PyImport_AppendInittab( "aleph", PyInit_aleph );
  py::initialize_interpreter( false );
  return py::module::import( "aleph" );
}

// Matrix whose entries lie in memory in one of several ways
struct Layout
{
  int rows, cols, rowStride, colStride, offset;
  double* memory;
  Layout( int n, int m, int layout )
    : rows( n )
    , cols( m )
  {
    switch( layout )
    {
    default: rowStride = m;       colStride = 1;   offset = 0;         break; // row by row
    case 1:  rowStride = 1;       colStride = n;   offset = 0;         break; // column by column
    case 2:  rowStride = m+2;     colStride = 1;   offset = m+3;       break; // part of a larger matrix
    case 3:  rowStride = 2*m;     colStride = 2;   offset = 1;         break; // every other column
    case 4:  rowStride = -m;      colStride = 1;   offset = (n-1)*m;   break; // rows in reverse order
    case 5:  rowStride = 2*m;     colStride = -1;  offset = m-1;       break; // every other row, columns in reverse order
    }
    const int size = 3*(n+1)*(m+2);
    memory = new double[ std::size_t( size ) ];
    for( int i = 0; i < size; ++i )
      memory[i] = 777.0;
  }
  double& at( int i, int j ) { return memory[ offset + i*rowStride + j*colStride ]; }
  py::array_t<double> array()
  {
    static int base;
    return py::array_t<double>( std::vector<py::ssize_t>{ rows, cols }, std::vector<py::ssize_t>{ 8*rowStride, 8*colStride }, memory + offset, py::capsule( &base, [] ( void* ) {} ) );
  }
};
