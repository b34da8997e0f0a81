// Stand-in for the header of the numpy_eigen package, which is no part of this
// repository: the parts of it that sm_python needs.
#ifndef NUMPY_EIGEN_BOOST_PYTHON_HEADERS_HPP
#define NUMPY_EIGEN_BOOST_PYTHON_HEADERS_HPP
#include <Python.h>
#include <boost/python.hpp>
#include <Eigen/Core>
#endif
