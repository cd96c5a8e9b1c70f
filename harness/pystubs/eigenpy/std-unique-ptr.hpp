#pragma once
#include "eigenpy/eigenpy.hpp"
namespace eigenpy {
struct StdUniquePtrRefResult {
  template <class T> struct apply {
    struct type {
      using Ptr = typename boost::remove_cv<typename boost::remove_reference<T>::type>::type;
      bool convertible() const { return true; }
      PyObject *operator()(const Ptr &p) const {
        if (!p)
          return bp::detail::none();
        return bp::detail::make_reference_holder::execute(p.get());
      }
      PyTypeObject const *get_pytype() const { return nullptr; }
    };
  };
};
struct ReturnInternalStdUniquePtr : bp::return_internal_reference<> {
  typedef StdUniquePtrRefResult result_converter;
};
} // namespace eigenpy
