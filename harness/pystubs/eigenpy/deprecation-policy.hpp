#pragma once
#include "eigenpy/eigenpy.hpp"
namespace eigenpy {
enum class DeprecationType { DEPRECATION, FUTURE };
template <DeprecationType K = DeprecationType::DEPRECATION, class Policy = bp::default_call_policies>
struct deprecation_warning_policy : Policy {
  typedef typename Policy::result_converter result_converter;
  typedef typename Policy::argument_package argument_package;
  explicit deprecation_warning_policy(const std::string &msg) : Policy(), m_msg(msg) {}
  template <class Args> bool precall(const Args &args) const {
    PyErr_WarnEx(K == DeprecationType::DEPRECATION ? PyExc_DeprecationWarning : PyExc_FutureWarning, m_msg.c_str(), 1);
    return static_cast<const Policy *>(this)->precall(args);
  }
  std::string m_msg;
};
template <DeprecationType K = DeprecationType::DEPRECATION, class Policy = bp::default_call_policies>
struct deprecated_function : deprecation_warning_policy<K, Policy> {
  deprecated_function(const std::string &msg = "This function is deprecated.")
      : deprecation_warning_policy<K, Policy>(msg) {}
};
template <DeprecationType K = DeprecationType::DEPRECATION, class Policy = bp::default_call_policies>
struct deprecated_member : deprecation_warning_policy<K, Policy> {
  deprecated_member(const std::string &msg = "This attribute is deprecated.")
      : deprecation_warning_policy<K, Policy>(msg) {}
};
} // namespace eigenpy
