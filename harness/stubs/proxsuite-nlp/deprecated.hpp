// Stand-in for the generated deprecated.hpp
#pragma once
#define PROXSUITE_NLP_DEPRECATED [[deprecated]]
#define PROXSUITE_NLP_DEPRECATED_MESSAGE(msg) [[deprecated(msg)]]
#define PROXSUITE_NLP_PRAGMA_STR(x) _Pragma(#x)
#define PROXSUITE_NLP_PRAGMA(x) PROXSUITE_NLP_PRAGMA_STR(x)
#define PROXSUITE_NLP_DEPRECATED_HEADER(msg)
