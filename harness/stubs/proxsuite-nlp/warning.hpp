// Stand-in for the generated warning.hpp
#pragma once
#define PROXSUITE_NLP_WARNING_HEADER(msg)
#define PROXSUITE_NLP_WARN(msg)
