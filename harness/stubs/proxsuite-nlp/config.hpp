// Stand-in for the config.hpp which the jrl-cmakemodules submodule (absent in
// this sandbox) generates at configure time.
#pragma once
#define PROXSUITE_NLP_VERSION "0.11.0"
#define PROXSUITE_NLP_MAJOR_VERSION 0
#define PROXSUITE_NLP_MINOR_VERSION 11
#define PROXSUITE_NLP_PATCH_VERSION 0
#define PROXSUITE_NLP_DLLAPI
#define PROXSUITE_NLP_DLLLOCAL
#define PROXSUITE_NLP_LOCAL
#define PROXSUITE_NLP_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI
#define PROXSUITE_NLP_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI
