// native values of the parameters (the proof uses the contract of the parameter reader)
#ifndef VP_PARAMS_H
#define VP_PARAMS_H
#ifndef __clang__
#include <cstring>
#include <cstdlib>
static const char* const* vp_names; static const double* vp_values; static const int* vp_has; static int vp_np;
extern "C" double vp_param(const char* name, double def) { for (int i = 0; i < vp_np; ++i) if (!strcmp(name, vp_names[i])) return vp_has[i] ? vp_values[i] : def; abort(); }
extern "C" int vp_param_int(const char* name, int def) { return int(vp_param(name, def)); }
static const char* const* vp_strs;
extern "C" const char* vp_param_str(const char* name, const char* def) { for (int i = 0; i < vp_np; ++i) if (!strcmp(name, vp_names[i])) return vp_has[i] ? vp_strs[int(vp_values[i])] : def; abort(); }
#define VP_PARAMS(names, strs, has, values) do { vp_names = names; vp_strs = strs; vp_has = has; vp_values = values; vp_np = int(sizeof(names)/sizeof(names[0])); } while (0)
#else
#define VP_PARAMS(names, strs, has, values) do { } while (0)
#endif
#endif
