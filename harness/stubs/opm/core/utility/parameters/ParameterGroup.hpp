// Stand-in for the parameter reader (an assumed dependency of the code under contract):
// a parameter has the value given for its name, or the default.
#ifndef OPM_PARAMETERGROUP_HEADER
#define OPM_PARAMETERGROUP_HEADER
#include <string>
extern "C" double vp_param(const char* name, double def);
extern "C" int vp_param_int(const char* name, int def);
extern "C" const char* vp_param_str(const char* name, const char* def);
namespace Opm { namespace parameter {
    class ParameterGroup {
    public:
        double getDefault(const char* name, double def) const { return vp_param(name, def); }
        int getDefault(const char* name, int def) const { return vp_param_int(name, def); }
        std::string getDefault(const char* name, const std::string& def) const { return vp_param_str(name, def.c_str()); }
        double getDefault(const std::string& name, double def) const { return vp_param(name.c_str(), def); }
        int getDefault(const std::string& name, int def) const { return vp_param_int(name.c_str(), def); }
        template <class T> T getDefault(const char* name, const T& def) const { return getDefault(name, T(def)); }
    };
} }
#endif
