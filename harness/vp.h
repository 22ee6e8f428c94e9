#ifndef VP_HARNESS_H
#define VP_HARNESS_H
#include <vector>
#include <algorithm>
/* results copied out of a std::vector */
template <class T> static inline void vp_out(const std::vector<T>& v, T* out, int n) { std::copy(v.begin(), v.begin() + n, out); }
#endif
