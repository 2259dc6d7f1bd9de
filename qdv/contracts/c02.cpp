#include "capi.h"
#define R(k, m, d) CONTRACT(sys_##k##_##m##_##d) { c_reconstruct(true, k, m, d); } CONTRACT(non_##k##_##m##_##d) { c_reconstruct(false, k, m, d); }
R(3, 2, 0) R(3, 2, 1) R(3, 2, 2) R(3, 2, 3) R(3, 2, 4)
R(1, 3, 0) R(1, 3, 1) R(1, 3, 3)
R(2, 1, 1) R(2, 1, 2)
