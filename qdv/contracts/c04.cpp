#include "capi.h"
CONTRACT(encode_sys_3_2) { c_encode(true, 3, 2); }
CONTRACT(encode_non_3_2) { c_encode(false, 3, 2); }
CONTRACT(encode_sys_1_3) { c_encode(true, 1, 3); }
CONTRACT(encode_non_2_1) { c_encode(false, 2, 1); }
CONTRACT(decode_sys_3_2) { c_decode(true, 3, 2); }
CONTRACT(decode_non_3_2) { c_decode(false, 3, 2); }
CONTRACT(decode_sys_1_3) { c_decode(true, 1, 3); }
CONTRACT(decode_non_2_1) { c_decode(false, 2, 1); }
