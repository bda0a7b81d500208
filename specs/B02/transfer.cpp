// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: the system calls behave as POSIX says: a transfer moves between 0 and the requested number of bytes, in order, or fails with an errno
#include "transfer.hpp"
VF_HARNESS(read_1) { transfer<FH, M, 1>(false, false); vf_expect_cover("eof"); }
VF_HARNESS(read_3) { transfer<FH, M, 3>(false, false); }
VF_HARNESS(read_at_1) { transfer<FH, M, 1>(false, true); }
VF_HARNESS(read_at_3) { transfer<FH, M, 3>(false, true); }
VF_HARNESS(write_1) { transfer<FH, C, 1>(true, false); }
VF_HARNESS(write_3) { transfer<FH, C, 3>(true, false); }
VF_HARNESS(write_at_1) { transfer<FH, C, 1>(true, true); }
VF_HARNESS(write_at_3) { transfer<FH, C, 3>(true, true); }
VF_HARNESS(unique_read) { transfer<UFH, M, 2>(false, vf_bool("at")); }
VF_HARNESS(unique_write) { transfer<UFH, C, 2>(true, vf_bool("at")); }
