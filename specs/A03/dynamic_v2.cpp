// vf-flags: -DASIO_NO_DYNAMIC_BUFFER_V1=1
// the same contracts in the configuration without the older protocol
#include "../A03/dynamic.cpp"
