// Specification intrinsics.  The verifier gives them their logical meaning;
// native.cpp gives them an executable one (replay of a counterexample).
#ifndef VF_HPP
#define VF_HPP
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t vf_u8(const char* label);
uint16_t vf_u16(const char* label);
uint32_t vf_u32(const char* label);
uint64_t vf_u64(const char* label);
bool vf_bool(const char* label);            // arbitrary, case split
bool vf_ghost_bool(const char* label);      // arbitrary, no case split
uint32_t vf_choose(uint32_t n, const char* label);  // arbitrary in [0,n), case split
void* vf_bytes(std::size_t n, const char* label);   // n arbitrary bytes, owned by the environment
// as vf_bytes, but each byte lies in one of the ranges, given as pairs of characters: "azAZ09"
void* vf_bytes_in(std::size_t n, const char* label, const char* ranges);
void* vf_block(std::size_t n, const char* label);   // n arbitrary bytes obtained from operator new
void vf_assume(bool c);
void vf_assert(bool c, const char* clause);      // postcondition / invariant clause
void vf_requires(bool c, const char* clause);    // precondition checked at a call
void vf_cover(const char* label);                // must be reachable (vacuity guard)
void vf_expect_cover(const char* label);
// Ghost elements for loop invariants (no logical effect: they only add candidate facts).
void vf_seq(std::size_t j, uint8_t v);           // v is element j of the sequence a loop is expected to produce
void vf_fact(const void* p, bool f);             // f is a fact about the constant byte at p
void vf_byte(const void* o, uint8_t v);           // v delimits ranges of o
void vf_num(uint64_t x);                         // x is worth relating to loop counters
void vf_stop();                                  // end this execution
std::size_t vf_heap_live();                      // live operator-new blocks
bool vf_same(const void* a, const void* b);        // both point into the same object
bool vf_is_live(const void* p);                  // object behind p not yet released
std::size_t vf_block_size(const void* p);        // size of the live block starting at p, else 0
void* vf_raw_new(std::size_t n);
void vf_throw_bad_alloc();
void vf_enforce(const char* name);
}
#define VF_HARNESS(name) extern "C" void vfh_##name()
#endif
