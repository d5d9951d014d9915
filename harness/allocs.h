// Counts live allocations and refuses absurd ones (a decoder may ask for what
// the input names; running out of memory is reported as std::bad_alloc).
#ifndef VERIF_ALLOCS_H_
#define VERIF_ALLOCS_H_
#include <atomic>
#include <cstddef>
namespace allocs {
extern std::atomic<long> live;
extern std::atomic<long> total;
extern std::size_t max_size;
extern long max_total;  // allocations allowed before std::bad_alloc, < 0: no limit
}
#endif
