#include "allocs.h"
#include <cstdlib>
#include <new>
namespace allocs {
std::atomic<long> live{0};
std::atomic<long> total{0};
std::size_t max_size = std::size_t{1} << 40;
long max_total = -1;
}
static void* get(std::size_t n) {
  if (n > allocs::max_size || (allocs::max_total >= 0 && allocs::total >= allocs::max_total)) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  allocs::live++;
  allocs::total++;
  return p;
}
static void put(void* p) noexcept {
  if (p) allocs::live--;
  std::free(p);
}
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  try {
    return get(n);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
