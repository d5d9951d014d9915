// Stand-in for the function2 library (an empty submodule in this sandbox).
// Only what cpp-async-rpc uses: fu2::unique_function<R(Args...)>, a move-only,
// nullable callable wrapper whose call operator is not const.
#ifndef VERIF_SHIM_FUNCTION2_HPP_
#define VERIF_SHIM_FUNCTION2_HPP_
#include <cassert>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>

namespace fu2 {
template <typename Sig>
class unique_function;

template <typename R, typename... A>
class unique_function<R(A...)> {
  struct base {
    virtual ~base() = default;
    virtual R call(A... a) = 0;
  };
  template <typename F>
  struct impl final : base {
    F f;
    template <typename G>
    explicit impl(G&& g) : f(std::forward<G>(g)) {}
    R call(A... a) override {
      if constexpr (std::is_void_v<R>) {
        std::invoke(f, std::forward<A>(a)...);
      } else {
        return std::invoke(f, std::forward<A>(a)...);
      }
    }
  };
  std::unique_ptr<base> p_;

 public:
  unique_function() = default;
  unique_function(std::nullptr_t) {}
  unique_function(const unique_function&) = delete;
  unique_function& operator=(const unique_function&) = delete;
  unique_function(unique_function&&) noexcept = default;
  unique_function& operator=(unique_function&&) noexcept = default;
  unique_function& operator=(std::nullptr_t) {
    p_.reset();
    return *this;
  }
  template <typename F, typename D = std::decay_t<F>,
            typename = std::enable_if_t<!std::is_same_v<D, unique_function> &&
                                        std::is_invocable_r_v<R, D&, A...>>>
  unique_function(F&& f) : p_(std::make_unique<impl<D>>(std::forward<F>(f))) {}
  explicit operator bool() const noexcept { return !!p_; }
  R operator()(A... a) {
    if (!p_) std::abort();
    return p_->call(std::forward<A>(a)...);
  }
};
}  // namespace fu2
#endif
