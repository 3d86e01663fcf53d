// Stand-in for the spimpl submodule, which is absent from this checkout:
// smart pointers to an implementation, impl_ptr being deeply copied.
#ifndef VERIF_STUB_SPIMPL
#define VERIF_STUB_SPIMPL
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
namespace spimpl {
template <typename T>
class unique_impl_ptr {
 public:
  unique_impl_ptr() noexcept : p(nullptr), d(nullptr) {}
  unique_impl_ptr(std::nullptr_t) noexcept : p(nullptr), d(nullptr) {}
  unique_impl_ptr(T* p, void (*d)(T*)) noexcept : p(p), d(d) {}
  unique_impl_ptr(unique_impl_ptr&& o) noexcept : p(std::exchange(o.p, nullptr)), d(o.d) {}
  unique_impl_ptr& operator=(unique_impl_ptr&& o) noexcept { std::swap(p, o.p); std::swap(d, o.d); return *this; }
  ~unique_impl_ptr() { if (p) d(p); }
  T* operator->() { return p; }
  const T* operator->() const { return p; }
  T& operator*() { return *p; }
  const T& operator*() const { return *p; }
  T* get() { return p; }
  const T* get() const { return p; }
  explicit operator bool() const { return p != nullptr; }
 private:
  T* p;
  void (*d)(T*);
};
template <typename T, typename... Args>
unique_impl_ptr<T> make_unique_impl(Args&&... args) {
  return unique_impl_ptr<T>(new T(std::forward<Args>(args)...), [](T* p) { delete p; });
}
template <typename T>
class impl_ptr {
 public:
  impl_ptr() noexcept : p(nullptr), d(nullptr), c(nullptr) {}
  impl_ptr(std::nullptr_t) noexcept : p(nullptr), d(nullptr), c(nullptr) {}
  impl_ptr(T* p, void (*d)(T*), T* (*c)(const T*)) noexcept : p(p), d(d), c(c) {}
  impl_ptr(impl_ptr&& o) noexcept : p(std::exchange(o.p, nullptr)), d(o.d), c(o.c) {}
  impl_ptr(const impl_ptr& o) : p(o.p ? o.c(o.p) : nullptr), d(o.d), c(o.c) {}
  impl_ptr& operator=(impl_ptr&& o) noexcept { std::swap(p, o.p); std::swap(d, o.d); std::swap(c, o.c); return *this; }
  impl_ptr& operator=(const impl_ptr& o) { if (this != &o) { impl_ptr t(o); *this = std::move(t); } return *this; }
  ~impl_ptr() { if (p) d(p); }
  T* operator->() { return p; }
  const T* operator->() const { return p; }
  T& operator*() { return *p; }
  const T& operator*() const { return *p; }
  T* get() { return p; }
  const T* get() const { return p; }
  explicit operator bool() const { return p != nullptr; }
 private:
  T* p;
  void (*d)(T*);
  T* (*c)(const T*);
};
template <typename T, typename... Args>
impl_ptr<T> make_impl(Args&&... args) {
  return impl_ptr<T>(
      new T(std::forward<Args>(args)...), [](T* p) { delete p; }, [](const T* p) { return new T(*p); });
}
}  // namespace spimpl
#endif
