// Minimal stand-in for the few xtensor features libspu's non-test code uses.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <ostream>
#include <type_traits>
#include <vector>

namespace xt {
template <typename D>
class xexpression {
 public:
  const D& derived_cast() const { return *static_cast<const D*>(this); }
  D& derived_cast() { return *static_cast<D*>(this); }
};

namespace detail {
// std::vector<bool> has no data(); keep bool elements in a plain array.
template <typename T>
class store {
 public:
  store() = default;
  explicit store(size_t n, T v = T()) : p_(new T[n]), n_(n) {
    for (size_t i = 0; i < n; i++) p_[i] = v;
  }
  store(const store& o) : p_(new T[o.n_]), n_(o.n_) {
    for (size_t i = 0; i < n_; i++) p_[i] = o.p_[i];
  }
  store(store&&) noexcept = default;
  store& operator=(store o) {
    p_.swap(o.p_);
    std::swap(n_, o.n_);
    return *this;
  }
  T* data() { return p_.get(); }
  const T* data() const { return p_.get(); }
  size_t size() const { return n_; }

 private:
  std::unique_ptr<T[]> p_;
  size_t n_ = 0;
};
inline size_t numel(const std::vector<size_t>& s) {
  size_t n = 1;
  for (auto d : s) n *= d;
  return n;
}
}  // namespace detail

template <typename T>
class xarray : public xexpression<xarray<T>> {
 public:
  using value_type = T;
  xarray() : shape_(), st_(1) {}
  explicit xarray(std::vector<size_t> shape, T v = T())
      : shape_(std::move(shape)), st_(detail::numel(shape_), v) { mk(); }
  xarray(std::initializer_list<T> l) : shape_({l.size()}), st_(l.size()) {
    size_t i = 0;
    for (auto v : l) st_.data()[i++] = v;
    mk();
  }
  template <typename E, typename = std::enable_if_t<!std::is_same_v<E, xarray>>>
  xarray(const xexpression<E>& e) {
    const auto& d = e.derived_cast();
    shape_.assign(d.shape().begin(), d.shape().end());
    st_ = detail::store<T>(detail::numel(shape_));
    for (size_t i = 0; i < st_.size(); i++) st_.data()[i] = static_cast<T>(d.flat(i));
    mk();
  }
  const std::vector<size_t>& shape() const { return shape_; }
  const std::vector<std::ptrdiff_t>& strides() const { return strides_; }
  size_t size() const { return st_.size(); }
  size_t dimension() const { return shape_.size(); }
  T* data() { return st_.data(); }
  const T* data() const { return st_.data(); }
  T& flat(size_t i) { return st_.data()[i]; }
  const T& flat(size_t i) const { return st_.data()[i]; }
  T& operator[](size_t i) { return st_.data()[i]; }
  const T& operator[](size_t i) const { return st_.data()[i]; }
  const T& front() const { return st_.data()[0]; }
  T* begin() { return st_.data(); }
  T* end() { return st_.data() + st_.size(); }
  const T* begin() const { return st_.data(); }
  const T* end() const { return st_.data() + st_.size(); }

 private:
  void mk() {
    strides_.assign(shape_.size(), 0);
    std::ptrdiff_t s = 1;
    for (size_t i = shape_.size(); i-- > 0;) {
      strides_[i] = shape_[i] == 1 ? 0 : s;
      s *= static_cast<std::ptrdiff_t>(shape_[i]);
    }
  }
  std::vector<size_t> shape_;
  std::vector<std::ptrdiff_t> strides_;
  detail::store<T> st_;
};

template <typename T>
std::ostream& operator<<(std::ostream& os, const xarray<T>& a) {
  os << "{";
  for (size_t i = 0; i < a.size(); i++) os << (i ? "," : "") << +a.data()[i];
  return os << "}";
}

struct no_ownership {};

template <typename T>
class xadaptor : public xexpression<xadaptor<T>> {
 public:
  using value_type = std::remove_const_t<T>;
  xadaptor(T* p, std::vector<size_t> sh, std::vector<std::ptrdiff_t> st)
      : p_(p), shape_(std::move(sh)), strides_(std::move(st)) {}
  const std::vector<size_t>& shape() const { return shape_; }
  const std::vector<std::ptrdiff_t>& strides() const { return strides_; }
  size_t size() const { return detail::numel(shape_); }
  T& flat(size_t i) const {
    std::ptrdiff_t off = 0;
    for (size_t d = shape_.size(); d-- > 0;) {
      off += static_cast<std::ptrdiff_t>(i % shape_[d]) * strides_[d];
      i /= shape_[d];
    }
    return p_[off];
  }
  template <typename E>
  xadaptor& operator=(const xexpression<E>& e) {
    const auto& d = e.derived_cast();
    for (size_t i = 0; i < size(); i++) flat(i) = static_cast<value_type>(d.flat(i));
    return *this;
  }

 private:
  T* p_;
  std::vector<size_t> shape_;
  std::vector<std::ptrdiff_t> strides_;
};

template <typename T, typename SH, typename ST>
auto adapt(T* p, size_t, no_ownership, const SH& shape, const ST& strides) {
  return xadaptor<T>(p, std::vector<size_t>(shape.begin(), shape.end()),
                     std::vector<std::ptrdiff_t>(strides.begin(), strides.end()));
}
template <typename T, typename E>
xarray<T> cast(const xexpression<E>& e) {
  return xarray<T>(e);
}
template <typename T, typename U>
xarray<T> cast(const xarray<U>& e) {
  if constexpr (std::is_same_v<T, U>) {
    return e;
  } else {
    return xarray<T>(static_cast<const xexpression<xarray<U>>&>(e));
  }
}
template <typename T>
const xarray<T>& eval(const xarray<T>& a) { return a; }
template <typename T>
const xadaptor<T>& eval(const xadaptor<T>& a) { return a; }

template <typename T>
xarray<T> eye(const std::vector<size_t>& shape, int k = 0) {
  xarray<T> r(shape, T(0));
  const size_t cols = shape[1];
  for (size_t i = 0; i < shape[0]; i++) {
    auto j = static_cast<std::ptrdiff_t>(i) + k;
    if (j >= 0 && static_cast<size_t>(j) < cols) r.data()[i * cols + j] = T(1);
  }
  return r;
}
}  // namespace xt
