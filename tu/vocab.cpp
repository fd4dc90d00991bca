// Drivers for the optional/expected analysis: one operation per function, instantiated with
// declared-only probe types. Parameter names give the roles. Never linked, never run.
#include <compare>
#include <fitoria/core/expected.hpp>
#include <fitoria/core/optional.hpp>
#include <initializer_list>
#include <memory>
#include <utility>

namespace vp {
using fitoria::expected;
using fitoria::nullopt;
using fitoria::optional;
using fitoria::unexpect;
using fitoria::unexpected;

template <int K>
struct src { // a type values/errors convert from
  src(const src&);
  src(src&&);
  src& operator=(const src&);
  src& operator=(src&&);
  ~src();
};

#define PROBE(NAME, K, MV)                      \
  struct NAME {                                 \
    NAME(const NAME&);                          \
    NAME(NAME&&) noexcept(MV);                  \
    NAME& operator=(const NAME&);               \
    NAME& operator=(NAME&&) noexcept(MV);       \
    NAME(const src<K>&);                        \
    NAME(src<K>&&);                             \
    NAME& operator=(const src<K>&);             \
    NAME& operator=(src<K>&&);                  \
    NAME(const src<K>&, const src<K>&);         \
    NAME(std::initializer_list<int>, const src<K>&); \
    ~NAME();                                    \
  };
PROBE(tv, 0, false) // value, throwing moves
PROBE(nv, 0, true)  // value, non-throwing moves
PROBE(te, 1, false) // error, throwing moves
PROBE(ne, 1, true)  // error, non-throwing moves
PROBE(xv, 2, true)  // results of transformations

struct fv { // for nothrow emplace
  fv(const fv&) noexcept;
  fv(fv&&) noexcept;
  fv& operator=(const fv&) noexcept;
  fv& operator=(fv&&) noexcept;
  fv(const src<0>&) noexcept;
  fv(src<0>&&) noexcept;
  fv& operator=(const src<0>&) noexcept;
  fv& operator=(src<0>&&) noexcept;
  fv(const src<0>&, const src<0>&) noexcept;
  fv(std::initializer_list<int>, const src<0>&) noexcept;
  ~fv();
};

template <class T>
struct src_of { using type = src<0>; };
template <> struct src_of<te> { using type = src<1>; };
template <> struct src_of<ne> { using type = src<1>; };
template <> struct src_of<int> { using type = short; };

// callables: one overload per value category
template <class R, class T>
struct fun {
  R operator()(T&);
  R operator()(const T&);
  R operator()(T&&);
  R operator()(const T&&);
};
template <class R>
struct fun0 {
  R operator()();
};

// ---------------------------------------------------------------- optional<T>
template <class T>
struct opt_common {
  using O = optional<T>;

  static O op_default() { return O(); }
  static O op_nullopt() { return O(nullopt); }
  static O op_copy(const O& other) { return O(other); }
  static O op_move(O&& other) { return O(std::move(other)); }
  static O op_inplace_copy(const T& val) { return O(std::in_place, val); }
  static O op_inplace_move(T&& val) { return O(std::in_place, std::move(val)); }
  static O op_value_copy(const T& val) { return O(val); }
  static O op_value_move(T&& val) { return O(std::move(val)); }
  static void op_dtor(O& self) { self.~O(); }
  static O& op_assign_nullopt(O& self) { return self = nullopt; }
  static O& op_assign_copy(O& self, const O& other) { return self = other; }
  static O& op_assign_move(O& self, O&& other) { return self = std::move(other); }
  static O& op_assign_self(O& self) { return self = static_cast<const O&>(self); }
  static T& op_emplace_copy(O& self, const T& val) { return self.emplace(val); }
  static T& op_emplace_move(O& self, T&& val) { return self.emplace(std::move(val)); }
  static void op_reset(O& self) { self.reset(); }
  static bool op_has(const O& self) { return self.has_value(); }
  static bool op_bool(const O& self) { return static_cast<bool>(self); }
  static T& op_star_l(O& self) { return *self; }
  static const T& op_star_cl(const O& self) { return *self; }
  static T&& op_star_r(O&& self) { return *std::move(self); }
  static const T&& op_star_cr(const O&& self) { return *std::move(self); }
  static T* op_arrow(O& self) { return self.operator->(); }
  static const T* op_carrow(const O& self) { return self.operator->(); }
  static T& op_value_l(O& self) { return self.value(); }
  static const T& op_value_cl(const O& self) { return self.value(); }
  static T&& op_value_r(O&& self) { return std::move(self).value(); }
  static const T&& op_value_cr(const O&& self) { return std::move(self).value(); }
  static T op_value_or_copy(const O& self, const T& val) { return self.value_or(val); }
  static T op_value_or_cmove(const O& self, T&& val) { return self.value_or(std::move(val)); }
  static T op_value_or_move(O&& self, T&& val) { return std::move(self).value_or(std::move(val)); }
  static void op_swap(O& self, O& rhs) { self.swap(rhs); }
  static void op_fswap(O& self, O& rhs) { using fitoria::swap; swap(self, rhs); }

  using FO = fun<optional<xv>, T>;
  using FV = fun<xv, T>;
  using F0 = fun0<O>;
  static optional<xv> op_and_then_l(O& self, FO& f) { return self.and_then(f); }
  static optional<xv> op_and_then_cl(const O& self, FO& f) { return self.and_then(f); }
  static optional<xv> op_and_then_r(O&& self, FO& f) { return std::move(self).and_then(f); }
  static optional<xv> op_and_then_cr(const O&& self, FO& f) { return std::move(self).and_then(f); }
  static optional<xv> op_transform_l(O& self, FV& f) { return self.transform(f); }
  static optional<xv> op_transform_cl(const O& self, FV& f) { return self.transform(f); }
  static optional<xv> op_transform_r(O&& self, FV& f) { return std::move(self).transform(f); }
  static optional<xv> op_transform_cr(const O&& self, FV& f) { return std::move(self).transform(f); }
  static O op_or_else_cl(const O& self, F0& f) { return self.or_else(f); }
  static O op_or_else_r(O&& self, F0& f) { return std::move(self).or_else(f); }
};
template <class T>
struct opt_conv {
  using O = optional<T>;
  using A = typename src_of<T>::type;
  using P = optional<A>;
  static O op_conv_copy(const P& other) { return O(other); }
  static O op_conv_move(P&& other) { return O(std::move(other)); }
  static O op_value_copy(const A& val) { return O(val); }
  static O op_value_move(A&& val) { return O(std::move(val)); }
  static O op_make(const T& val) { return fitoria::make_optional(val); }
  static O op_make_move(T&& val) { return fitoria::make_optional(std::move(val)); }
  static O op_make_args(const A& val) { return fitoria::make_optional<T>(val); }
  static O& op_assign_val_copy(O& self, const T& val) { return self = val; }
  static O& op_assign_val_move(O& self, T&& val) { return self = std::move(val); }
  static O& op_assign_conv_val_copy(O& self, const A& val) { return self = val; }
  static O& op_assign_conv_val_move(O& self, A&& val) { return self = std::move(val); }
  static O& op_assign_conv_copy(O& self, const P& other) { return self = other; }
  static O& op_assign_conv_move(O& self, P&& other) { return self = std::move(other); }
  static T& op_emplace_copy(O& self, const A& val) { return self.emplace(val); }
  static T op_value_or_conv(const O& self, const A& val) { return self.value_or(val); }
  static T op_value_or_conv_move(O&& self, A&& val) { return std::move(self).value_or(std::move(val)); }
};
template <class T>
struct opt_args {
  using O = optional<T>;
  using A = typename src_of<T>::type;
  static O op_inplace_args(const A& a1, A&& a2) { return O(std::in_place, a1, std::move(a2)); }
  static O op_inplace_il(std::initializer_list<int> il, const A& a2) { return O(std::in_place, il, a2); }
  static O op_make_args2(const A& a1, A&& a2) { return fitoria::make_optional<T>(a1, std::move(a2)); }
  static O op_make_il(std::initializer_list<int> il, const A& a2) { return fitoria::make_optional<T>(il, a2); }
  static T& op_emplace_args(O& self, const A& a1, A&& a2) { return self.emplace(a1, std::move(a2)); }
  static T& op_emplace_il(O& self, std::initializer_list<int> il, const A& a2) { return self.emplace(il, a2); }
};
template struct opt_common<tv>;
template struct opt_common<nv>;
template struct opt_common<int>;
template struct opt_conv<tv>;
template struct opt_conv<nv>;
template struct opt_args<tv>;
template struct opt_common<src<0>>;

struct opt_cmp {
  using O = optional<int>;
  using P = optional<long>;
#define CMP(NAME, OP)                                                               \
  static bool cmp_##NAME##_oo(const O& self, const P& rhs) { return self OP rhs; }  \
  static bool cmp_##NAME##_ov(const O& self, const long& rhs) { return self OP rhs; } \
  static bool cmp_##NAME##_vo(const long& self, const O& rhs) { return self OP rhs; } \
  static bool cmp_##NAME##_on(const O& self) { return self OP nullopt; }            \
  static bool cmp_##NAME##_no(const O& rhs) { return nullopt OP rhs; }
  CMP(eq, ==)
  CMP(ne, !=)
  CMP(lt, <)
  CMP(le, <=)
  CMP(gt, >)
  CMP(ge, >=)
  static std::strong_ordering cmp_tw_oo(const O& self, const P& rhs) { return self <=> rhs; }
  static std::strong_ordering cmp_tw_on(const O& self) { return self <=> nullopt; }
};

struct opt_void {
  using O = optional<void>;
  static O op_default() { return O(); }
  static O op_nullopt() { return O(nullopt); }
  static O op_copy(const O& other) { return O(other); }
  static O op_move(O&& other) { return O(std::move(other)); }
  static O op_inplace() { return O(std::in_place); }
  static O& op_assign_nullopt(O& self) { return self = nullopt; }
  static O& op_assign_copy(O& self, const O& other) { return self = other; }
  static O& op_assign_move(O& self, O&& other) { return self = std::move(other); }
  static void op_emplace(O& self) { self.emplace(); }
  static void op_reset(O& self) { self.reset(); }
  static bool op_has(const O& self) { return self.has_value(); }
  static bool op_bool(const O& self) { return static_cast<bool>(self); }
  static void op_value_cl(const O& self) { self.value(); }
  static void op_swap(O& self, O& rhs) { self.swap(rhs); }
  static void op_fswap(O& self, O& rhs) { using fitoria::swap; swap(self, rhs); }
  static optional<xv> op_and_then_cl(const O& self, fun0<optional<xv>>& f) { return self.and_then(f); }
  static optional<void> op_transform_cl(const O& self, fun0<void>& f) { return self.transform(f); }
  static O op_or_else_cl(const O& self, fun0<O>& f) { return self.or_else(f); }
  static bool cmp_eq_oo(const O& self, const O& rhs) { return self == rhs; }
  static bool cmp_ne_oo(const O& self, const O& rhs) { return self != rhs; }
  static bool cmp_lt_oo(const O& self, const O& rhs) { return self < rhs; }
  static bool cmp_le_oo(const O& self, const O& rhs) { return self <= rhs; }
  static bool cmp_gt_oo(const O& self, const O& rhs) { return self > rhs; }
  static bool cmp_ge_oo(const O& self, const O& rhs) { return self >= rhs; }
  static bool cmp_eq_on(const O& self) { return self == nullopt; }
};

struct base_t { };
struct derv_t : base_t { };
struct opt_ref {
  using O = optional<tv&>;
  static O op_default() { return O(); }
  static O op_nullopt() { return O(nullopt); }
  static O op_copy(const O& other) { return O(other); }
  static O op_move(O&& other) { return O(std::move(other)); }
  static O op_value_bind(tv& val) { return O(val); }
  static O& op_assign_nullopt(O& self) { return self = nullopt; }
  static O& op_assign_copy(O& self, const O& other) { return self = other; }
  static O& op_assign_move(O& self, O&& other) { return self = std::move(other); }
  static O& op_assign_bind(O& self, tv& val) { return self = val; }
  static tv& op_emplace_bind(O& self, tv& val) { return self.emplace(val); }
  static void op_reset(O& self) { self.reset(); }
  static bool op_has(const O& self) { return self.has_value(); }
  static bool op_bool(const O& self) { return static_cast<bool>(self); }
  static tv& op_star_l(const O& self) { return *self; }
  static tv* op_arrow(const O& self) { return self.operator->(); }
  static tv& op_value_l(const O& self) { return self.value(); }
  static tv op_value_or_copy(const O& self, const tv& val) { return self.value_or(val); }
  static void op_swap(O& self, O& rhs) { self.swap(rhs); }
  static void op_fswap(O& self, O& rhs) { using fitoria::swap; swap(self, rhs); }
  static optional<xv> op_and_then_l(const O& self, fun<optional<xv>, tv>& f) { return self.and_then(f); }
  static optional<xv> op_transform_l(const O& self, fun<xv, tv>& f) { return self.transform(f); }
  static O op_or_else_cl(const O& self, fun0<O>& f) { return self.or_else(f); }
};
struct opt_ref_conv { // optional<const tv&> from optional<tv&> and from an owning optional
  using O = optional<const tv&>;
  using P = optional<tv&>;
  using W = optional<tv>;
  static O op_conv_bind(const P& other) { return O(other); }
  static O op_own_bind(const W& other) { return O(other); }
  static O& op_assign_conv_bind(O& self, const P& other) { return self = other; }
};

// ---------------------------------------------------------------- expected<T, E>
template <class T, class E>
struct exp_common {
  using O = expected<T, E>;
  using G = typename src_of<E>::type;

  static O op_copy(const O& other) { return O(other); }
  static O op_move(O&& other) { return O(std::move(other)); }
  static O op_value_copy(const T& val) { return O(val); }
  static O op_value_move(T&& val) { return O(std::move(val)); }
  static O op_inplace_copy(const T& val) { return O(std::in_place, val); }
  static O op_inplace_move(T&& val) { return O(std::in_place, std::move(val)); }
  static O op_unexp_copy(const unexpected<E>& u) { return O(u); }
  static O op_unexp_move(unexpected<E>&& u) { return O(std::move(u)); }
  static O op_unexp_conv_copy(const unexpected<G>& u) { return O(u); }
  static O op_unexp_conv_move(unexpected<G>&& u) { return O(std::move(u)); }
  static O op_unexpect_copy(const E& err) { return O(unexpect, err); }
  static O op_unexpect_move(E&& err) { return O(unexpect, std::move(err)); }
  static void op_dtor(O& self) { self.~O(); }
  static bool op_has(const O& self) { return self.has_value(); }
  static bool op_bool(const O& self) { return static_cast<bool>(self); }
  static T& op_star_l(O& self) { return *self; }
  static const T& op_star_cl(const O& self) { return *self; }
  static T&& op_star_r(O&& self) { return *std::move(self); }
  static const T&& op_star_cr(const O&& self) { return *std::move(self); }
  static T* op_arrow(O& self) { return self.operator->(); }
  static const T* op_carrow(const O& self) { return self.operator->(); }
  static T& op_value_l(O& self) { return self.value(); }
  static const T& op_value_cl(const O& self) { return self.value(); }
  static T&& op_value_r(O&& self) { return std::move(self).value(); }
  static const T&& op_value_cr(const O&& self) { return std::move(self).value(); }
  static E& op_error_l(O& self) { return self.error(); }
  static const E& op_error_cl(const O& self) { return self.error(); }
  static E&& op_error_r(O&& self) { return std::move(self).error(); }
  static const E&& op_error_cr(const O&& self) { return std::move(self).error(); }
  static T op_value_or_copy(const O& self, const T& val) { return self.value_or(val); }
  static T op_value_or_cmove(const O& self, T&& val) { return self.value_or(std::move(val)); }
  static T op_value_or_move(O&& self, T&& val) { return std::move(self).value_or(std::move(val)); }
  static E op_error_or_copy(const O& self, const E& err) { return self.error_or(err); }
  static E op_error_or_cmove(const O& self, E&& err) { return self.error_or(std::move(err)); }
  static E op_error_or_move(O&& self, E&& err) { return std::move(self).error_or(std::move(err)); }

  using R = expected<xv, E>;
  using S = expected<T, xv>;
  using FT = fun<R, T>;
  using FV = fun<xv, T>;
  using FE = fun<S, E>;
  using FX = fun<xv, E>;
  static R op_and_then_l(O& self, FT& f) { return self.and_then(f); }
  static R op_and_then_cl(const O& self, FT& f) { return self.and_then(f); }
  static R op_and_then_r(O&& self, FT& f) { return std::move(self).and_then(f); }
  static R op_and_then_cr(const O&& self, FT& f) { return std::move(self).and_then(f); }
  static R op_transform_l(O& self, FV& f) { return self.transform(f); }
  static R op_transform_cl(const O& self, FV& f) { return self.transform(f); }
  static R op_transform_r(O&& self, FV& f) { return std::move(self).transform(f); }
  static R op_transform_cr(const O&& self, FV& f) { return std::move(self).transform(f); }
  static S op_or_else_l(O& self, FE& f) { return self.or_else(f); }
  static S op_or_else_cl(const O& self, FE& f) { return self.or_else(f); }
  static S op_or_else_r(O&& self, FE& f) { return std::move(self).or_else(f); }
  static S op_or_else_cr(const O&& self, FE& f) { return std::move(self).or_else(f); }
  static S op_transform_error_l(O& self, FX& f) { return self.transform_error(f); }
  static S op_transform_error_cl(const O& self, FX& f) { return self.transform_error(f); }
  static S op_transform_error_r(O&& self, FX& f) { return std::move(self).transform_error(f); }
  static S op_transform_error_cr(const O&& self, FX& f) { return std::move(self).transform_error(f); }
};
template <class T, class E>
struct exp_assign {
  using O = expected<T, E>;
  using A = typename src_of<T>::type;
  using G = typename src_of<E>::type;
  using P = expected<A, G>;
  static O op_conv_copy(const P& other) { return O(other); }
  static O op_conv_move(P&& other) { return O(std::move(other)); }
  static O op_value_copy(const A& val) { return O(val); }
  static O op_value_move(A&& val) { return O(std::move(val)); }
  static O& op_assign_copy(O& self, const O& other) { return self = other; }
  static O& op_assign_move(O& self, O&& other) { return self = std::move(other); }
  static O& op_assign_self(O& self) { return self = static_cast<const O&>(self); }
  static O& op_assign_val_copy(O& self, const T& val) { return self = val; }
  static O& op_assign_val_move(O& self, T&& val) { return self = std::move(val); }
  static O& op_assign_conv_val_copy(O& self, const A& val) { return self = val; }
  static O& op_assign_conv_val_move(O& self, A&& val) { return self = std::move(val); }
  static O& op_assign_unexp_copy(O& self, const unexpected<E>& u) { return self = u; }
  static O& op_assign_unexp_move(O& self, unexpected<E>&& u) { return self = std::move(u); }
  static O& op_assign_unexp_conv_copy(O& self, const unexpected<G>& u) { return self = u; }
  static O& op_assign_unexp_conv_move(O& self, unexpected<G>&& u) { return self = std::move(u); }
  static void op_swap(O& self, O& rhs) { self.swap(rhs); }
  static void op_fswap(O& self, O& rhs) { swap(self, rhs); }
};
template <class T, class E>
struct exp_args {
  using O = expected<T, E>;
  using A = typename src_of<T>::type;
  using G = typename src_of<E>::type;
  static O op_inplace_args(const A& a1, A&& a2) { return O(std::in_place, a1, std::move(a2)); }
  static O op_inplace_il(std::initializer_list<int> il, const A& a2) { return O(std::in_place, il, a2); }
  static O op_unexpect_args(const G& a1, G&& a2) { return O(unexpect, a1, std::move(a2)); }
  static O op_unexpect_il(std::initializer_list<int> il, const G& a2) { return O(unexpect, il, a2); }
};
template <class T, class E>
struct exp_emplace {
  using O = expected<T, E>;
  using A = typename src_of<T>::type;
  static T& op_emplace_copy(O& self, const T& val) { return self.emplace(val); }
  static T& op_emplace_move(O& self, T&& val) { return self.emplace(std::move(val)); }
  static T& op_emplace_args(O& self, const A& a1, A&& a2) { return self.emplace(a1, std::move(a2)); }
  static T& op_emplace_il(O& self, std::initializer_list<int> il, const A& a2) { return self.emplace(il, a2); }
};
template struct exp_common<tv, ne>;
template struct exp_common<nv, te>;
template struct exp_common<nv, ne>;
template struct exp_common<tv, te>;
template struct exp_common<fv, te>;
template struct exp_common<int, ne>;
template struct exp_common<nv, int>;
template struct exp_common<int, int>;
template struct exp_assign<tv, ne>;
template struct exp_assign<nv, te>;
template struct exp_assign<nv, ne>;
template struct exp_assign<fv, te>;
template struct exp_args<tv, ne>;
template struct exp_emplace<fv, te>;
template struct exp_emplace<fv, ne>;

template <class T, class E>
struct exp_triv { // assignments over trivial alternatives
  using O = expected<T, E>;
  static O& op_assign_copy(O& self, const O& other) { return self = other; }
  static O& op_assign_move(O& self, O&& other) { return self = std::move(other); }
  static O& op_assign_val_copy(O& self, const T& val) { return self = val; }
  static O& op_assign_val_move(O& self, T&& val) { return self = std::move(val); }
  static O& op_assign_unexp_copy(O& self, const unexpected<E>& u) { return self = u; }
  static O& op_assign_unexp_move(O& self, unexpected<E>&& u) { return self = std::move(u); }
  static void op_swap(O& self, O& rhs) { self.swap(rhs); }
};
template struct exp_triv<int, ne>;
template struct exp_triv<nv, int>;
template struct exp_triv<int, int>;

// witnesses: an assignment that copies bytes cannot run element lifetimes
struct zv { // trivial assignment, everything else user-provided
  zv(const zv&);
  zv(zv&&) noexcept;
  zv& operator=(const zv&) = default;
  zv& operator=(zv&&) = default;
  ~zv();
};
struct zc { // trivial assignment and destruction
  zc(const zc&);
  zc(zc&&) noexcept;
  zc& operator=(const zc&) = default;
  zc& operator=(zc&&) = default;
};
template <class O>
struct wit {
  static bool wit_copy_assign() {
    return std::is_copy_assignable_v<O> && !std::is_trivially_copy_assignable_v<O>;
  }
  static bool wit_move_assign() {
    return std::is_move_assignable_v<O> && !std::is_trivially_move_assignable_v<O>;
  }
  static bool wit_copy() {
    return std::is_copy_constructible_v<O> && !std::is_trivially_copy_constructible_v<O>;
  }
  static bool wit_move() {
    return std::is_move_constructible_v<O> && !std::is_trivially_move_constructible_v<O>;
  }
};
template struct wit<optional<zv>>;
template struct wit<optional<zc>>;
template struct wit<optional<nv>>;
template struct wit<expected<zv, int>>;
template struct wit<expected<int, zv>>;
template struct wit<expected<zv, zv>>;
template struct wit<expected<zc, int>>;
template struct wit<expected<int, zc>>;
template struct wit<expected<void, zv>>;
template struct wit<expected<void, zc>>;
template struct wit<expected<int&, zv>>;
template struct wit<expected<int&, zc>>;

struct exp_void {
  using E = te;
  using O = expected<void, E>;
  using G = src<1>;
  static O op_value() { return O(); }
  static O op_inplace() { return O(std::in_place); }
  static O op_copy(const O& other) { return O(other); }
  static O op_move(O&& other) { return O(std::move(other)); }
  static O op_conv_copy(const expected<void, G>& other) { return O(other); }
  static O op_conv_move(expected<void, G>&& other) { return O(std::move(other)); }
  static O op_unexp_copy(const unexpected<E>& u) { return O(u); }
  static O op_unexp_move(unexpected<E>&& u) { return O(std::move(u)); }
  static O op_unexp_conv_copy(const unexpected<G>& u) { return O(u); }
  static O op_unexp_conv_move(unexpected<G>&& u) { return O(std::move(u)); }
  static O op_unexpect_copy(const E& err) { return O(unexpect, err); }
  static O op_unexpect_move(E&& err) { return O(unexpect, std::move(err)); }
  static O op_unexpect_args(const G& a1, G&& a2) { return O(unexpect, a1, std::move(a2)); }
  static O op_unexpect_il(std::initializer_list<int> il, const G& a2) { return O(unexpect, il, a2); }
  static void op_dtor(O& self) { self.~O(); }
  static O& op_assign_copy(O& self, const O& other) { return self = other; }
  static O& op_assign_move(O& self, O&& other) { return self = std::move(other); }
  static O& op_assign_self(O& self) { return self = static_cast<const O&>(self); }
  static O& op_assign_unexp_copy(O& self, const unexpected<E>& u) { return self = u; }
  static O& op_assign_unexp_move(O& self, unexpected<E>&& u) { return self = std::move(u); }
  static O& op_assign_unexp_conv_copy(O& self, const unexpected<G>& u) { return self = u; }
  static O& op_assign_unexp_conv_move(O& self, unexpected<G>&& u) { return self = std::move(u); }
  static void op_emplace(O& self) { self.emplace(); }
  static bool op_has(const O& self) { return self.has_value(); }
  static bool op_bool(const O& self) { return static_cast<bool>(self); }
  static void op_value_cl(const O& self) { self.value(); }
  static void op_value_r(O&& self) { std::move(self).value(); }
  static E& op_error_l(O& self) { return self.error(); }
  static const E& op_error_cl(const O& self) { return self.error(); }
  static E&& op_error_r(O&& self) { return std::move(self).error(); }
  static const E&& op_error_cr(const O&& self) { return std::move(self).error(); }
  static E op_error_or_copy(const O& self, const E& err) { return self.error_or(err); }
  static E op_error_or_cmove(const O& self, E&& err) { return self.error_or(std::move(err)); }
  static E op_error_or_move(O&& self, E&& err) { return std::move(self).error_or(std::move(err)); }
  static void op_swap(O& self, O& rhs) { self.swap(rhs); }
  static void op_fswap(O& self, O& rhs) { swap(self, rhs); }
  using R = expected<xv, E>;
  using S = expected<void, xv>;
  using F0 = fun0<R>;
  using FV = fun0<xv>;
  using FE = fun<S, E>;
  using FX = fun<xv, E>;
  static R op_and_then_l(O& self, F0& f) { return self.and_then(f); }
  static R op_and_then_cl(const O& self, F0& f) { return self.and_then(f); }
  static R op_and_then_r(O&& self, F0& f) { return std::move(self).and_then(f); }
  static R op_and_then_cr(const O&& self, F0& f) { return std::move(self).and_then(f); }
  static R op_transform_l(O& self, FV& f) { return self.transform(f); }
  static R op_transform_cl(const O& self, FV& f) { return self.transform(f); }
  static R op_transform_r(O&& self, FV& f) { return std::move(self).transform(f); }
  static R op_transform_cr(const O&& self, FV& f) { return std::move(self).transform(f); }
  static S op_or_else_l(O& self, FE& f) { return self.or_else(f); }
  static S op_or_else_cl(const O& self, FE& f) { return self.or_else(f); }
  static S op_or_else_r(O&& self, FE& f) { return std::move(self).or_else(f); }
  static S op_or_else_cr(const O&& self, FE& f) { return std::move(self).or_else(f); }
  static S op_transform_error_l(O& self, FX& f) { return self.transform_error(f); }
  static S op_transform_error_cl(const O& self, FX& f) { return self.transform_error(f); }
  static S op_transform_error_r(O&& self, FX& f) { return std::move(self).transform_error(f); }
  static S op_transform_error_cr(const O&& self, FX& f) { return std::move(self).transform_error(f); }
};
template <class E>
struct exp_ref {
  using O = expected<tv&, E>;
  using G = src<1>;
  static O op_copy(const O& other) { return O(other); }
  static O op_move(O&& other) { return O(std::move(other)); }
  static O op_value_bind(tv& val) { return O(val); }
  static O op_inplace_bind(tv& val) { return O(std::in_place, val); }
  static O op_unexp_copy(const unexpected<E>& u) { return O(u); }
  static O op_unexp_move(unexpected<E>&& u) { return O(std::move(u)); }
  static O op_unexp_conv_copy(const unexpected<G>& u) { return O(u); }
  static O op_unexp_conv_move(unexpected<G>&& u) { return O(std::move(u)); }
  static O op_unexpect_copy(const E& err) { return O(unexpect, err); }
  static O op_unexpect_move(E&& err) { return O(unexpect, std::move(err)); }
  static O op_unexpect_args(const G& a1, G&& a2) { return O(unexpect, a1, std::move(a2)); }
  static void op_dtor(O& self) { self.~O(); }
  static O& op_assign_copy(O& self, const O& other) { return self = other; }
  static O& op_assign_move(O& self, O&& other) { return self = std::move(other); }
  static O& op_assign_self(O& self) { return self = static_cast<const O&>(self); }
  static O& op_assign_bind(O& self, tv& val) { return self = val; }
  static O& op_assign_unexp_copy(O& self, const unexpected<E>& u) { return self = u; }
  static O& op_assign_unexp_move(O& self, unexpected<E>&& u) { return self = std::move(u); }
  static O& op_assign_unexp_conv_copy(O& self, const unexpected<G>& u) { return self = u; }
  static O& op_assign_unexp_conv_move(O& self, unexpected<G>&& u) { return self = std::move(u); }
  static tv& op_emplace_bind(O& self, tv& val) { return self.emplace(val); }
  static bool op_has(const O& self) { return self.has_value(); }
  static bool op_bool(const O& self) { return static_cast<bool>(self); }
  static tv& op_star_l(const O& self) { return *self; }
  static tv* op_arrow(const O& self) { return self.operator->(); }
  static tv& op_value_l(const O& self) { return self.value(); }
  static E& op_error_l(O& self) { return self.error(); }
  static const E& op_error_cl(const O& self) { return self.error(); }
  static E&& op_error_r(O&& self) { return std::move(self).error(); }
  static const E&& op_error_cr(const O&& self) { return std::move(self).error(); }
  static tv op_value_or_copy(const O& self, const tv& val) { return self.value_or(val); }
  static E op_error_or_copy(const O& self, const E& err) { return self.error_or(err); }
  static E op_error_or_cmove(const O& self, E&& err) { return self.error_or(std::move(err)); }
  static E op_error_or_move(O&& self, E&& err) { return std::move(self).error_or(std::move(err)); }
  static void op_swap(O& self, O& rhs) { self.swap(rhs); }
  static void op_fswap(O& self, O& rhs) { swap(self, rhs); }
  using R = expected<xv, E>;
  using S = expected<tv&, xv>;
  using S2 = expected<tv, xv>;
  using FT = fun<R, tv>;
  using FV = fun<xv, tv>;
  using FE = fun<S, E>;
  using FX = fun<xv, E>;
  static R op_and_then_l(O& self, FT& f) { return self.and_then(f); }
  static R op_and_then_cl(const O& self, FT& f) { return self.and_then(f); }
  static R op_and_then_r(O&& self, FT& f) { return std::move(self).and_then(f); }
  static R op_and_then_cr(const O&& self, FT& f) { return std::move(self).and_then(f); }
  static R op_transform_l(O& self, FV& f) { return self.transform(f); }
  static R op_transform_cl(const O& self, FV& f) { return self.transform(f); }
  static R op_transform_r(O&& self, FV& f) { return std::move(self).transform(f); }
  static R op_transform_cr(const O&& self, FV& f) { return std::move(self).transform(f); }
  static S op_or_else_l(O& self, FE& f) { return self.or_else(f); }
  static S op_or_else_cl(const O& self, FE& f) { return self.or_else(f); }
  static S op_or_else_r(O&& self, FE& f) { return std::move(self).or_else(f); }
  static S op_or_else_cr(const O&& self, FE& f) { return std::move(self).or_else(f); }
  static S2 op_transform_error_l(O& self, FX& f) { return self.transform_error(f); }
  static S2 op_transform_error_cl(const O& self, FX& f) { return self.transform_error(f); }
  static S2 op_transform_error_r(O&& self, FX& f) { return std::move(self).transform_error(f); }
  static S2 op_transform_error_cr(const O&& self, FX& f) { return std::move(self).transform_error(f); }
};
template struct exp_ref<te>;
template struct exp_ref<ne>;

struct exp_cmp {
  using O = expected<int, int>;
  using P = expected<long, long>;
  static bool cmp_eq_oo(const O& self, const P& rhs) { return self == rhs; }
  static bool cmp_ne_oo(const O& self, const P& rhs) { return self != rhs; }
  static bool cmp_eq_ov(const O& self, const long& rhs) { return self == rhs; }
  static bool cmp_ne_ov(const O& self, const long& rhs) { return self != rhs; }
  static bool cmp_eq_ou(const O& self, const unexpected<long>& u) { return self == u; }
  static bool cmp_ne_ou(const O& self, const unexpected<long>& u) { return self != u; }
};

// ---------------------------------------------------------------- makers and observers
template <class T>
struct obs_opt {
  using O = optional<T>;
  static O mk_n() { return O(); }
  static O mk_v(const T& val) { return O(std::in_place, val); }
  static bool q_has(const O& self) { return self.has_value(); }
  static T& q_val(O& self) { return *self; }
};
template <class T>
struct obs_opt<T&> {
  using O = optional<T&>;
  static O mk_n() { return O(); }
  static O mk_v(T& val) { return O(val); }
  static bool q_has(const O& self) { return self.has_value(); }
  static T& q_val(O& self) { return *self; }
};
template <>
struct obs_opt<void> {
  using O = optional<void>;
  static O mk_n() { return O(); }
  static O mk_v() { return O(std::in_place); }
  static bool q_has(const O& self) { return self.has_value(); }
};
template <class T, class E>
struct obs_exp {
  using O = expected<T, E>;
  static O mk_v(const T& val) { return O(std::in_place, val); }
  static O mk_e(const E& err) { return O(unexpect, err); }
  static bool q_has(const O& self) { return self.has_value(); }
  static T& q_val(O& self) { return *self; }
  static E& q_err(O& self) { return self.error(); }
};
template <class T, class E>
struct obs_exp<T&, E> {
  using O = expected<T&, E>;
  static O mk_v(T& val) { return O(val); }
  static O mk_e(const E& err) { return O(unexpect, err); }
  static bool q_has(const O& self) { return self.has_value(); }
  static T& q_val(O& self) { return *self; }
  static E& q_err(O& self) { return self.error(); }
};
template <class E>
struct obs_exp<void, E> {
  using O = expected<void, E>;
  static O mk_v() { return O(std::in_place); }
  static O mk_e(const E& err) { return O(unexpect, err); }
  static bool q_has(const O& self) { return self.has_value(); }
  static E& q_err(O& self) { return self.error(); }
};
template <class E>
struct obs_unexp {
  using O = unexpected<E>;
  static O mk_u(const E& err) { return O(err); }
  static E& q_u(O& self) { return self.error(); }
};
#define OPT(...) template struct obs_opt<__VA_ARGS__>;
#define EXP(...) template struct obs_exp<__VA_ARGS__>;
OPT(tv) OPT(nv) OPT(int) OPT(long) OPT(src<0>) OPT(xv) OPT(tv&) OPT(const tv&)
EXP(tv, ne) EXP(xv, ne) EXP(tv, xv) EXP(nv, te) EXP(xv, te) EXP(nv, xv) EXP(nv, ne) EXP(tv, te)
EXP(fv, te) EXP(fv, ne) EXP(fv, xv) EXP(int, ne) EXP(int, xv) EXP(nv, int) EXP(xv, int)
EXP(int, int) EXP(long, long) EXP(src<0>, src<1>) EXP(tv&, te) EXP(tv&, ne) EXP(tv&, xv)
EXP(void, src<1>)
template struct obs_exp<void, te>;
template struct obs_exp<void, xv>;
template struct obs_unexp<te>;
template struct obs_unexp<ne>;
template struct obs_unexp<src<1>>;
template struct obs_unexp<int>;
template struct obs_unexp<short>;
template struct obs_unexp<long>;

// ---------------------------------------------------------------- unexpected<E>
struct unexp {
  using E = te;
  using O = unexpected<E>;
  static O op_unexp_copy(const O& u) { return O(u); }
  static O op_unexp_move(O&& u) { return O(std::move(u)); }
  static O op_unexpect_copy(const E& err) { return O(err); }
  static O op_unexpect_move(E&& err) { return O(std::move(err)); }
  static E& op_error_l(O& u) { return u.error(); }
  static const E& op_error_cl(const O& u) { return u.error(); }
  static E&& op_error_r(O&& u) { return std::move(u).error(); }
  static const E&& op_error_cr(const O&& u) { return std::move(u).error(); }
};
}
