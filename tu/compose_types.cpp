// type-level witnesses for the composition of routes and scopes (compiled, never run)
//
// With middlewares and handlers of distinct types that cannot be made from one another or from
// nothing, the type of a composed route says which of them it holds, and in which order.
#include <fitoria/web/any_routable.hpp>
#include <fitoria/web/route.hpp>
#include <fitoria/web/scope.hpp>

#include <memory>

using namespace fitoria;

struct req { };
struct res { };
struct seal { };
struct handler_type {
  explicit handler_type(seal);
  res operator()(req) const;
};
template <typename M, typename Next>
struct around {
  res operator()(req) const;
};
template <int I>
struct mw {
  explicit mw(seal);
  template <typename Next>
  friend around<mw, Next> tag_invoke(web::to_middleware_t<req, res>, mw, Next);
};

template <typename R>
inline constexpr std::size_t known_size = 0;
template <basic_fixed_string P, typename M, typename H>
inline constexpr std::size_t known_size<web::route_impl<P, M, H>> = std::string_view(P).size() + 1;
template <typename R>
inline constexpr std::string_view pattern = "?";
template <basic_fixed_string P, typename M, typename H>
inline constexpr std::string_view pattern<web::route_impl<P, M, H>> = P;

template <typename R>
using service = std::remove_cvref_t<decltype(std::declval<R>().template build<req, res>().service())>;
template <typename S, std::size_t I>
using nth = std::tuple_element_t<I, decltype(std::declval<S>().routes())>;
template <typename S>
inline constexpr std::size_t count = std::tuple_size_v<decltype(std::declval<S>().routes())>;

auto h() -> handler_type;
template <int I>
auto m() -> mw<I>;

using H = handler_type;
template <int I, typename N>
using A = around<mw<I>, N>;

using plain = decltype(web::route::get<"/r">(h()));
using used = decltype(web::route::get<"/r">(h()).use(m<1>()).use(m<2>()).use(m<3>()));
static_assert(std::is_same_v<service<plain>, H>, "route::build|a route without middlewares serves with its handler");
static_assert(std::is_same_v<service<used>, A<1, A<2, A<3, H>>>>, "route::use|middlewares run in the order they were added");
static_assert(pattern<plain> == "/r", "route::get|a route has its pattern");
static_assert(pattern<used> == "/r", "route::use|a route keeps its pattern");
static_assert(std::is_same_v<service<decltype(std::declval<used>().use_state(1))>, service<used>>,
              "route::use_state|a route keeps its middlewares");
static_assert(std::is_same_v<std::remove_cvref_t<decltype(std::declval<used>().template build<req, res>(m<9>()).service())>,
                             A<1, A<2, A<3, A<9, H>>>>>,
              "route::build|what the server adds runs next to the handler");

using s0 = decltype(web::scope());
using s1 = decltype(web::scope<"/s">().use(m<4>()).use(m<5>()));
using s2 = decltype(std::declval<s1>().serve(std::declval<used>()).serve(std::declval<plain>()));
static_assert(count<s0> == 0 && count<s1> == 0, "scope::use|a new scope serves nothing");
static_assert(count<s2> == 2, "scope::serve|a scope serves each of its routes");
static_assert(pattern<nth<s2, 0>> == "/s/r" && pattern<nth<s2, 1>> == "/s/r", "scope::serve|a scope's prefix precedes the pattern");
static_assert(std::is_same_v<service<nth<s2, 0>>, A<4, A<5, A<1, A<2, A<3, H>>>>>>,
              "scope::serve|a scope's middlewares run before the route's");
static_assert(std::is_same_v<service<nth<s2, 1>>, A<4, A<5, H>>>, "scope::serve|routes keep their own middlewares");
using s3 = decltype(std::declval<s2>().use(m<6>()));
static_assert(std::is_same_v<service<nth<s3, 1>>, A<4, A<5, H>>>, "scope::use|a route served earlier keeps its middlewares");
using s4 = decltype(web::scope<"/t">().use(m<7>()).serve(std::declval<plain>()).serve(std::declval<s2>()));
static_assert(count<s4> == 3, "scope::serve|a scope serves each route of a scope");
static_assert(pattern<nth<s4, 0>> == "/t/r" && pattern<nth<s4, 1>> == "/t/s/r" && pattern<nth<s4, 2>> == "/t/s/r",
              "scope::serve|the prefixes of all scopes precede the pattern, the outermost first");
static_assert(std::is_same_v<service<nth<s4, 1>>, A<7, A<4, A<5, A<1, A<2, A<3, H>>>>>>>,
              "scope::serve|the middlewares of all scopes run before the route's, the outermost first");
static_assert(std::is_same_v<service<nth<s4, 2>>, A<7, A<4, A<5, H>>>>, "scope::serve|every route of a scope is rebound");
using s5 = decltype(web::scope<"">().serve(std::declval<used>()));
static_assert(pattern<nth<s5, 0>> == "/r", "scope::serve|an empty prefix changes no pattern");
static_assert(std::is_same_v<decltype(std::declval<s4>().use_state(1).routes()), decltype(std::declval<s4>().routes())>,
              "scope::use_state|a scope keeps its routes");

static_assert(std::string_view(basic_fixed_string("")) == "", "basic_fixed_string|an empty text");
static_assert(std::string_view(basic_fixed_string("/ab\0c")) == std::string_view("/ab\0c", 5), "basic_fixed_string|a text");
static_assert(std::string_view(basic_fixed_string("/ab") + basic_fixed_string("/c")) == "/ab/c", "basic_fixed_string::operator+|joins");
static_assert(std::string_view(basic_fixed_string("") + basic_fixed_string("/c")) == "/c", "basic_fixed_string::operator+|joins");
static_assert(std::string_view(basic_fixed_string("/longer") + basic_fixed_string("")) == "/longer", "basic_fixed_string::operator+|joins");

// none of these may build: each line is reported when the compiler accepts it
#ifdef REFUSED
auto r1() { return web::route::get<"/{a">(h()); }                                      // refused
auto r2() { return web::route::post<"/a{b}">(h()); }                                   // refused
auto r3() { return web::route::put<"/{}">(h()); }                                      // refused
auto r4() { return web::route::patch<"/{a}/{a}">(h()); }                               // refused
auto r5() { return web::route::delete_<"/{a}b">(h()); }                                // refused
auto r6() { return web::route::head<"/ a">(h()); }                                     // refused
auto r7() { return web::route::options<"/%2">(h()); }                                  // refused
auto r8() { return web::route::any<"/#">(h()); }                                       // refused
auto r9() { return web::route::handle<"/#a/b">(http::verb::get, h()); }                // refused
auto r10() { return web::scope<"/#a">(); }                                             // refused
auto r11() { return web::scope<"/{a">(); }                                             // refused
auto r12() { return web::scope<"/{a}">().serve(web::route::get<"/b/{a}">(h())); }      // refused
auto r13() { return web::scope<"/a">().serve(web::route::get<"{b}">(h())); }           // refused
auto r14() { return web::scope<"/{a}">().serve(web::scope<"/b">().serve(web::route::get<"/{a}">(h()))); } // refused
auto r15() { return web::route::get<"/s">(h()).use_state(std::unique_ptr<int>()); }    // refused
auto r16() { return web::scope<"/s">().use_state(std::unique_ptr<int>()); }            // refused
auto a1() { return web::route::get<"/{a}/#b">(h()); }                                  // accepted
auto a2() { return web::scope<"/{a}">().serve(web::route::get<"/{b}">(h())); }         // accepted
auto a3() { return web::route::get<"/s">(h()).use_state(std::shared_ptr<int>()); }     // accepted
#endif
