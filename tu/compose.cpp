// drives the composition of scopes and routes (parsed only, never run)
#include <fitoria/web/any_routable.hpp>
#include <fitoria/web/route.hpp>
#include <fitoria/web/scope.hpp>

using namespace fitoria;

namespace compose {
struct req { };
struct res { };
struct state { };
struct state2 { };
struct handle {
  int n;
  res operator()(req) const;
};
template <typename M, typename Next>
struct wrapped {
  M m;
  Next next;
  res operator()(req) const;
};
template <int I>
struct mw {
  int n;
  template <typename Next>
  friend auto tag_invoke(web::to_middleware_t<req, res>, mw m, Next next)
  {
    return wrapped<mw, Next> { m, next };
  }
};
}
using namespace compose;

using leaf = web::route_impl<"/a", std::tuple<>, handle>;
using one = web::route_impl<"/b/{c}", std::tuple<mw<1>>, handle>;
using two = web::route_impl<"/b/{c}", std::tuple<mw<1>, mw<2>>, handle>;
using none = web::route_impl<"", std::tuple<>, handle>;

void drive_make(handle h, http::verb v)
{
  web::route::handle<"/a">(v, h);
  web::route::any<"/a">(h);
  web::route::get<"/a">(h);
  web::route::post<"/a">(h);
  web::route::put<"/a">(h);
  web::route::patch<"/a">(h);
  web::route::delete_<"/a">(h);
  web::route::head<"/a">(h);
  web::route::options<"/a">(h);
}
auto verb_get() { return http::verb::get; }
auto verb_post() { return http::verb::post; }
auto verb_put() { return http::verb::put; }
auto verb_patch() { return http::verb::patch; }
auto verb_delete_() { return http::verb::delete_; }
auto verb_head() { return http::verb::head; }
auto verb_options() { return http::verb::options; }
auto verb_any() { return http::verb::unknown; }

template <typename R>
void drive_route(R r, state s, web::shared_state_map m)
{
  r.use_state(s);
  r.use(mw<7> {});
  mw<8> m8 {};
  r.use(m8);
  r.template rebind_parent<"">(m, std::tuple<> {});
  r.template rebind_parent<"/p">(m, std::tuple<mw<3>> {});
  r.template rebind_parent<"/p/q">(m, std::tuple<mw<3>, mw<4>> {});
  r.template build<req, res>();
  r.template build<req, res>(mw<9> {});
  auto b = r.template build<req, res>();
  b.method();
  b.matcher();
  b.states();
  b.service();
  web::any_routable<req, res> a(b);
  a.method();
  a.matcher();
  a.states();
  a(req {});
}
void drive_routes(leaf a, one b, two c, none d, state s, web::shared_state_map m)
{
  drive_route(a, s, m);
  drive_route(b, s, m);
  drive_route(c, s, m);
  drive_route(d, s, m);
}

template <typename S>
void drive_scope(S c, state s, leaf l, two t)
{
  c.use_state(s);
  c.use(mw<7> {});
  mw<8> m8 {};
  c.use(m8);
  c.serve(l);
  c.serve(t);
  auto inner = web::scope<"/i">().use(mw<5> {}).serve(l).serve(t);
  c.serve(inner);
  c.serve(web::scope<"/e">());
  c.routes();
}
void drive_scopes(state s, leaf l, two t)
{
  drive_scope(web::scope<"">(), s, l, t);
  drive_scope(web::scope<"/s">().use(mw<6> {}), s, l, t);
  drive_scope(web::scope<"/s">().use(mw<6> {}).serve(l), s, l, t);
}
