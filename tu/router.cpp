// drives the router and the path matcher (parsed only, never run)
#include <fitoria/web/path_matcher.hpp>
#include <fitoria/web/router.hpp>

using namespace fitoria;

using R = web::router<int, int>;

void drive_router(R& r, R::route_type t, const R& c, http::verb v, std::string_view p)
{
  (void)r.try_insert(std::move(t));
  (void)c.try_find(v, p);
  r.optimize();
}
void drive_node(R::node& r, R::route_type t, const R::node& c, http::verb v, std::string_view p)
{
  (void)r.try_insert(std::move(t));
  (void)c.try_find(v, p);
  r.optimize();
}
void drive_matcher(const web::path_matcher& m, const std::string& s)
{
  web::path_matcher n("/");
  m.match(s);
  m.pattern();
  m.tokens();
}
