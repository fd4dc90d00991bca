// drives the middlewares around a handler (parsed only, never run)
#include <fitoria/web/middleware/decompress.hpp>
#include <fitoria/web/middleware/logger.hpp>

using namespace fitoria;
using namespace fitoria::web;

namespace drive {
struct next {
  auto operator()(request& r) const -> awaitable<response>;
};

using tag = to_middleware_t<request&, awaitable<response>>;
auto make_decompress() { return tag_invoke(tag {}, middleware::decompress {}, next {}); }
auto make_logger() { return tag_invoke(tag {}, middleware::logger {}, next {}); }

void call(request& r)
{
  (void)make_decompress()(r);
  (void)make_logger()(r);
}

void read(request& r, response s)
{
  const auto& c = r;
  (void)r.connection(), (void)r.path(), (void)r.method(), (void)r.version(), (void)r.headers(), (void)r.query(), (void)r.body(), (void)r.state<int>();
  (void)c.connection(), (void)c.path(), (void)c.method(), (void)c.version(), (void)c.headers(), (void)c.query(), (void)c.body();
  (void)s.status(), (void)s.version(), (void)s.headers(), (void)s.body();
}
auto k_bad_request() { return http::status::bad_request; }
auto k_content_encoding() { return http::field::content_encoding; }
auto k_content_type() { return http::field::content_type; }
}
