// drives static files (parsed only, never run)
#include <fitoria/web/static_file.hpp>

using namespace fitoria;
using namespace fitoria::web;

namespace drive {
auto open(const executor_type& ex, const std::string& path, const request& r) { return static_file::open(ex, path, r); }
auto open_only(const executor_type& ex, const std::string& path) { return static_file::open(ex, path); }
auto answer(static_file f) { return to_response(std::move(f)); }
void read(response s)
{
  (void)s.status(), (void)s.version(), (void)s.headers(), (void)s.body();
}
auto k_if_none_match() { return http::field::if_none_match; }
auto k_if_modified_since() { return http::field::if_modified_since; }
auto k_range() { return http::field::range; }
}
namespace drive {
auto k_content_range() { return http::field::content_range; }
auto k_etag() { return http::field::etag; }
auto k_last_modified() { return http::field::last_modified; }
auto k_content_type() { return http::field::content_type; }
}
