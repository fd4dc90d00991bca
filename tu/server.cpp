// drives the server's sessions and what it is built with (parsed only, never run)
#include <fitoria/web/http_server.hpp>

using namespace fitoria;

namespace drive {
struct thrown_to {
  void operator()(std::exception_ptr) const;
};
using server = web::http_server;

void sessions(const server& s, net::ssl::context& c)
{
  (void)s.bind("", 0);
  (void)s.bind("", 0, c);
  (void)s.bind_local("");
  (void)s.bind_local("", c);
}

void build(server::builder& b, thrown_to t)
{
  b.set_max_listen_connections(1);
  b.set_tls_handshake_timeout(nullopt);
  b.set_request_timeout(nullopt);
  b.set_request_header_limit(nullopt);
  b.set_request_body_limit(nullopt);
  b.set_exception_handler(t);
  std::move(b).set_max_listen_connections(1);
  std::move(b).set_tls_handshake_timeout(nullopt);
  std::move(b).set_request_timeout(nullopt);
  std::move(b).set_request_header_limit(nullopt);
  std::move(b).set_request_body_limit(nullopt);
  std::move(b).set_exception_handler(t);
  (void)b.build();
}

void get(const server& s)
{
  (void)s.max_listen_connections();
  (void)s.tls_handshake_timeout();
  (void)s.request_timeout();
  (void)s.request_header_limit();
  (void)s.request_body_limit();
}
}

// constants by name
auto k_header_limit() { return boost::beast::http::error::header_limit; }
auto k_eof() { return net::error::eof; }
auto k_timed_out() { return net::error::timed_out; }
auto k_expect() { return http::field::expect; }
auto k_c1() { return http::status_class::informational; }
auto k_c2() { return http::status_class::successful; }
auto k_c3() { return http::status_class::redirection; }
auto k_c4() { return http::status_class::client_error; }
auto k_c5() { return http::status_class::server_error; }
