// drives the calling of handlers: what they are given and what their answers become (parsed only, never run)
#include <fitoria/web/form_of.hpp>
#include <fitoria/web/from_request.hpp>
#include <fitoria/web/handler.hpp>
#include <fitoria/web/json_of.hpp>
#include <fitoria/web/path_of.hpp>
#include <fitoria/web/query_of.hpp>
#include <fitoria/web/state_of.hpp>
#include <fitoria/web/to_response.hpp>
#include <fitoria/web/middleware/exception_handler.hpp>

using namespace fitoria;
using namespace fitoria::web;

namespace drive {
template <int I>
struct asked {
  friend auto tag_invoke(from_request_t<asked<I>>, request& req) -> awaitable<expected<asked<I>, response>>;
};
struct answer {
  friend auto tag_invoke(to_response_t, answer a) -> response;
};
struct refusal {
  friend auto tag_invoke(to_response_t, refusal a) -> response;
};
struct state { };
struct pair_of {
  std::string first;
  int second;
};

struct object {
  friend auto tag_invoke(boost::json::value_to_tag<object>, const boost::json::value&) -> object;
};

struct none {
  auto operator()() const -> awaitable<answer>;
};
struct one {
  auto operator()(asked<1> a) const -> awaitable<answer>;
};
struct three {
  auto operator()(asked<1> a, asked<2> b, asked<3> c) const -> awaitable<answer>;
};
struct given {
  auto operator()(request& r) const -> awaitable<response>;
};
struct all_given {
  auto operator()(request& r, const connect_info&, const path_info&, const query_map&, const http::header_map&, http::version, std::string,
                  std::vector<std::byte>) const -> awaitable<response>;
};
struct next {
  auto operator()(request& r) const -> awaitable<response>;
};

using tag = to_middleware_t<request&, awaitable<response>>;
auto make_none() { return tag_invoke(tag {}, handler {}, none {}); }
auto make_one() { return tag_invoke(tag {}, handler {}, one {}); }
auto make_three() { return tag_invoke(tag {}, handler {}, three {}); }
auto make_guard() { return tag_invoke(tag {}, middleware::exception_handler {}, next {}); }

void call(request& r)
{
  (void)make_none()(r);
  (void)make_one()(r);
  (void)make_three()(r);
  (void)make_guard()(r);
}

void take(request& r)
{
  (void)from_request<request&>(r);
  (void)from_request<const request&>(r);
  (void)from_request<const connect_info&>(r);
  (void)from_request<const path_info&>(r);
  (void)from_request<const query_map&>(r);
  (void)from_request<const http::header_map&>(r);
  (void)from_request<http::version>(r);
  (void)from_request<std::string>(r);
  (void)from_request<std::vector<std::byte>>(r);
  (void)from_request<path_of<std::tuple<int>>>(r);
  (void)from_request<path_of<std::tuple<std::string, int>>>(r);
  (void)from_request<path_of<pair_of>>(r);
  (void)from_request<query_of<pair_of>>(r);
  (void)from_request<form_of<pair_of>>(r);
  (void)from_request<json_of<object>>(r);
  (void)from_request<state_of<state>>(r);
}

void answer_of(response r, std::string s, std::vector<std::byte> v, std::variant<answer, refusal> a, expected<answer, refusal> x)
{
  (void)to_response(r);
  (void)to_response(s);
  (void)to_response(v);
  (void)to_response(a);
  (void)to_response(x);
  (void)r.status(), (void)r.version(), (void)r.headers(), (void)r.body();
}
auto k_ok() { return http::status::ok; }
auto k_bad_request() { return http::status::bad_request; }
auto k_error() { return http::status::internal_server_error; }
auto k_content_type() { return http::field::content_type; }
}
