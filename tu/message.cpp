// drives the building of requests and responses (parsed only, never run)
#include <fitoria/web/request.hpp>
#include <fitoria/web/response.hpp>

using namespace fitoria;
using namespace fitoria::web;

namespace drive {
struct source {
  using is_async_readable_stream = void;
  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>;
};
struct state { };
struct object { };
void tag_invoke(const boost::json::value_from_tag&, boost::json::value&, const object&);

template <typename B>
void build(B& b, std::string_view s, http::field f, std::span<const std::byte> d, std::span<const std::byte, 4> d4, source src,
           const boost::json::value& jv, const object& o, std::string str)
{
  b.set_header(s, s).set_header(f, s).insert_header(s, s).insert_header(f, s);
  std::move(b).set_header(s, s).set_header(f, s).insert_header(s, s).insert_header(f, s);
  (void)b.set_body();
  (void)b.set_body(d);
  (void)b.set_body(d4);
  (void)b.set_body(s);
  (void)b.set_body(src);
  (void)b.set_body(std::move(src));
  (void)b.set_json(jv);
  (void)b.set_json(o);
  (void)b.build();
}

void response_of(response_builder& b, http::status_code c, http::version v, source src)
{
  build(b, "", http::field::host, {}, std::span<const std::byte, 4>(static_cast<const std::byte*>(nullptr), 4), src, {}, {}, "");
  b.set_status(c).set_version(v);
  std::move(b).set_status(c).set_version(v);
  (void)b.set_stream_body(src);
  (void)b.set_stream_body(std::move(src));
}

void request_of(request_builder& b, http::verb m, source src)
{
  build(b, "", http::field::host, {}, std::span<const std::byte, 4>(static_cast<const std::byte*>(nullptr), 4), src, {}, {}, "");
  b.set_method(m).set_query("", "");
  std::move(b).set_method(m).set_query("", "");
  (void)b.headers();
  (void)b.query();
}

void look(request& r, const request& c, response& s, const response& d)
{
  (void)r.connection(), (void)r.path(), (void)r.method(), (void)r.version(), (void)r.query(), (void)r.headers(), (void)r.body(), (void)c.body();
  (void)r.state<state>();
  (void)r.builder();
  (void)s.status(), (void)s.version(), (void)s.headers(), (void)s.body(), (void)d.body();
  (void)s.builder();
  (void)response();
}
auto k_content_type() { return http::field::content_type; }
auto k_v1_1() { return http::version::v1_1; }
#define STATUS(n) auto s_##n() { return http::status::n; }
STATUS(continue_)
STATUS(switching_protocols)
STATUS(processing)
STATUS(early_hints)
STATUS(ok)
STATUS(created)
STATUS(accepted)
STATUS(non_authoritative_information)
STATUS(no_content)
STATUS(reset_content)
STATUS(partial_content)
STATUS(multi_status)
STATUS(already_reported)
STATUS(im_used)
STATUS(multiple_choices)
STATUS(moved_permanently)
STATUS(found)
STATUS(see_other)
STATUS(not_modified)
STATUS(use_proxy)
STATUS(temporary_redirect)
STATUS(permanent_redirect)
STATUS(bad_request)
STATUS(unauthorized)
STATUS(payment_required)
STATUS(forbidden)
STATUS(not_found)
STATUS(method_not_allowed)
STATUS(not_acceptable)
STATUS(proxy_authentication_required)
STATUS(request_timeout)
STATUS(conflict)
STATUS(gone)
STATUS(length_required)
STATUS(precondition_failed)
STATUS(payload_too_large)
STATUS(uri_too_long)
STATUS(unsupported_media_type)
STATUS(range_not_satisfiable)
STATUS(expectation_failed)
STATUS(misdirected_request)
STATUS(unprocessable_entity)
STATUS(locked)
STATUS(failed_dependency)
STATUS(too_early)
STATUS(upgrade_required)
STATUS(precondition_required)
STATUS(too_many_requests)
STATUS(request_header_fields_too_large)
STATUS(unavailable_for_legal_reasons)
STATUS(internal_server_error)
STATUS(not_implemented)
STATUS(bad_gateway)
STATUS(service_unavailable)
STATUS(gateway_timeout)
STATUS(http_version_not_supported)
STATUS(variant_also_negotiates)
STATUS(insufficient_storage)
STATUS(loop_detected)
STATUS(not_extended)
STATUS(network_authentication_required)
#undef STATUS
}
