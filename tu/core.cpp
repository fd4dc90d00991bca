// Instantiation driver: names the Boost-free public API so that every template body is
// type-checked and visible to the analyses. Never linked, never run.
#include <fitoria/core/chrono.hpp>
#include <fitoria/core/expected.hpp>
#include <fitoria/core/fixed_string.hpp>
#include <fitoria/core/from_string.hpp>
#include <fitoria/core/optional.hpp>
#include <fitoria/core/strings.hpp>
#include <fitoria/core/utility.hpp>
#include <fitoria/encoding.hpp>
#include <fitoria/http/header.hpp>
#include <fitoria/http/version.hpp>
#include <fitoria/log/filter.hpp>
#include <fitoria/log/formatter.hpp>
#include <fitoria/log/level.hpp>
#include <fitoria/log/record.hpp>
#include <fitoria/mime.hpp>
#include <fitoria/web/error.hpp>
#include <fitoria/web/middleware/detail/brotli_error.hpp>
#include <fitoria/web/middleware/detail/brotli_params.hpp>
#include <fitoria/web/path_parser.hpp>
#include <fitoria/web/state_storage.hpp>

using namespace fitoria;
namespace drive {

template <typename Codec, typename B>
void base64_enc(Codec& c, const B* f, const B* l, char* o)
{
  c.encode_next(f, l, o);
  c.encode_next(*f, o);
  c.encode_rest(o);
  c.encode(f, l, o);
}
template <typename Codec, typename B>
void base64_dec(Codec& c, const B* f, const B* l, unsigned char* o)
{
  c.decode_next(f, l, o);
  c.decode_next(*f, o);
  c.decode(f, l, o);
  c.is_error();
  c.is_done();
}
template <typename B>
void base64(const B* f, const B* l, char* o, unsigned char* u)
{
  encoding::base64::standard_encoder se(encoding::base64::padding::no);
  encoding::base64::url_encoder ue;
  encoding::base64::standard_encoder sed;
  encoding::base64::url_encoder ued(encoding::base64::padding::no);
  encoding::base64::standard_decoder sd;
  encoding::base64::url_decoder ud;
  base64_enc(se, f, l, o);
  base64_enc(ue, f, l, o);
  base64_dec(sd, f, l, u);
  base64_dec(ud, f, l, u);
}
template void base64<char>(const char*, const char*, char*, unsigned char*);
template void base64<unsigned char>(const unsigned char*, const unsigned char*, char*,
                                    unsigned char*);
template void base64<signed char>(const signed char*, const signed char*, char*,
                                  unsigned char*);
template void base64<std::byte>(const std::byte*, const std::byte*, char*, unsigned char*);

bool odd_char(char c)
{
  return (static_cast<unsigned char>(c) & 1) != 0;
}
void strings(std::string_view a, std::string_view b)
{
  cmp_eq_ci(a, b);
  cmp_tw_ci(a, b);
  trim(a);
  trim(a, is_space);
  ltrim(a, odd_char);
  rtrim(a, odd_char);
  ltrim(a);
  rtrim(b);
  split_of(a, b);
  from_string<bool>(a);
  from_string<std::string>(a);
  from_string<std::string_view>(a);
  from_string<char>(a);
  from_string<signed char>(a);
  from_string<unsigned char>(a);
  from_string<short>(a);
  from_string<unsigned short>(a);
  from_string<int>(a);
  from_string<unsigned>(a);
  from_string<long>(a);
  from_string<unsigned long>(a);
  from_string<long long>(a);
  from_string<unsigned long long>(a);
  from_string<float>(a);
  from_string<double>(a);
  from_string<long double>(a);
}
void paths(std::string_view p)
{
  web::path_parser<true> t;
  t.parse(p);
  t.get();
  web::path_parser<false> f;
  f.parse(p);
  f.get();
  static_assert(web::path_parser<true>().parse<"/a">());
  static_assert(web::path_parser<false>().parse<"/a">());
}
void headers(std::string_view s, const http::header::entity_tag& e, http::header::date d)
{
  http::header::range::parse(s, 1);
  http::header::entity_tag::parse(s);
  http::header::if_none_match::parse(s);
  e.weakly_equal_to(e);
  (void)(e == e);
  d.to_string();
  (void)(d <=> d);
  (void)(d == d);
}
void mimes(std::string_view s)
{
  mime::mime_view::parse(s);
  mime::mime_view::from_path(s);
  mime::mime_view::from_extension(s);
}
void states(web::state_storage s, web::shared_state_map m)
{
  s.copy_prepend(m);
  s.copy_append(m);
  s.copy_insert_front(typeid(int), 1);
  s.state<int>();
}
void logs(log::filter f, log::level l, log::record_ptr r, log::newline_style n, log::file_name_style fs,
          log::level_style_formatter ls, std::chrono::system_clock::time_point t, source_location loc)
{
  f.is_allowed(l);
  log::formatter().format(r);
  log::formatter::builder()
      .set_pattern("{MSG}")
      .set_newline_style(n)
      .set_file_name_style(fs)
      .set_level_style(ls)
      .set_color_level_style()
      .build();
  log::record(t, loc, l, "");
}
void codes(unsigned n, http::version v, std::chrono::time_point<chrono::utc_clock> t,
           std::chrono::time_point<std::chrono::file_clock> ft)
{
  http::to_string(v);
  http::detail::from_impl_version(n);
  http::detail::to_impl_version(v);
  (void)make_error_code(web::middleware::detail::brotli_error::init);
  auto d = http::header::date(t);
  d = http::header::date(ft);
  d.utc_time();
  d.file_time();
  d.to_string();
}
template <typename T>
void fmts(T v, fmt::format_parse_context& p, fmt::format_context& c)
{
  auto f = fmt::formatter<T, char>();
  f.parse(p);
  f.format(v, c);
}
template void fmts<http::version>(http::version, fmt::format_parse_context&, fmt::format_context&);
template void fmts<log::level>(log::level, fmt::format_parse_context&, fmt::format_context&);
template void fmts<mime::name_view>(mime::name_view, fmt::format_parse_context&, fmt::format_context&);
template void fmts<mime::mime_view>(mime::mime_view, fmt::format_parse_context&, fmt::format_context&);
template void fmts<optional<std::string>>(optional<std::string>, fmt::format_parse_context&, fmt::format_context&);
template void fmts<expected<std::string, int>>(expected<std::string, int>, fmt::format_parse_context&,
                                               fmt::format_context&);
void misc()
{
  to_underlying(log::level::info);
  (void)make_error_code(web::error::route_already_exists);
}
} // namespace drive
