// drives the byte streams: buffers, readers and writers (parsed only, never run)
#include <fitoria/core/dynamic_buffer.hpp>
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/any_body.hpp>
#include <fitoria/web/async_message_parser_stream.hpp>
#include <fitoria/web/async_read_into_stream_file.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/async_readable_file_stream.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>
#include <fitoria/web/async_write_chunks.hpp>

using namespace fitoria;

namespace streams {
struct source {
  using is_async_readable_stream = void;
  auto
  async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>;
};
}
using namespace streams;

using buffer = dynamic_buffer<bytes>;

void drive_buffer(buffer& b, const buffer& c, std::size_t n, bytes v)
{
  buffer one;
  buffer two(n);
  buffer three(std::move(v));
  b.prepare(n);
  b.commit(n);
  b.consume(n);
  b.data();
  c.data();
  c.cdata();
  c.size();
  c.max_size();
  c.capacity();
  b.release();
}

auto drive_read(source& s) -> awaitable<expected<bytes, std::error_code>>
{
  co_return co_await web::async_read_until_eof<bytes>(s);
}

auto drive_into_file(source& s, stream_file& f)
    -> awaitable<expected<std::size_t, std::error_code>>
{
  co_return co_await web::async_read_into_stream_file(s, f);
}

auto drive_chunks(net::ip::tcp::socket& to, source& s)
    -> awaitable<expected<void, std::error_code>>
{
  co_return co_await web::async_write_chunks(to, s);
}

void drive_vector(bytes b, std::span<const char> s, web::async_readable_vector_stream& v)
{
  web::async_readable_vector_stream one;
  web::async_readable_vector_stream two(std::move(b));
  web::async_readable_vector_stream three(s);
  (void)v.async_read_some();
}

void drive_file(stream_file f, stream_file g, std::uint64_t n, optional<std::uint64_t> o,
                web::async_readable_file_stream& v)
{
  web::async_readable_file_stream one(std::move(f));
  web::async_readable_file_stream two(std::move(g), n, o);
  (void)v.async_read_some();
}

void drive_any(source s, web::any_body& b, const web::any_body& c)
{
  web::any_async_readable_stream a(std::move(s));
  web::any_body none;
  web::any_body some(web::any_body::chunked {}, std::move(a));
  (void)b.size();
  (void)b.stream();
  (void)c.stream();
  (void)b.stream().async_read_some();
}

using parser = boost::beast::http::request_parser<boost::beast::http::buffer_body>;
void drive_parser(std::shared_ptr<net::ip::tcp::socket> s, std::shared_ptr<boost::beast::flat_buffer> b,
                  std::shared_ptr<parser> p)
{
  web::async_message_parser_stream<net::ip::tcp::socket, parser> m(b, std::move(*s), p);
  (void)m.async_read_some();
}

auto e_eof() { return net::error::eof; }
auto e_need_buffer() { return boost::beast::http::error::need_buffer; }
