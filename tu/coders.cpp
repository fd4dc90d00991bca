// drives the compressing and decompressing streams (parsed only, never run)
#include <fitoria/core/dynamic_buffer.hpp>
#include <fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_inflate_stream.hpp>

using namespace fitoria;

namespace streams {
struct source {
  using is_async_readable_stream = void;
  auto
  async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>;
};
}
using namespace streams;

template <template <typename> typename S>
void drive_coder(S<source>& s, source n)
{
  S<source> t(std::move(n));
  (void)s.async_read_some();
}
namespace md = web::middleware::detail;
template void drive_coder<md::async_deflate_stream>(md::async_deflate_stream<source>&, source);
template void drive_coder<md::async_inflate_stream>(md::async_inflate_stream<source>&, source);
template void drive_coder<md::async_gzip_deflate_stream>(md::async_gzip_deflate_stream<source>&, source);
template void drive_coder<md::async_gzip_inflate_stream>(md::async_gzip_inflate_stream<source>&, source);
template void drive_coder<md::async_brotli_deflate_stream>(md::async_brotli_deflate_stream<source>&, source);
template void drive_coder<md::async_brotli_inflate_stream>(md::async_brotli_inflate_stream<source>&, source);

void drive_native(md::gzip_inflate_stream& a, md::gzip_inflate_stream b, md::gzip_deflate_stream& c,
                  md::gzip_deflate_stream d, md::brotli_encoder& e, md::brotli_encoder f,
                  md::brotli_decoder& g, md::brotli_decoder h)
{
  a = std::move(b);
  c = std::move(d);
  e = std::move(f);
  g = std::move(h);
}


auto k_end_of_stream() { return boost::beast::zlib::error::end_of_stream; }
auto k_need_buffers() { return boost::beast::zlib::error::need_buffers; }
auto k_finish() { return boost::beast::zlib::Flush::finish; }
auto k_block() { return boost::beast::zlib::Flush::block; }
auto k_trees() { return boost::beast::zlib::Flush::trees; }
int k_Z_OK() { return Z_OK; }
int k_Z_STREAM_END() { return Z_STREAM_END; }
int k_Z_NEED_DICT() { return Z_NEED_DICT; }
int k_Z_DATA_ERROR() { return Z_DATA_ERROR; }
int k_Z_BUF_ERROR() { return Z_BUF_ERROR; }
int k_Z_FINISH() { return Z_FINISH; }
int k_Z_BLOCK() { return Z_BLOCK; }
int k_Z_TREES() { return Z_TREES; }
auto k_B_PROCESS() { return BROTLI_OPERATION_PROCESS; }
auto k_B_FLUSH() { return BROTLI_OPERATION_FLUSH; }
auto k_B_FINISH() { return BROTLI_OPERATION_FINISH; }
auto k_B_ERROR() { return BROTLI_DECODER_RESULT_ERROR; }
auto k_B_SUCCESS() { return BROTLI_DECODER_RESULT_SUCCESS; }
auto k_B_MORE_INPUT() { return BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT; }
auto k_B_MORE_OUTPUT() { return BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT; }
