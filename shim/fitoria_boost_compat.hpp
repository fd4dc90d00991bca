// Pre-included: boost::pfr::get_name<I, T>() (Boost 1.84+), enough to type-check and run.
#pragma once
#include <boost/pfr.hpp>
#include <cstddef>
#include <string_view>
#include <utility>
namespace boost::pfr {
namespace fitoria_compat {
template <class T> struct holder { T value; };
template <class T> extern const holder<T> fake;
template <auto Ptr> constexpr std::string_view field_name() noexcept
{
  std::string_view s = __PRETTY_FUNCTION__;
  auto e = s.rfind(')');
  auto b = s.find_last_of(":.", e) + 1;
  return s.substr(b, s.find_first_of(")]};", b) - b);
}
}
template <std::size_t I, class T> constexpr std::string_view get_name() noexcept
{
  return fitoria_compat::field_name<&boost::pfr::detail::sequence_tuple::get<I>(
      boost::pfr::detail::tie_as_tuple(const_cast<T&>(fitoria_compat::fake<T>.value)))>();
}
}

// Boost 1.83's asio::async_read() takes any type as a completion condition and so beats
// beast::http::async_read() (which needs a derived-to-base conversion); later releases
// constrain it. An exact match restores the overload they choose.
#include <boost/beast/http/parser.hpp>
#include <boost/beast/http/read.hpp>
namespace boost::beast::http {
template <class S, class D, bool R, class B, class A, class H>
auto async_read(S& stream, D& buffer, parser<R, B, A>& p, H&& handler)
{
  return async_read(stream, buffer, static_cast<basic_parser<R>&>(p),
                    std::forward<H>(handler));
}
}
