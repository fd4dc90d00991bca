// System headers only: precompiled once in setup (nothing from /repo).
#pragma once
#include <fitoria_boost_compat.hpp>
#include <boost/asio.hpp>
#include <boost/beast.hpp>
#include <boost/asio/ssl.hpp>
#include <boost/asio/experimental/awaitable_operators.hpp>
#include <boost/asio/experimental/concurrent_channel.hpp>
#include <boost/beast/_experimental/test/stream.hpp>
#include <boost/json.hpp>
#include <boost/url.hpp>
#include <boost/pfr.hpp>
#include <fmt/format.h>
#include <fmt/chrono.h>
#include <bits/stdc++.h>
#include <zlib.h>
#include <brotli/decode.h>
#include <brotli/encode.h>
