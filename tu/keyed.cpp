// drives the keyed containers (parsed only, never run)
#include <fitoria/http/header_map.hpp>
#include <fitoria/mime.hpp>
#include <fitoria/web/path_info.hpp>
#include <fitoria/web/query_map.hpp>

using namespace fitoria;

void drive_params(mime::params_view m, const mime::params_view& c, mime::name_view k, mime::name_view v)
{
  m.get(k);
  c.get(k);
  m.set(k, v);
  m.at(k);
  c.at(k);
  m[k];
  m.erase(k);
  c.contains(k);
  c.empty();
  c.size();
  m.clear();
  (void)(c == m);
}
void drive_query(web::query_map m, const web::query_map& c, const std::string& k, std::string v, boost::urls::params_view u)
{
  m.get(k);
  c.get(k);
  m.set(k, v);
  m.at(k);
  c.at(k);
  m[k];
  m.erase(k);
  c.contains(k);
  c.empty();
  c.size();
  m.clear();
  c.to_string();
  web::query_map::from(u);
  (void)(c == m);
}
void drive_path(const web::path_info& c, const std::string& k, std::size_t i)
{
  c.get(k);
  c.get(i);
  c.at(k);
  c.at(i);
  c.find(k);
  c.find(i);
  c.contains(k);
  c.keys();
  c.empty();
  c.size();
  c.match_pattern();
  c.match_path();
  web::path_info(k, k, { { k, k } });
  web::path_info(k, k, std::vector<std::pair<std::string, std::string>>());
  auto it = c.begin();
  (void)*it;
  it->first;
  ++it;
  it++;
  --it;
  it--;
  (void)(it == c.end());
}
void drive_headers(http::header_map m, const http::header_map& c, std::string_view k, http::field f, std::string_view v,
                   boost::beast::http::fields& b)
{
  m.get(k);
  m.get(f);
  m.set(k, v);
  m.set(f, v);
  m.insert(k, v);
  m.insert(f, v);
  m.erase(k);
  m.erase(f);
  c.contains(k);
  c.contains(f);
  c.equal_range(k);
  c.equal_range(f);
  c.empty();
  c.size();
  m.clear();
  http::header_map::from_impl(b);
  c.to_impl(b);
}
