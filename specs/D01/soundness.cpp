// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-opt: authority enforce=["_ZN7asioext6detail15parse_authorityEPKcS2_bRNS0_10parsed_urlERSt10error_code"]
#include "vf.hpp"
#include "asioext/url_view.hpp"
#include "asioext/error.hpp"
#include <string_view>
using asioext::url_view;
using asioext::detail::parsed_url;
typedef std::string_view sv;

// character classes of RFC 3986 / RFC 6874 as the parser documents them
static bool alpha(uint8_t c) { return uint8_t(uint8_t(c | 32) - 'a') < 26; }
static bool digit(uint8_t c) { return uint8_t(c - '0') < 10; }
static bool mark(uint8_t c) { return (c == '-') | (c == '_') | (c == '.') | (c == '!') | (c == '~') | (c == '*') | (c == '\'') | (c == '(') | (c == ')'); }
static bool scheme_ch(uint8_t c) { return alpha(c) | digit(c) | (c == '+') | (c == '-') | (c == '.'); }
static bool user_ch(uint8_t c) { return alpha(c) | digit(c) | mark(c) | (c == '%') | (c == ';') | (c == ':') | (c == '&') | (c == '=') | (c == '+') | (c == '$') | (c == ','); }
static bool host_ch(uint8_t c) { return alpha(c) | digit(c) | (c == '.') | (c == '-') | (c == '_'); }
static bool literal_ch(uint8_t c) { return host_ch(c) | (c == ':') | (c == '%') | (c == '~') | (c == '[') | (c == ']'); }
static bool path_ch(uint8_t c) { return (c == 9) | (c == 12) | ((c > 32) & (c < 127) & (c != '#') & (c != '?')); }
static bool query_ch(uint8_t c) { return path_ch(c) | (c == '?'); }
static bool fragment_ch(uint8_t c) { return query_ch(c) | (c == '#'); }

static uint8_t *in; static std::size_t n, k; static uint8_t b;
static std::size_t begin(sv v) { return v.data() - (const char*)in; }
static std::size_t end(sv v) { return begin(v) + v.size(); }
static bool has(sv v) { return (v.size() != 0) & (k - begin(v) < v.size()); }
static void inside(sv v) {
  vf_assert((v.size() == 0) | (vf_same(v.data(), in) & (begin(v) <= n) & (v.size() <= n - begin(v))), "components are views of the given string");
}
static void given() {
  n = vf_u64("n"); vf_assume(n <= (std::size_t(1) << 40));
  in = (uint8_t*)vf_bytes(n, "url");
}
static void ghost() {
  k = vf_u64("k"); vf_assume(k < n);
  b = in[k];
}

// The contract of parse_authority(): [f, l) is split completely into
// userinfo '@' host ':' port, each made of its own characters.
template <bool Assume> static void rule(bool c, const char* clause) { if (Assume) vf_assume(c); else vf_assert(c, clause); }
static uint32_t decimal(sv p, bool& digits) {
  uint32_t v = 0; digits = true;
  for (std::size_t i = 0; i < 5; ++i) {
    const uint8_t c = p[i < p.size() ? i : 0];
    digits &= digit(c);
    v = i < p.size() ? v * 10 + (c - '0') : v;
  }
  return v;
}
template <bool Assume>
static void authority_split(const parsed_url& o, std::size_t f, std::size_t l, bool ui, bool port) {
  std::size_t c = f;
  if (ui) {
    rule<Assume>((begin(o.userinfo) == f) & (o.userinfo.size() < l - f), "the user information starts the authority");
    c = end(o.userinfo);
    rule<Assume>(in[c] == '@', "the user information ends at an @");
    rule<Assume>((k < f) | (k >= c) | user_ch(b), "user information consists of user information characters");
    c++;
  }
  rule<Assume>((begin(o.host) == c) & (o.host.size() <= l - c), "the host name follows the user information");
  rule<Assume>((o.host.size() != 0) | port, "an authority names a host or a port");
  const std::size_t h = c; c = end(o.host);
  rule<Assume>(port ? c < l : c == l, "only a port follows the host name");
  const bool literal = in[h] == '[';
  rule<Assume>((k < h) | (k >= c) | (literal ? literal_ch(b) : host_ch(b)), "a host name consists of host name characters");
  rule<Assume>(!literal | (in[c ? c - 1 : 0] == ']'), "a bracketed address is terminated");
  rule<Assume>(!literal | (k < h) | (k + 1 >= c) | (b != ']'), "a bracketed address ends at its first closing bracket");
  if (port) {
    rule<Assume>(in[c] == ':', "a port follows a colon");
    c++;
    rule<Assume>((begin(o.port) == c) & (o.port.size() == l - c), "the port ends the authority");
    rule<Assume>(o.port.size() <= 5, "a port has at most five digits");
    if (!o.port.empty()) {
      bool digits; const uint32_t v = decimal(o.port, digits);
      rule<Assume>(digits, "a port consists of digits");
      rule<Assume>(v == o.port_value, "port_value() is the decimal value of port()");
    }
  }
}
static sv somewhere(const char* label) { return sv((const char*)in + vf_u64(label), vf_u64("length")); }

extern "C" void vfc_authority(const char*, const char*, bool, parsed_url&, std::error_code&) noexcept
    __asm__("vfc$_ZN7asioext6detail15parse_authorityEPKcS2_bRNS0_10parsed_urlERSt10error_code");
extern "C" void vfc_authority(const char* f, const char* l, bool ui, parsed_url& o, std::error_code& ec) noexcept {
  vf_requires(vf_same(f, in) && vf_same(l, in), "parse_authority() gets a part of the URL");
  const std::size_t fo = f - (const char*)in, lo = l - (const char*)in;
  vf_requires(fo < lo && lo <= n, "parse_authority() gets a part of the URL");
  vf_requires(!ec, "parse_authority() is not called for a refused URL");
  const uint32_t e = vf_u32("authority.error");
  if (e != 0) {
    o.userinfo = somewhere("u"); o.host = somewhere("h"); o.port = somewhere("p");
    o.port_value = (uint16_t)vf_u32("v");
    ec = std::error_code((int)e, std::generic_category());
    return;
  }
  if (ui) o.userinfo = somewhere("u");
  o.host = somewhere("h");
  const bool port = vf_u32("port") & 1;
  if (port) { o.port = somewhere("p"); o.port_value = (uint16_t)vf_u32("v"); }
  authority_split<true>(o, fo, lo, ui, port);
}

VF_HARNESS(authority) {
  given(); ghost();
  const std::size_t f = vf_u64("f"), l = vf_u64("l");
  vf_assume(f < l && l <= n);
  vf_num(f); vf_num(l);
  vf_fact(in + k, user_ch(b)); vf_fact(in + k, host_ch(b)); vf_fact(in + k, literal_ch(b)); vf_fact(in + k, b != ']');
  const bool ui = vf_u32("has_userinfo") & 1;
  parsed_url o; std::error_code ec;
  asioext::detail::parse_authority((const char*)in + f, (const char*)in + l, ui, o, ec);
  if (ec) { vf_cover("refused"); return; }
  vf_cover("accepted");
  const bool port = o.port.data() != nullptr;
  if (!ui) vf_assert(o.userinfo.empty(), "user information ends at an @");
  else { vf_assert(vf_same(o.userinfo.data(), in), "components are views of the given string"); }
  vf_assert(vf_same(o.host.data(), in), "components are views of the given string");
  if (port) vf_assert(vf_same(o.port.data(), in), "components are views of the given string");
  vf_assert(o.scheme.empty() & o.path.empty() & o.query.empty() & o.fragment.empty(), "parse_authority() leaves the other components alone");
  authority_split<false>(o, f, l, ui, port);
}

VF_HARNESS(characters) {
  given(); ghost();
  vf_fact(in + k, scheme_ch(b)); vf_fact(in + k, path_ch(b)); vf_fact(in + k, query_ch(b)); vf_fact(in + k, fragment_ch(b));
  std::error_code ec((int)vf_u32("stale") & 0xff, std::system_category());
  url_view u(sv((const char*)in, n), ec);
  if (ec) {
    vf_cover("refused");
    vf_assert(!u.is_valid(), "a refused URL is not valid");
    vf_assert(u.scheme().empty() & u.userinfo().empty() & u.host().empty() & u.port().empty() & u.path().empty() & u.query().empty() & u.fragment().empty(), "a refused URL has no components");
    return;
  }
  vf_cover("accepted");
  vf_assert(u.is_valid(), "an accepted URL is valid");
  inside(u.scheme()); inside(u.userinfo()); inside(u.host()); inside(u.path()); inside(u.query()); inside(u.fragment());
  vf_assert(!has(u.scheme()) | scheme_ch(b), "a scheme consists of scheme characters");
  vf_assert(!has(u.path()) | path_ch(b), "a path consists of path characters");
  vf_assert(!has(u.query()) | query_ch(b), "a query consists of query characters");
  vf_assert(!has(u.fragment()) | fragment_ch(b), "a fragment consists of fragment characters");
  vf_assert(!has(u.userinfo()) | user_ch(b), "user information consists of user information characters");
  if (u.host().empty()) return;
  const bool literal = u.host()[0] == '[';
  vf_assert(!has(u.host()) | (literal ? literal_ch(b) : host_ch(b)), "a host name consists of host name characters");
}

// scheme ":" ["//" authority] path ["?" query] ["#" fragment]: the components are disjoint, in
// this order, separated by their delimiters only, and account for every character of the string
VF_HARNESS(order) {
  given(); ghost();
  vf_byte(in, ':'); vf_byte(in, '/'); vf_byte(in, '?'); vf_byte(in, '#');
  vf_fact(in + k, b == '#');
  std::error_code ec;
  url_view u(sv((const char*)in, n), ec);
  if (ec || n == 0) { vf_cover("refused"); return; }
  vf_cover("accepted");
  std::size_t c = 0;
  if (!u.scheme().empty()) {
    vf_cover("scheme");
    vf_assert(begin(u.scheme()) == 0, "the scheme starts the URL");
    c = end(u.scheme());
    if (c == n) return;
    vf_assert(in[c] == ':', "the scheme ends at a colon");
    c++;
  }
  const bool authority = c != 0 && n - c >= 2 && in[c] == '/' && in[c + 1] == '/';
  if (authority) {
    c += 2;
    if (c < n && k != c) return;     // the ghost character is the one the authority starts with
  }
  vf_assert(authority | (u.userinfo().empty() & u.host().empty()), "only an authority names a host");
  const bool nobody = u.userinfo().empty() & u.host().empty() & !u.path().empty() & (begin(u.path()) == c);   // scheme:///path
  if (authority && !nobody) {
    if (!u.userinfo().empty()) { vf_assert(begin(u.userinfo()) == c, "the user information starts the authority"); c = end(u.userinfo()); }
    if (c < n && in[c] == '@') c++;
    if (!u.host().empty()) { vf_assert(begin(u.host()) == c, "the host name follows the user information"); c = end(u.host()); }
    if (c < n && in[c] == ':') {
      c++;
      if (vf_same(u.port().data(), in)) {
        if (!u.port().empty()) {
          vf_cover("port");
          vf_assert(begin(u.port()) == c, "the port follows the host name"); c = end(u.port());
        }
      }
    }
  }
  if (!u.path().empty()) { vf_assert(begin(u.path()) == c, "the path follows the authority or the scheme"); c = end(u.path()); }
  else vf_assert(c == n || in[c] == '?' || in[c] == '#' , "the path is not lost");
  if (c < n && in[c] == '?') {
    c++;
    if (!u.query().empty()) { vf_assert(begin(u.query()) == c, "the query follows its question mark"); c = end(u.query()); }
    else vf_assert(c == n || in[c] == '#', "the query is not lost");
  } else vf_assert(u.query().empty(), "the query follows its question mark");
  if (u.fragment().empty()) {
    vf_assert(c == n || in[c] == '#', "no character is lost");
    vf_assert(k < c || b == '#', "no character is lost");
    return;
  }
  vf_cover("fragment");
  vf_assert(c < begin(u.fragment()) && in[c] == '#', "the fragment follows its hash");
  vf_assert(k < c || k >= begin(u.fragment()) || b == '#', "the fragment follows its hash");
  vf_assert(end(u.fragment()) == n, "the fragment ends the URL");
}
