// vf-flags: -DASIOEXT_HEADER_ONLY=1
// url_view on top of the contract of parse_url() (whose body soundness.cpp verifies): which text is parsed,
// how a refusal is reported, and the default ports
#include "vf.hpp"
#include "asioext/url_view.hpp"
#include "asioext/error.hpp"
#include <string_view>
using asioext::url_view;
using asioext::detail::parsed_url;
typedef std::string_view sv;

static const char* in; static std::size_t n;
static unsigned calls; static parsed_url result; static uint32_t err;
static sv somewhere(const char* label) { return sv(in + vf_u64(label), vf_u64("length")); }
static bool eq(sv a, sv b) { return (a.data() == b.data()) & (a.size() == b.size()); }

extern "C" void vfc_parse(const char*, const char*, parsed_url&, std::error_code&) noexcept
    __asm__("vfc$_ZN7asioext6detail9parse_urlEPKcS2_RNS0_10parsed_urlERSt10error_code");
static void outcome() {
  result.userinfo = somewhere("u"); result.host = somewhere("h"); result.path = somewhere("path");
  result.query = somewhere("q"); result.fragment = somewhere("fragment");
  result.scheme = sv(in, vf_u64("scheme.size")); vf_assume(result.scheme.size() <= n);
  result.port = somewhere("port"); result.port_value = (uint16_t)vf_u32("port.value");
  err = vf_u32("error");
}
extern "C" void vfc_parse(const char* f, const char* l, parsed_url& o, std::error_code& ec) noexcept {
  vf_requires(vf_same(f, in) && vf_same(l, in) && f == in && l == in + n, "the whole string is parsed");
  calls++;
  outcome();
  o = result;
  ec = err ? std::error_code((int)err, asioext::url_error_category()) : std::error_code();
}
static void given() {
  n = vf_u64("n"); vf_assume(n >= 1 && n <= (std::size_t(1) << 40));
  in = (const char*)vf_bytes(n, "url");
}
// A replay runs the real parse_url(): on a text with the scheme and port of the counterexample
#ifdef VF_NATIVE
#include <string>
static void text() {
  static std::string t;
  outcome();
  calls = 1;
  if (err) t = "\001";
  else t = std::string(result.scheme) + "://u@h" + (result.port.empty() ? "" : ":" + std::to_string(result.port_value)) + "/p?q#f";
  in = t.data(); n = t.size();
  std::error_code ec;
  result = parsed_url();
  asioext::detail::parse_url(in, in + n, result, ec);
  err = ec.value();
}
#else
static void text() {}
#endif
static void fields(const url_view& u) {
  vf_assert(calls == 1, "the string is parsed once");
  vf_assert(u.is_valid() & (bool)u, "an accepted URL is valid");
  vf_assert(eq(u.scheme(), result.scheme) & eq(u.userinfo(), result.userinfo) & eq(u.host(), result.host), "the components are those of the string");
  vf_assert(eq(u.path(), result.path) & eq(u.query(), result.query) & eq(u.fragment(), result.fragment), "the components are those of the string");
  if (!result.port.empty()) {
    vf_cover("explicit port");
    vf_assert(eq(u.port(), result.port), "port() is the port of the string");
    vf_assert(u.port_value() == result.port_value, "port_value() is the port of the string");
    return;
  }
  const sv s = result.scheme;
  const bool http = s.size() == 4 && s[0] == 'h' && s[1] == 't' && s[2] == 't' && s[3] == 'p';
  const bool https = s.size() == 5 && s[0] == 'h' && s[1] == 't' && s[2] == 't' && s[3] == 'p' && s[4] == 's';
  const bool ftp = s.size() == 3 && s[0] == 'f' && s[1] == 't' && s[2] == 'p';
  const unsigned d = http ? 80 : https ? 443 : ftp ? 21 : 0;
  vf_assert(u.port_value() == d, "without a port, port_value() is the default of the scheme");
  const sv p = u.port();
  if (d == 0) { vf_cover("no default"); vf_assert(p.empty(), "without a port, port() is the default of the scheme"); return; }
  vf_cover("default");
  unsigned v = 0;
  vf_assert(p.size() == (d == 443 ? 3 : 2), "without a port, port() is the default of the scheme");
  for (char c : p) v = v * 10 + (unsigned)(c - '0');
  vf_assert(v == d, "without a port, port() is the default of the scheme");
}
static void nothing(const url_view& u) {
  vf_assert(!u.is_valid() & !(bool)u, "a refused URL is not valid");
  vf_assert(u.scheme().empty() & u.userinfo().empty() & u.host().empty() & u.port().empty() & u.path().empty() & u.query().empty() & u.fragment().empty(), "a refused URL has no components");
  vf_assert(u.port_value() == 0, "a refused URL has no port");
}
VF_HARNESS(by_error_code) {
  given();
  std::error_code ec((int)vf_u32("stale") & 0xff, std::system_category());
  text();
  url_view u(sv(in, n), ec);
  if (err) { vf_cover("refused"); vf_assert(ec.value() == (int)err && ec.category() == asioext::url_error_category(), "the reason of the refusal is reported"); nothing(u); return; }
  vf_cover("accepted");
  vf_assert(!ec, "accepting a URL clears the error");
  fields(u);
}
VF_HARNESS(by_exception) {
  given();
  text();
  try {
    url_view u(sv(in, n));
    vf_assert(err == 0, "a refused URL throws");
    vf_cover("accepted");
    fields(u);
  } catch (const std::system_error& e) {
    vf_cover("refused");
    vf_assert(err != 0, "an accepted URL does not throw");
    vf_assert(e.code().value() == (int)err && e.code().category() == asioext::url_error_category(), "the reason of the refusal is thrown");
  }
}
VF_HARNESS(nothing_given) {
  const url_view u;
  nothing(u);
  vf_cover("default constructed");
}
VF_HARNESS(assigned) {
  given();
  std::error_code ec;
  text();
  url_view u(sv(in, n), ec);
  vf_assume(!ec);
  url_view v(u), w;
  w = v;
  vf_cover("copied");
  fields(w);
}
