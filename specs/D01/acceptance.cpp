// vf-flags: -DASIOEXT_HEADER_ONLY=1
// Each component accepts every text made of its own characters, of any length, and is given back as it is.
#include "vf.hpp"
#include "asioext/url_view.hpp"
#include "asioext/error.hpp"
#include <string_view>
using asioext::url_view;
typedef std::string_view sv;

static char* in; static std::size_t n, m;
// prefix, then m characters out of ranges, at least `least`, then suffix
static void given(sv prefix, const char* ranges, std::size_t least, sv suffix = sv(), std::size_t most = std::size_t(1) << 40) {
  m = vf_u64("length"); vf_assume(m >= least && m <= most);
  n = prefix.size() + m + suffix.size();
  in = (char*)vf_bytes_in(n, "url", ranges);
  for (std::size_t i = 0; i < prefix.size(); ++i) in[i] = prefix[i];
  for (std::size_t i = 0; i < suffix.size(); ++i) in[prefix.size() + m + i] = suffix[i];
  for (std::size_t i = 0; i <= prefix.size(); ++i) vf_num(i);
  for (std::size_t i = 0; i <= suffix.size(); ++i) vf_num(prefix.size() + m + i);
}
static bool is(sv v, std::size_t f, std::size_t l) { return f == l ? v.empty() : (v.data() == in + f) & (v.size() == l - f); }
static url_view parsed() {
  std::error_code ec((int)vf_u32("stale") & 0xff, std::system_category());
  url_view u(sv(in, n), ec);
  vf_assert(!ec, "components made of the characters allowed there are accepted");
  vf_assert(u.is_valid(), "an accepted URL is valid");
  vf_cover("accepted");
  return u;
}
#define CLAUSE "each component is the text between its delimiters"
#define ALNUM "azAZ09"
#define URLCH "\x09\x09\x0c\x0c!\"$>@~"

VF_HARNESS(path) {
  given("h://a/", URLCH, 0);
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.host(), 4, 5) & is(u.path(), 5, n) & u.query().empty() & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(path_alone) {
  given("/", URLCH, 0);
  const url_view u = parsed();
  vf_assert(u.scheme().empty() & u.host().empty() & is(u.path(), 0, n) & u.query().empty() & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(path_after_scheme) {
  given("h:", URLCH, 1);
  vf_assume(!(in[2] == '/' && m > 1 && in[3] == '/'));
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & u.host().empty() & is(u.path(), 2, n) & u.query().empty() & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(scheme) {
  given("", ALNUM "++--..", 1, "://a");
  vf_assume((in[0] | 32) >= 'a' && (in[0] | 32) <= 'z');
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, m) & is(u.host(), m + 3, m + 4) & u.path().empty() & u.query().empty() & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(query) {
  given("h://a?", URLCH "??", 0);
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.host(), 4, 5) & u.path().empty() & is(u.query(), 6, n) & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(fragment) {
  given("h:p#", URLCH "??##", 0);
  vf_assume(m == 0 || in[4] != '#');
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & u.host().empty() & is(u.path(), 2, 3) & u.query().empty() & is(u.fragment(), 4, n) & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(host) {
  given("h://", ALNUM "..--__", 1, "/");
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.host(), 4, 4 + m) & is(u.path(), 4 + m, n) & u.query().empty() & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(literal) {
  given("h://[", "09afAF::..", 0, "]");
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.host(), 4, n) & u.path().empty() & u.query().empty() & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(zone) {
  given("h://[f%25", ALNUM "%%..--__~~", 0, "]");
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.host(), 4, n) & u.path().empty() & u.query().empty() & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
}
VF_HARNESS(userinfo) {
  given("h://", ALNUM "--__..!!~~**''(())%%;;::&&==++$$,,", 0, "@a");
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.userinfo(), 4, 4 + m) & is(u.host(), 5 + m, n) & u.path().empty() & u.query().empty() & u.fragment().empty(), CLAUSE);
}
VF_HARNESS(port) {
  given("h://a:", "09", 0, "", 5);
  unsigned v = 0;
  for (std::size_t i = 0; i < 5; ++i) if (i < m) v = v * 10 + (unsigned)(in[6 + i] - '0');
  vf_assume(v <= 65535);
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.host(), 4, 5) & is(u.port(), 6, n) & u.path().empty() & u.query().empty() & u.fragment().empty() & u.userinfo().empty(), CLAUSE);
  vf_assert(u.port_value() == v, "port_value() is the decimal value of port()");
}
// s://user@host/path?query#fragment, of any lengths
VF_HARNESS(together) {
  std::size_t e[4], p = 4;
  static const char delimiters[] = "@/?#";
  n = vf_u64("n"); vf_assume(n <= (std::size_t(1) << 40));
  for (int i = 0; i < 4; ++i) {
    e[i] = vf_u64("end"); vf_assume(e[i] > p && e[i] < n);
    p = e[i] + 1;
  }
  vf_assume(n > p);
  in = (char*)vf_bytes_in(n, "url", ALNUM "--..");
  in[0] = 's'; in[1] = ':'; in[2] = in[3] = '/';
  for (int i = 0; i < 4; ++i) in[e[i]] = delimiters[i];
  for (int i = 1; i <= 4; ++i) vf_num(i);
  for (int i = 0; i < 4; ++i) { vf_num(e[i]); if (i != 1) vf_num(e[i] + 1); }
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.userinfo(), 4, e[0]) & is(u.host(), e[0] + 1, e[1]) & is(u.path(), e[1], e[2]) & is(u.query(), e[2] + 1, e[3]) & is(u.fragment(), e[3] + 1, n), CLAUSE);
}
VF_HARNESS(user_host_port) {
  given("h://u@", ALNUM "..--__", 1, ":80");
  const url_view u = parsed();
  vf_assert(is(u.scheme(), 0, 1) & is(u.userinfo(), 4, 5) & is(u.host(), 6, 6 + m) & is(u.port(), n - 2, n) & u.path().empty() & u.query().empty() & u.fragment().empty(), CLAUSE);
  vf_assert(u.port_value() == 80, "port_value() is the decimal value of port()");
}
