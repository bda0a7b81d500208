URL = r'''
#include "asioext/url_view.hpp"
#include <string>
#include <sys/mman.h>
using namespace asioext;
'''
seed('D01-port-digits', 'D01', [('detail/impl/url_parser.cpp', 'max_port_digits = 5;', 'max_port_digits = 10;')],
     'a port of ten digits that wraps around 32 bits', 'port 4294967376 is accepted as port 80', URL + r'''
int main() {
  std::error_code ec;
  url_view u("http://h:4294967376/", ec);
  CHECK(ec && !u.is_valid());
}''')
seed('D01-zone-end', 'D01', [('detail/impl/url_parser.cpp', 'last - first > 3 &&', 'last - first > 1 &&')],
     'a bracketed host cut off within the %25 of a zone id', 'characters behind the end of the string are read', URL + r'''
int main() {
  // the string ends where readable memory ends
  char* m = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  CHECK(m != MAP_FAILED && mprotect(m + 4096, 4096, PROT_NONE) == 0);
  std::string_view t("http://[1%2");
  memcpy(m + 4096 - t.size(), t.data(), t.size());
  std::error_code ec;
  url_view u(std::string_view(m + 4096 - t.size(), t.size()), ec);
  CHECK(ec && !u.is_valid());
}''')
seed('D01-rewind', 'D01', [('detail/impl/url_parser.cpp', '        --it;\n', '')],
     'an absolute path directly behind the scheme (file:/etc)', 'the path loses its leading slash', URL + r'''
int main() {
  std::error_code ec;
  url_view u("file:/etc/passwd", ec);
  CHECK(!ec && u.path() == "/etc/passwd");
}''')
seed('D01-authority-fragment', 'D01', [('detail/impl/url_parser.cpp', '''        case '?':
          return url_state::query_string_start;
        case '@':''', '''        case '?':
          return url_state::query_string;
        case '@':''')],
     'a query directly behind the authority', 'the query contains its question mark', URL + r'''
int main() {
  std::error_code ec;
  url_view u("http://h?q=1", ec);
  CHECK(!ec && u.query() == "q=1");
  url_view v("http://h/?q=1", ec);
  CHECK(!ec && v.query() == "q=1");
}''')
seed('D01-double-at', 'D01', [('detail/impl/url_parser.cpp', '''    auto start = first;
    while (first != last && is_user_char(*first))
      ++first;

    if (first == last || *first != '@') {''', '''    auto start = first;
    while (first != last && (is_user_char(*first) || *first == '[' || *first == ']'))
      ++first;

    if (first == last || *first != '@') {''')],
     'brackets in front of the @ of an authority', 'user information with characters it must not contain is accepted', URL + r'''
int main() {
  std::error_code ec;
  url_view u("http://[::1]@evil/", ec);
  CHECK(ec);
}''')
seed('D01-port-zero', 'D01', [('impl/url_view.cpp', '''  if (!url_.port.empty())
    return url_.port_value;''', '''  if (url_.port_value)
    return url_.port_value;''')],
     'an explicit port 0 with a scheme that has a default port', 'port_value() contradicts port(): port 0 is reported as 80', URL + r'''
int main() {
  std::error_code ec;
  url_view u("http://h:0/", ec);
  CHECK(!ec && u.port() == "0" && u.port_value() == 0);
}''')

seed('D01-zone-tilde', 'D01', [('detail/impl/url_parser.cpp', '''            ch == '_' || ch == '~')''', '''            ch == '_')''')],
     'a zone id with a tilde', 'a valid address literal is refused', URL + r'''
int main() {
  std::error_code ec;
  url_view u("http://[fe80::1%25eth~0]/", ec);
  CHECK(!ec && u.host() == "[fe80::1%25eth~0]");
}''')
seed('D01-port-max', 'D01', [('detail/impl/url_parser.cpp', 'if (port > 0xffff || first != last)', 'if (port >= 0xffff || first != last)')],
     'port 65535', 'the highest port is refused', URL + r'''
int main() {
  std::error_code ec;
  url_view u("http://h:65535/", ec);
  CHECK(!ec && u.port_value() == 65535);
}''')
seed('D01-hex-upper', 'D01', [('detail/impl/url_parser.cpp', '''(ch_lower >= 'a' && ch_lower <= 'f')''', '''(ch_lower > 'a' && ch_lower <= 'f')''')],
     'an address literal with the digit a', 'a valid address literal is refused', URL + r'''
int main() {
  std::error_code ec;
  url_view u("http://[fe80::a1]/", ec);
  CHECK(!ec && u.host() == "[fe80::a1]");
}''')
seed('D01-query-slash', 'D01', [('detail/impl/url_parser.cpp', '''          // allow extra '?' in query string
          return url_state::query_string;''', '''          // allow extra '?' in query string
          return s;''')],
     'a query that begins with question marks', 'leading question marks are dropped from the query', URL + r'''
int main() {
  std::error_code ec;
  url_view u("http://h/?\?x=1", ec);
  CHECK(!ec && u.query() == "?x=1");
}''')
