// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: asio's resolver and socket services, the list of endpoints a resolver finds, and asio::async_connect follow their documentation; asio::use_service yields one service per context
#include "vf.hpp"
#include <asio/io_context.hpp>
#include <asio/ip/tcp.hpp>
#include <asio/connect.hpp>
#include <cstddef>
#include <cstring>
#include <iterator>
#include <memory>
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>
typedef std::error_code error_code;
typedef asio::ip::tcp tcp;
typedef asio::basic_socket<tcp, asio::any_io_executor> socket_type;
typedef tcp::resolver resolver_type;
typedef tcp::endpoint endpoint;
static error_code failure(const char* label) { return error_code((int)(1 + vf_u8(label) % 120), asio::error::get_system_category()); }

// ---- what the name resolves to: any number of endpoints
static socket_type* the_socket;
static std::size_t count;
namespace asio { namespace ip {
template <> class basic_resolver_entry<tcp> {
  tcp::endpoint e_;
public:
  typedef tcp protocol_type; typedef tcp::endpoint endpoint_type;
  endpoint_type endpoint() const { return e_; }
  operator endpoint_type() const { return e_; }
  std::string host_name() const { return std::string(); }
  std::string service_name() const { return std::string(); }
};
}}
typedef asio::ip::basic_resolver_entry<tcp> entry;
static const entry* entries;
namespace asio { namespace ip {
template <> class basic_resolver_iterator<tcp> {
public:
  typedef std::ptrdiff_t difference_type; typedef entry value_type; typedef const entry* pointer; typedef const entry& reference;
  typedef std::forward_iterator_tag iterator_category;
  explicit basic_resolver_iterator(std::size_t i = std::size_t(-1)) : i_(i) {}
  reference operator*() const { at(); return entries[i_]; }
  pointer operator->() const { at(); return entries + i_; }
  basic_resolver_iterator& operator++() { at(); ++i_; return *this; }
  basic_resolver_iterator operator++(int) { basic_resolver_iterator r(*this); ++*this; return r; }
  bool operator==(const basic_resolver_iterator& o) const { return pos() == o.pos(); }
  bool operator!=(const basic_resolver_iterator& o) const { return pos() != o.pos(); }
private:
  std::size_t i_;
  std::size_t pos() const { return i_ == std::size_t(-1) ? count : i_; }
  void at() const { vf_assert(i_ < count, "no endpoint is used that was not found"); }
};
template <> class basic_resolver_results<tcp> {
public:
  typedef tcp protocol_type; typedef tcp::endpoint endpoint_type; typedef entry value_type;
  typedef const entry& const_reference; typedef const entry& reference;
  typedef basic_resolver_iterator<tcp> const_iterator; typedef const_iterator iterator;
  typedef std::ptrdiff_t difference_type; typedef std::size_t size_type;
  basic_resolver_results() : n_(0) {}
  explicit basic_resolver_results(std::size_t n) : n_(n) {}
  basic_resolver_results(const basic_resolver_results&) = default;
  basic_resolver_results(basic_resolver_results&& o) : n_(o.n_) { o.n_ = 0; }
  basic_resolver_results& operator=(const basic_resolver_results&) = default;
  basic_resolver_results& operator=(basic_resolver_results&& o) { n_ = o.n_; if (&o != this) o.n_ = 0; return *this; }
  size_type size() const { return n_; }
  size_type max_size() const { return n_; }
  bool empty() const { return n_ == 0; }
  const_iterator begin() const { return const_iterator(0); }
  const_iterator end() const { return const_iterator(); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
private:
  std::size_t n_;
};
}}
typedef asio::ip::basic_resolver_results<tcp> results_type;
static results_type the_results() { return results_type(count); }
static bool same(const endpoint& a, const endpoint& b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }

// ---- the resolver
static std::string_view host, service; static unsigned flags_;
static std::size_t probe; // any position
static bool equal(const std::string& a, std::string_view b) {
  if (a.size() != b.size()) return false;
#ifdef VF_NATIVE
  return a == b;
#else
  return probe >= b.size() || a[probe] == b[probe];
#endif
}
static int resolved; static error_code resolve_error;
template <class Q> static void ask(const Q& q) {
  vf_assert(resolved == 0, "the resolver is asked once");
  ++resolved;
  const std::string h = q.host_name(), s = q.service_name();
  vf_assert(equal(h, host), "the resolver is asked for the given host");
  vf_assert(equal(s, service), "the resolver is asked for the given service");
  vf_assert((unsigned)q.hints().ai_flags == flags_, "the resolver is asked with the given flags");
}

// ---- the socket
static bool open_, used, connected; static std::size_t tried; static error_code last; static bool touched; static endpoint peer;
static void failed(error_code ec) { ++tried; last = ec; connected = false; }

// ---- outstanding asynchronous operations
struct pending_resolve { virtual void run(error_code, results_type) = 0; virtual ~pending_resolve() {} };
struct pending_connect { virtual void run(error_code, endpoint) = 0; virtual ~pending_connect() {} };
static pending_resolve* resolving; static pending_connect* connecting;
template <class H> struct resolve_impl final : pending_resolve {
  H h; explicit resolve_impl(H&& x) : h(std::move(x)) {}
  void run(error_code ec, results_type r) override { H l(std::move(h)); delete this; l(ec, std::move(r)); }
};
template <class H> struct connect_impl final : pending_connect {
  H h; explicit connect_impl(H&& x) : h(std::move(x)) {}
  void run(error_code ec, endpoint e) override { H l(std::move(h)); delete this; l(ec, e); }
};

namespace asio { namespace detail {
template <> class resolver_service<tcp> {
public:
  struct implementation_type {};
  typedef ip::basic_resolver_query<tcp> query_type;
  typedef ip::basic_resolver_results<tcp> results_type;
  void construct(implementation_type&) {}
  void destroy(implementation_type&) {}
  void cancel(implementation_type&) {}
  results_type resolve(implementation_type&, const query_type& q, error_code& ec) {
    ask(q);
    ec = resolve_error = vf_bool("resolver fails") ? failure("resolve errno") : error_code();
    return ec ? results_type() : the_results();
  }
  template <class H, class Ex> void async_resolve(implementation_type&, const query_type& q, H& h, const Ex&) {
    ask(q);
    vf_assert(!resolving && !connecting, "one operation at a time");
    resolving = new resolve_impl<H>(std::move(h));
  }
};
template <> class reactive_socket_service<tcp> {
public:
  typedef tcp::endpoint endpoint_type; typedef tcp protocol_type; typedef int native_handle_type;
  struct implementation_type {};
  void construct(implementation_type&) {}
  void destroy(implementation_type&) {}
  bool is_open(const implementation_type&) const { return open_; }
  error_code close(implementation_type&, error_code& ec) {
    touched = true;
    open_ = used = connected = false;
    return ec = vf_bool("close fails") ? failure("close errno") : error_code();
  }
  endpoint_type remote_endpoint(const implementation_type&, error_code& ec) const {
    ec = connected ? error_code() : error_code(asio::error::not_connected);
    return connected ? peer : endpoint_type();
  }
  endpoint_type local_endpoint(const implementation_type&, error_code& ec) const { ec = open_ ? error_code() : error_code(asio::error::bad_descriptor); return endpoint_type(tcp::v6(), 1); }
  error_code open(implementation_type&, const tcp& p, error_code& ec) {
    touched = true;
    vf_assert(!open_, "a socket is opened while it is closed");
    vf_assert(tried < count && p == entries[tried].endpoint().protocol(), "the socket is opened for the protocol of the next endpoint");
    if (vf_bool("open fails")) { ec = failure("open errno"); failed(ec); } else { ec = error_code(); open_ = true; used = false; }
    return ec;
  }
  error_code connect(implementation_type&, const endpoint_type& e, error_code& ec) {
    touched = true;
    vf_assert(open_ && !used, "the socket is closed before each attempt");
    vf_assert(!connected, "nothing is tried once a connection is established");
    vf_assert(tried < count && same(e, entries[tried].endpoint()), "the endpoints are tried in order");
    used = true;
    if (vf_bool("connected")) { ec = error_code(); ++tried; connected = true; peer = e; }
    else { ec = failure("connect errno"); failed(ec); }
    return ec;
  }
};
}
static detail::resolver_service<tcp> resolver_service_; static detail::reactive_socket_service<tcp> socket_service_;
template <> inline detail::resolver_service<tcp>& use_service(io_context&) { return resolver_service_; }
template <> inline detail::reactive_socket_service<tcp>& use_service(io_context&) { return socket_service_; }

template <class H> void async_connect(basic_socket<tcp, any_io_executor>& s, const ip::basic_resolver_results<tcp>& r, H&& h) {
  vf_assert(&s == the_socket && !resolving && !connecting, "one operation at a time");
  vf_assert(resolved == 1 && r.size() == count, "the endpoints found are tried in order");
  touched = true;
  connecting = new connect_impl<typename std::decay<H>::type>(std::move(h));
}
}
#include "asioext/connect.hpp"

#ifdef VF_NATIVE
static asio::io_context& context() { static asio::io_context c; return c; }
#else
alignas(16) static char context_[sizeof(asio::io_context)];
alignas(16) static char scheduler_[sizeof(asio::detail::scheduler)];
static asio::io_context& context() { return (asio::io_context&)context_; }
#endif

static void begin(std::size_t least = 0) {
#ifndef VF_NATIVE
  asio::detail::scheduler* s = (asio::detail::scheduler*)scheduler_;
  std::memcpy(context_ + sizeof context_ - sizeof s, &s, sizeof s);
  s->outstanding_work_ = 1;
#endif
  const std::size_t hl = least + (vf_u64("host length") & 0xfffff), sl = least + (vf_u64("service length") & 0xfffff);
  host = std::string_view((const char*)vf_bytes(hl, "host"), hl);
  service = std::string_view((const char*)vf_bytes(sl, "service"), sl);
  flags_ = vf_u32("flags") & 0x7ff; probe = vf_u64("k");
  count = vf_u64("endpoints") & 0xffff;
  entries = (const entry*)vf_bytes(count * sizeof(entry), "endpoint data");
  resolved = 0; touched = false; resolve_error = last = error_code();
  open_ = vf_bool("socket open"); used = connected = open_ & vf_bool("socket connected"); tried = 0;
  resolving = 0; connecting = 0; 
}

template <bool Throwing> static void run(std::size_t least, bool found) {
  begin(least);
  if (!found) count = 0;
  resolver_type r(context());
  socket_type s(context()); the_socket = &s;
  error_code ec((int)(vf_u32("stale") & 0xff), asio::error::get_system_category());
  if (Throwing) {
    try { ec = error_code(); asioext::connect(s, r, host, service, (asio::ip::resolver_base::flags)flags_); }
    catch (const std::system_error& e) { ec = e.code(); vf_assert(!!ec, "an exception carries an error"); }
  } else
    asioext::connect(s, r, host, service, (asio::ip::resolver_base::flags)flags_, ec);
  vf_assert(resolved == 1, "the resolver is asked once");
  if (resolve_error) {
    vf_cover("not resolved");
    vf_assert(ec == resolve_error && !touched, "an error of the resolver is reported, without trying anything");
  } else if (count == 0) {
    vf_cover("nothing found");
    vf_assert(ec == asio::error::not_found && tried == 0, "a name without endpoints is reported as not found");
  } else if (!ec) {
    vf_cover("connected");
    vf_assert(connected && open_ && tried > 0, "success is reported if a connection is established");
  } else {
    vf_cover("failed");
    vf_assert(tried == count && ec == last && !connected, "all endpoints are tried, and the error of the last attempt reported");
  }
}
// names of any length, none of them found
VF_HARNESS(names) { run<false>(0, false); }
VF_HARNESS(names_throwing) { run<true>(0, false); }
// any endpoints, for names asio stores out of place
VF_HARNESS(connect) { run<false>(16, true); }
VF_HARNESS(throwing) { run<true>(16, true); }

static int calls; static error_code got; static endpoint got_ep;
struct handler { void operator()(error_code ec, endpoint e) const { ++calls; got = ec; got_ep = e; } };
VF_HARNESS(async_connect) {
  begin();
  calls = 0; got = error_code(); got_ep = endpoint();
  {
    resolver_type r(context());
    socket_type s(context()); the_socket = &s;
    asioext::async_connect(s, r, host, service, (asio::ip::resolver_base::flags)flags_, handler());
    host = service = std::string_view();
    vf_assert(resolving && !connecting && calls == 0 && !touched, "initiating asks the resolver, and nothing else");
    pending_resolve* p = resolving; resolving = 0;
    if (vf_bool("abandoned")) { vf_cover("abandoned"); delete p; }
    else if (vf_bool("resolver fails")) {
      vf_cover("not resolved");
      const error_code e = failure("resolve errno");
      p->run(e, results_type());
      vf_assert(calls == 1 && got == e && !connecting && !touched, "an error of the resolver is reported, without trying anything");
      vf_assert(got_ep == endpoint(), "no endpoint is reported");
    } else {
      p->run(error_code(), the_results());
      vf_assert(calls == 0 && connecting && !resolving, "the endpoints found are tried");
      pending_connect* c = connecting; connecting = 0;
      const error_code e = vf_bool("connected") ? error_code() : failure("connect errno");
      endpoint ep;
      if (!e) { vf_cover("connected"); ep = ((const entry*)vf_bytes(sizeof(entry), "endpoint"))->endpoint(); peer = ep; }
      connected = open_ = !e;
      c->run(e, ep);
      vf_assert(calls == 1 && got == e && same(got_ep, ep), "the outcome and the endpoint are reported as they are");
    }
    vf_assert(!resolving && !connecting && resolved == 1, "nothing else is started");
  }
}
