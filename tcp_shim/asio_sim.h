// Stand-in for the parts of asio the tcp classes use. Handlers are kept in queues; the harness decides what completes, how
// and in which order. Sockets and acceptors note when they are used other than from their strand while it is watched.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <memory>
#include <string>
#include <system_error>
#include <utility>
#include <vector>
#include "sym.h"
namespace asio {
using std::error_code;
namespace error {
enum basic_errors {
  operation_aborted = ECANCELED, bad_descriptor = EBADF, connection_reset = ECONNRESET, broken_pipe = EPIPE,
  address_family_not_supported = EAFNOSUPPORT, address_in_use = EADDRINUSE, connection_refused = ECONNREFUSED, not_connected = ENOTCONN
};
enum misc_errors { eof = 2 };
// as in asio, the system's error codes are in a category of its own
struct Category : std::error_category {
  const char* n;
  explicit Category(const char* n) : n(n) {}
  const char* name() const noexcept override { return n; }
  std::string message(int) const override { return n; }
};
inline const std::error_category& get_system_category() { static const Category c("asio.system"); return c; }
inline const std::error_category& get_misc_category() { static const Category c("asio.misc"); return c; }
inline std::error_code make_error_code(basic_errors e) { return std::error_code((int)e, get_system_category()); }
inline std::error_code make_error_code(misc_errors e) { return std::error_code((int)e, get_misc_category()); }
}  // namespace error
class io_context;
typedef io_context io_service;
typedef std::function<void()> Task;
class io_context {
 public:
  struct executor_type { io_context* c; };
  io_context() {}
  io_context(int) {}
  executor_type get_executor() { return executor_type{this}; }
  bool stopped() const { return stopped_; }
  void stop() { stopped_ = true; }
  class strand {
   public:
    explicit strand(io_context& c) : c_(&c) { c.strands.push_back(this); }
    strand(const strand&) = delete;
    ~strand() { c_->strands.remove(this); }
    io_context& context() { return *c_; }
    io_context& get_io_service() { return *c_; }
    bool running_in_this_thread() const { return c_->running == this; }
    void post(Task t) { tasks.push_back(std::move(t)); }
    void dispatch(Task t) { if (running_in_this_thread()) t(); else post(std::move(t)); }
    template <typename H> struct wrapped {
      strand* s;
      H h;
      void operator()() { auto g(h); s->dispatch([g]() mutable { g(); }); }
      template <typename A> void operator()(A a) { auto g(h); s->dispatch([g, a]() mutable { g(a); }); }
      template <typename A, typename B> void operator()(A a, B b) { auto g(h); s->dispatch([g, a, b]() mutable { g(a, b); }); }
    };
    template <typename H> wrapped<H> wrap(H h) { return wrapped<H>{this, std::move(h)}; }
    std::deque<Task> tasks;
   private:
    io_context* c_;
  };
  void post(Task t) { tasks.push_back(std::move(t)); }
  void dispatch(Task t) { post(std::move(t)); }
  // the harness' side
  void run_task(size_t i) { Task t(std::move(tasks[i])); tasks.erase(tasks.begin() + i); strand* was = running; running = nullptr; t(); running = was; }
  void run_strand(strand& s) { Task t(std::move(s.tasks.front())); s.tasks.pop_front(); running = &s; t(); running = nullptr; }
  std::deque<Task> tasks;
  std::list<strand*> strands;
  strand* running = nullptr;
  strand* watched = nullptr;  // sockets may only be used from here
  void used() const { CHECK(!watched || running == watched, "a connection's socket is only used from its strand"); }
 private:
  bool stopped_ = false;
};
template <typename H> void post(io_context::strand& s, H h) { s.post(std::move(h)); }
template <typename H> void dispatch(io_context::strand& s, H h) { s.dispatch(std::move(h)); }
template <typename H> void post(io_context& c, H h) { c.post(std::move(h)); }
template <typename H> void dispatch(io_context& c, H h) { c.dispatch(std::move(h)); }
template <typename H> void post(io_context::executor_type e, H h) { e.c->post(std::move(h)); }
template <typename H> void dispatch(io_context::executor_type e, H h) { e.c->dispatch(std::move(h)); }
template <typename H> io_context::strand::wrapped<H> bind_executor(io_context::strand& s, H h) { return s.wrap(std::move(h)); }
template <typename H> io_context::strand::wrapped<H> wrap(io_context::strand& s, H h) { return s.wrap(std::move(h)); }

struct const_buffer {
  const_buffer() {}
  const_buffer(const void* p, size_t n) : p(p), n(n) {}
  const void* data() const { return p; }
  size_t size() const { return n; }
  const void* p = nullptr;
  size_t n = 0;
};
struct mutable_buffer {
  mutable_buffer() {}
  mutable_buffer(void* p, size_t n) : p(p), n(n) {}
  operator const_buffer() const { return const_buffer(p, n); }
  void* p = nullptr;
  size_t n = 0;
};
typedef const_buffer const_buffers_1;
typedef mutable_buffer mutable_buffers_1;
inline mutable_buffer buffer(void* p, size_t n) { return mutable_buffer(p, n); }
inline const_buffer buffer(const void* p, size_t n) { return const_buffer(p, n); }
template <typename T, size_t N> mutable_buffer buffer(std::array<T, N>& a) { return mutable_buffer(a.data(), N * sizeof(T)); }
template <typename T, size_t N> const_buffer buffer(const std::array<T, N>& a) { return const_buffer(a.data(), N * sizeof(T)); }
template <typename T> mutable_buffer buffer(std::vector<T>& v) { return mutable_buffer(v.data(), v.size() * sizeof(T)); }
template <typename T> const_buffer buffer(const std::vector<T>& v) { return const_buffer(v.data(), v.size() * sizeof(T)); }
inline const_buffer buffer(const std::string& v) { return const_buffer(v.data(), v.size()); }

namespace ip {
class address_v4 {
 public:
  explicit address_v4(unsigned long a = 0) : a_(a) {}
  unsigned long to_ulong() const { return a_; }
  static address_v4 loopback() { return address_v4(0x7f000001); }
  static address_v4 any() { return address_v4(0); }
 private:
  unsigned long a_;
};
class address_v6 {
 public:
  typedef std::array<unsigned char, 16> bytes_type;
  address_v6() : b_(), s_(0) {}
  address_v6(const bytes_type& b, unsigned long s = 0) : b_(b), s_(s) {}
  bytes_type to_bytes() const { return b_; }
  unsigned long scope_id() const { return s_; }
  static address_v6 loopback() { address_v6 a; a.b_[15] = 1; return a; }
  static address_v6 any() { return address_v6(); }
 private:
  bytes_type b_;
  unsigned long s_;
};
inline address_v4 make_address_v4(const char*) { return address_v4(0xcb007100); }
class address {
 public:
  address() {}
  address(const address_v4& a) : v4_(a) {}
  address(const address_v6& a) : six_(true), v6_(a) {}
  bool is_v4() const { return !six_; }
  bool is_v6() const { return six_; }
  address_v4 to_v4() const { return v4_; }
  address_v6 to_v6() const { return v6_; }
 private:
  bool six_ = false;
  address_v4 v4_;
  address_v6 v6_;
};
struct protocol_of { bool six; };
template <typename P> struct basic_endpoint {
  basic_endpoint() : port_(0) {}
  basic_endpoint(const ip::address& a, unsigned short p) : a_(a), port_(p) {}
  ip::address address() const { return a_; }
  unsigned short port() const { return port_; }
  protocol_of protocol() const { return protocol_of{a_.is_v6()}; }
  ip::address a_;
  unsigned short port_;
};
struct udp { typedef basic_endpoint<udp> endpoint; };
}  // namespace ip

// what the network does, decided by the harness
struct Network {
  std::function<std::error_code(const ip::address&, unsigned short port)> connect = [](const ip::address&, unsigned short) { return std::error_code(); };
  std::function<std::error_code()> remote_endpoint = [] { return std::error_code(); };
  std::function<std::error_code(const char* step, bool six, unsigned short port)> listen = [](const char*, bool, unsigned short) { return std::error_code(); };
};
inline Network& network() { static Network n; return n; }
typedef std::function<void(std::error_code, size_t)> Done;
struct PendingRead { void* p; size_t n; Done done; };
struct PendingWrite { std::vector<const_buffer> b; std::vector<unsigned char> start; Done done; };

namespace ip {
struct tcp {
  typedef basic_endpoint<tcp> endpoint;
  struct iostream : std::iostream {
    iostream() : std::iostream(nullptr) {}
    template <typename... A> explicit iostream(A...) : std::iostream(nullptr) {}
    template <typename... A> void connect(A...) {}
    std::error_code error() const { return std::error_code(); }
  };
  class socket {
   public:
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    explicit socket(io_context& c) : c_(c) { all().push_back(this); }
    socket(const socket&) = delete;
    ~socket() { abort(); all().remove(this); }
    static std::list<socket*>& all() { static std::list<socket*> l; return l; }
    bool is_open() const { return open; }
    void connect(const endpoint& e, std::error_code& ec) { ec = network().connect(e.address(), e.port()); open = true; connected = !ec; }
    endpoint remote_endpoint(std::error_code& ec) const {
      ec = connected ? network().remote_endpoint() : make_error_code(error::not_connected);
      return endpoint();
    }
    void shutdown(shutdown_type, std::error_code& ec) { c_.used(); ec = std::error_code(); if (!open) ec = make_error_code(error::bad_descriptor); shut = true; }
    void close(std::error_code& ec) { c_.used(); ec = std::error_code(); open = connected = false; ++closed; abort(); }
    void close() { std::error_code ec; close(ec); }
    // both directions: what is pending; completing it hands the handler to the io_context
    void start_read(void* p, size_t n, Done d) {
      c_.used();
      CHECK(!reading, "one read at a time");
      if (!open) { complete(d, make_error_code(error::bad_descriptor), 0); return; }
      read = PendingRead{p, n, d};
      reading = true;
    }
    void start_write(std::vector<const_buffer> b, Done d) {
      c_.used();
      CHECK(!writing, "one write at a time, or the messages would mix");
      if (!open) { complete(d, make_error_code(error::bad_descriptor), 0); return; }
      write = PendingWrite{b, flat(b), d};
      writing = true;
    }
    void finish_read(std::error_code ec, size_t n) { Done d(read.done); reading = false; read = PendingRead(); complete(d, ec, n); }
    void finish_write(std::error_code ec, size_t n) { Done d(write.done); writing = false; write = PendingWrite(); complete(d, ec, n); }
    static std::vector<unsigned char> flat(const std::vector<const_buffer>& b) {
      std::vector<unsigned char> r;
      for (auto& x : b) r.insert(r.end(), (const unsigned char*)x.p, (const unsigned char*)x.p + x.n);
      return r;
    }
    bool open = false, connected = false, shut = false, reading = false, writing = false;
    int closed = 0;
    PendingRead read;
    PendingWrite write;
   private:
    void complete(Done d, std::error_code ec, size_t n) { c_.post([d, ec, n] { d(ec, n); }); }
    void abort() {
      if (reading) finish_read(make_error_code(error::operation_aborted), 0);
      if (writing) finish_write(make_error_code(error::operation_aborted), 0);
    }
    io_context& c_;
  };
  class acceptor {
   public:
    typedef std::function<void(std::error_code)> Accepted;
    struct reuse_address { explicit reuse_address(bool) {} };
    explicit acceptor(io_context& c) : c_(c) { the() = this; }
    ~acceptor() { if (the() == this) the() = nullptr; abort(); }
    static acceptor*& the() { static acceptor* a = nullptr; return a; }
    bool is_open() const { return open_; }
    endpoint local_endpoint() const { return at; }
    void open(protocol_of p) { step("open", p.six, 0); open_ = true; six = p.six; }
    template <typename O> void set_option(O) { step("option", six, 0); }
    void bind(const endpoint& e) { CHECK(open_ && e.address().is_v6() == six, "bound as opened"); step("bind", six, e.port()); at = e; }
    void listen(int = 0) { step("listen", six, at.port()); listening = true; }
    void close(std::error_code& ec) { c_.used(); ec = std::error_code(); open_ = listening = false; ++closed; abort(); }
    void close() { std::error_code ec; close(ec); }
    template <typename H> void async_accept(socket& s, H h) {
      c_.used();
      CHECK(!accepting, "one accept at a time");
      Accepted d(std::move(h));
      if (!open_) { c_.post([d] { d(make_error_code(error::bad_descriptor)); }); return; }
      accepting = true;
      peer = &s;
      done = d;
    }
    void finish(std::error_code ec) {
      Accepted d(done);
      accepting = false;
      done = Accepted();
      if (!ec) peer->open = peer->connected = true;
      c_.post([d, ec] { d(ec); });
    }
    endpoint at;
    bool six = false, listening = false, accepting = false;
    int closed = 0;
   private:
    void step(const char* what, bool s, unsigned short port) {
      std::error_code ec = network().listen(what, s, port);
      if (ec) throw std::system_error(ec);
    }
    void abort() { if (accepting) finish(make_error_code(error::operation_aborted)); }
    bool open_ = false;
    io_context& c_;
    socket* peer = nullptr;
    Accepted done;
  };
};
}  // namespace ip
struct socket_base { static const int max_connections = 4096, max_listen_connections = 4096; };
template <typename H> void async_read(ip::tcp::socket& s, mutable_buffer b, H h) { s.start_read(b.p, b.n, Done(std::move(h))); }
template <typename H> void async_write(ip::tcp::socket& s, const_buffer b, H h) { s.start_write({b}, Done(std::move(h))); }
template <typename H, size_t N> void async_write(ip::tcp::socket& s, const std::array<const_buffer, N>& b, H h) {
  s.start_write(std::vector<const_buffer>(b.begin(), b.end()), Done(std::move(h)));
}
template <typename H> void async_write(ip::tcp::socket& s, const std::vector<const_buffer>& b, H h) { s.start_write(b, Done(std::move(h))); }
}  // namespace asio
namespace std {
template <> struct is_error_code_enum<asio::error::basic_errors> : true_type {};
template <> struct is_error_code_enum<asio::error::misc_errors> : true_type {};
}
