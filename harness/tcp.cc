// tcp::Connection and tcp::Listener over a stand-in for asio in which the harness completes operations in any order.
#include "util.h"
#include "asio_sim.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"
#include "maidsafe/common/config.h"
using namespace maidsafe;
using tcp::Connection;
typedef std::vector<byte> Bytes;
typedef asio::ip::tcp::socket Socket;
static Bytes frame(const Bytes& m) {
  Bytes f;
  for (int i = 3; i >= 0; --i) f.push_back((byte)(m.size() >> (8 * i)));
  f.insert(f.end(), m.begin(), m.end());
  return f;
}
struct World {
  asio::io_context io;
  asio::io_context::strand strand{io};
  tcp::ConnectionPtr c;
  Bytes in, out;
  size_t at = 0;
  bool ended = false;      // nothing more will come: end of file once all is read
  int faults = 0;          // how many operations may still fail
  bool failed = false;
  std::vector<Bytes> got;
  int closed = 0;
  Socket* s = nullptr;
  std::function<void()> user[6];
  int users = 0;

  void watch() { io.watched = &strand; s = &c->Socket(); }
  void start() {
    c->Start([this](tcp::Message m) { got.push_back(Bytes(m.begin(), m.end())); }, [this] { ++closed; });
  }
  // one of the things that can happen next; false if nothing can
  bool step() {
    int t = (int)io.tasks.size(), st = strand.tasks.empty() ? 0 : 1;
    bool alive = !Socket::all().empty();
    int rd = alive && s->reading && (at + s->read.n <= in.size() || ended), wr = alive && s->writing, us = users > 0;
    int rf = faults > 0 && alive && s->reading, wf = faults > 0 && wr;
    int total = t + st + rd + wr + us + rf + wf;
    if (!total) return false;
    int k = total == 1 ? 0 : sym_choose("next", total);
    if (k < t) { io.run_task(k); return true; }
    k -= t;
    if (k < st) { io.run_strand(strand); return true; }
    k -= st;
    if (k < rd) { read(); return true; }
    k -= rd;
    if (k < wr) {
      Bytes now = Socket::flat(s->write.b);
      CHECK(same_content(now, s->write.start), "what is being sent does not change meanwhile");
      out.insert(out.end(), now.begin(), now.end());
      s->finish_write(std::error_code(), now.size());
      return true;
    }
    k -= wr;
    if (k < us) { --users; user[users](); return true; }
    k -= us;
    --faults;
    failed = true;
    if (k < rf) s->finish_read(asio::error::connection_reset, 0);
    else s->finish_write(asio::error::broken_pipe, 0);
    return true;
  }
  void read() {
    size_t n = s->read.n;
    if (at + n > in.size()) {
      s->finish_read(asio::error::eof, in.size() - at);
      at = in.size();
      return;
    }
    if (n) memcpy(s->read.p, in.data() + at, n);
    at += n;
    s->finish_read(std::error_code(), n);
  }
  void settle(int most = 80) {
    while (step()) CHECK(--most > 0, "everything comes to an end");
  }
  void closes() {
    CHECK(closed == 1, "closing is reported once");
    CHECK(!s->is_open() && s->closed == 1, "and the socket is closed");
    CHECK(!s->reading && !s->writing, "with nothing under way");
    c->Close();
    c->Close();
    settle();
    CHECK(closed == 1 && s->closed == 1, "closing again changes nothing");
    std::weak_ptr<Connection> w(c);
    c.reset();
    CHECK(w.expired(), "nothing keeps a closed connection alive");
    io.watched = nullptr;
  }
  void delivered(const std::vector<Bytes>& sent, bool all) {
    CHECK(got.size() <= sent.size(), "nothing but the messages is passed on");
    for (size_t i = 0; i < got.size(); ++i) CHECK(same_content(got[i], sent[i]), "the messages are passed on in order");
    if (all) CHECK(got.size() == sent.size(), "every message is passed on");
  }
};
static void accepted(World& w) {
  w.c = Connection::MakeShared(w.strand);
  w.c->Socket().open = w.c->Socket().connected = true;
  w.watch();
}
static std::vector<Bytes> messages(long sizes, const char* name) {
  std::vector<Bytes> m;
  for (; sizes > 0; sizes /= 10) m.push_back(sym_vec(name, sizes % 10));
  return m;
}
// the peer sends messages of the given sizes, then: 0 ends, 1 ends inside a header, 2 ends inside a message, 3 sends a size
// beyond the limit, 4 nothing more (and this side closes at any time)
extern "C" void rx(long arg) {
  World w;
  accepted(w);
  long tail = arg % 10;
  std::vector<Bytes> sent = messages(arg / 10, "message");
  for (auto& m : sent) { Bytes f = frame(m); w.in.insert(w.in.end(), f.begin(), f.end()); }
  w.ended = tail != 4;
  if (tail == 1) w.in.resize(w.in.size() + 1 + sym_choose("cut", 3));
  if (tail == 2) { Bytes f = frame(Bytes(3, 7)); w.in.insert(w.in.end(), f.begin(), f.begin() + 4 + sym_choose("cut", 3)); }
  if (tail == 3) {
    uint32_t size = sym_u32("size");
    sym_assume(size > 1024 * 1024);
    for (int i = 3; i >= 0; --i) w.in.push_back((byte)(size >> (8 * i)));
    w.in.resize(w.in.size() + 5);
    w.ended = false;
  }
  if (tail == 4) { w.user[0] = [&w] { w.c->Close(); }; w.users = 1; }
  w.start();
  w.start();
  w.settle();
  w.delivered(sent, tail != 4);
  if (tail == 3) CHECK(w.at + 5 == w.in.size(), "nothing is read after the bad size");
  w.closes();
  REACH("received");
}
// the same with one operation failing at any time
extern "C" void rx_fault(long arg) {
  World w;
  accepted(w);
  std::vector<Bytes> sent = messages(arg, "message");
  for (auto& m : sent) { Bytes f = frame(m); w.in.insert(w.in.end(), f.begin(), f.end()); }
  w.ended = true;
  w.faults = 1;
  w.start();
  w.settle();
  w.delivered(sent, !w.failed);
  w.closes();
  REACH("received");
}
// sizes of which only the beginning matters: what is asked of the socket for the body
extern "C" void rx_size(long size) {
  World w;
  accepted(w);
  for (int i = 3; i >= 0; --i) w.in.push_back((byte)((uint64_t)size >> (8 * i)));
  w.start();
  w.settle();
  if (size > 1024 * 1024) {
    w.closes();
    REACH("size");
    return;
  }
  CHECK(w.s->reading && w.s->read.n == (size_t)size && w.closed == 0, "exactly the message is asked for");
  w.ended = true;
  w.settle();
  CHECK(w.got.empty(), "half a message is not passed on");
  w.closes();
  REACH("size");
}
// messages are sent from outside at any time, while one comes in; faults: 10 writes or reads fail
extern "C" void tx(long arg) {
  World w;
  accepted(w);
  long k = arg % 10;
  w.faults = (int)(arg / 10 % 10);
  bool close = arg >= 100;
  std::vector<Bytes> sent;
  Bytes want;
  for (long i = 0; i < k; ++i) {
    sent.push_back(sym_vec("message", 1 + i % 2));
    Bytes f = frame(sent[i]);
    want.insert(want.end(), f.begin(), f.end());
  }
  w.start();
  for (long i = 0; i < k; ++i) w.user[k - 1 - i] = [&w, &sent, i] { w.c->Send(tcp::Message(sent[i].begin(), sent[i].end())); };
  w.users = (int)k;
  if (close) { w.user[0] = [&w] { w.c->Close(); }; }
  w.settle();
  if (!w.failed && !close) {
    CHECK(same_content(w.out, want), "the frames are sent in order");
    CHECK(w.closed == 0 && w.s->is_open(), "and the connection stays open");
    w.c->Close();
    w.settle();
  } else {
    CHECK(w.out.size() <= want.size(), "nothing but the frames is sent");
    want.resize(w.out.size());
    CHECK(same_content(w.out, want), "what is sent is sent in order");
    size_t left = w.out.size();
    for (long i = 0; left > 0 && i < k; ++i) { CHECK(left >= 4 + sent[i].size(), "whole frames"); left -= 4 + sent[i].size(); }
  }
  w.closes();
  REACH("sent");
}
extern "C" void tx_size(long size) {
  World w;
  accepted(w);
  w.start();
  tcp::Message m(size, (byte)5);
  if (size == 0 || size > 1024 * 1024) {
    int r = size ? outcome([&] { w.c->Send(m); }, make_error_code(VaultManagerErrors::ipc_message_too_large)) : outcome([&] { w.c->Send(m); }, CommonErrors::outside_of_bounds);
    CHECK(r == 1, "such messages are refused");
    w.settle();
    CHECK(w.out.empty() && w.closed == 0 && !w.s->writing, "and nothing happens");
    REACH("size");
    return;
  }
  w.c->Send(m);
  while (!w.s->writing && w.step()) {}
  CHECK(w.s->writing && w.s->write.start.size() == 4 + (size_t)size, "the message is sent with its size");
  for (int i = 0; i < 4; ++i) CHECK(w.s->write.start[i] == (byte)((uint64_t)size >> (8 * (3 - i))), "which comes first, most significant byte first");
  CHECK(w.s->write.start[4] == 5 && w.s->write.start[3 + size] == 5, "followed by the message");
  w.s->finish_write(std::error_code(), 4 + size);
  w.settle();
  w.c->Close();
  w.settle();
  w.closes();
  REACH("size");
}
static std::error_code any_error(const char* what) {
  switch (sym_choose(what, 3)) {
    case 0: return std::error_code();
    case 1: return asio::error::address_family_not_supported;
    default: break;
  }
  int e = sym_i32("errno");
  sym_assume(e != 0 && e != EAFNOSUPPORT);
  return std::error_code(e, asio::error::get_system_category());
}
extern "C" void conn(long) {
  World w;
  uint16_t port = sym_u16("port");
  int six = 0, four = 0;
  std::error_code first, second, remote;
  asio::network().connect = [&](const asio::ip::address& a, unsigned short p) {
    CHECK(p == port, "the wanted port");
    if (a.is_v6()) {
      CHECK(a.to_v6().to_bytes() == asio::ip::address_v6::loopback().to_bytes(), "on this machine");
      ++six;
      CHECK(four == 0, "first");
      return first = any_error("six");
    }
    CHECK(a.to_v4().to_ulong() == 0x7f000001, "on this machine");
    ++four;
    return second = any_error("four");
  };
  asio::network().remote_endpoint = [&] { return remote = any_error("remote"); };
  int r = outcome([&] { w.c = Connection::MakeShared(w.strand, port); }, make_error_code(VaultManagerErrors::failed_to_connect));
  bool retried = first == asio::error::address_family_not_supported;
  CHECK(six == 1 && four == (retried ? 1 : 0), "the older protocol is tried when the newer is not there");
  bool ok = !(retried ? second : first) && !remote;
  CHECK(r == (ok ? 0 : 1), "a connection is made or refused");
  if (ok) { REACH("connected"); CHECK(w.c->Socket().is_open(), "connected"); } else REACH("refused");
  asio::network() = asio::Network();
}
// listening: which steps fail is chosen; the first port that works is taken
extern "C" void listen_ports(long arg) {
  asio::io_context io;
  asio::io_context::strand strand(io);
  uint16_t desired = (uint16_t)arg;
  unsigned tried = 0, succeeded = ~0u;
  bool six_there = sym_bool("IPv6");
  unsigned good = (unsigned)sym_choose("good", 13);
  int how = sym_choose("how", 4);
  asio::network().listen = [&](const char* step, bool six, unsigned short port) {
    std::string s(step);
    if (s == "open") {
      if (six && !six_there) return asio::error::make_error_code(asio::error::address_family_not_supported);
      if (!six) CHECK(!six_there, "IPv4 only if there is no IPv6");
      ++tried;
      if (tried - 1 != good && how == 0) return asio::error::make_error_code(asio::error::address_in_use);
      return std::error_code();
    }
    if (s == "bind") CHECK(port == desired + tried - 1, "one port after the other");
    bool fails = tried - 1 != good && ((how == 1 && s == "option") || (how == 2 && s == "bind") || (how == 3 && s == "listen"));
    if (s == "listen" && !fails) succeeded = port;
    return fails ? asio::error::make_error_code(asio::error::address_in_use) : std::error_code();
  };
  tcp::ListenerPtr l;
  int r = outcome([&] { l = tcp::Listener::MakeShared(strand, [](tcp::ConnectionPtr) {}, desired); }, make_error_code(VaultManagerErrors::failed_to_listen));
  unsigned last = (unsigned)desired + 10 > 65535 ? 65535 : desired + 10;
  bool ok = desired + good <= last;
  CHECK(r == (ok ? 0 : 1), "listening starts on one of the ports or is refused");
  if (ok) {
    CHECK(l->ListeningPort() == desired + good && succeeded == desired + good, "the first free port");
    auto* a = asio::ip::tcp::acceptor::the();
    CHECK(a->is_open() && a->listening && a->accepting && a->six == six_there, "and connections are accepted");
    REACH("listening");
  } else {
    CHECK(tried == last - desired + 1, "after every port was tried");
    REACH("refused");
  }
  asio::network() = asio::Network();
  l.reset();
  io.tasks.clear();
}
// connections come in or fail to, and listening is stopped at any time (once or twice), the listener being dropped or not
extern "C" void listening(long k) {
  asio::io_context io;
  asio::io_context::strand strand(io);
  std::vector<tcp::ConnectionPtr> conns;
  bool stopping = false;
  int late = 0, good = 0;
  tcp::ListenerPtr l = tcp::Listener::MakeShared(strand, [&](tcp::ConnectionPtr c) { conns.push_back(c); }, 5000);
  io.watched = &strand;
  int events = (int)k, stops = 2;
  for (int most = 60;;) {
    CHECK(--most > 0, "everything comes to an end");
    auto* a = asio::ip::tcp::acceptor::the();
    int t = (int)io.tasks.size(), st = strand.tasks.empty() ? 0 : 1, ac = a && a->accepting && events > 0 ? 2 : 0, sp = stops > 0 ? 1 : 0;
    int total = t + st + ac + sp;
    if (!total) break;
    int n = total == 1 ? 0 : sym_choose("next", total);
    if (n < t) { io.run_task(n); continue; }
    n -= t;
    if (n < st) { io.run_strand(strand); continue; }
    n -= st;
    if (n < ac) {
      --events;
      if (n == 0) ++good;
      a->finish(n == 0 ? std::error_code() : asio::error::make_error_code(asio::error::connection_reset));
      if (stopping) late += n == 0;
      continue;
    }
    --stops;
    stopping = true;
    l->StopListening();
    if (stops == 0) l.reset();
  }
  io.watched = nullptr;
  CHECK((int)conns.size() <= good && (int)conns.size() + 1 >= good - late, "every connection is handed on");
  for (auto& c : conns) CHECK(c && c->Socket().connected, "a connected one");
  CHECK(!asio::ip::tcp::acceptor::the(), "nothing keeps a stopped listener alive");
  REACH("stopped");
}
// every message is sent back from the callback; the last digit: an operation may fail, or this side closes at any time
extern "C" void echo(long arg) {
  World w;
  accepted(w);
  std::vector<Bytes> sent = messages(arg / 10, "message");
  for (auto& m : sent) { Bytes f = frame(m); w.in.insert(w.in.end(), f.begin(), f.end()); }
  w.faults = arg % 10 == 1;
  if (arg % 10 == 2) { w.user[0] = [&w] { w.c->Close(); }; w.users = 1; }
  Connection* c = w.c.get();
  w.c->Start([&w, c](tcp::Message m) { w.got.push_back(Bytes(m.begin(), m.end())); c->Send(std::move(m)); }, [&w, c] { ++w.closed; c->Close(); });
  w.settle();
  bool whole = !w.failed && arg % 10 != 2;
  w.delivered(sent, whole);
  CHECK(w.out.size() <= w.in.size(), "nothing but the messages is sent back");
  Bytes begin(w.in.begin(), w.in.begin() + w.out.size());
  CHECK(same_content(w.out, begin), "in order");
  if (whole) {
    CHECK(w.out.size() == w.in.size() && w.closed == 0, "all of them");
    w.c->Close();
    w.settle();
  }
  w.closes();
  REACH("echoed");
}
