// What the logging code uses of the system: the terminal, files, the calendar and the network stream.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <streambuf>
#include <string>
#include <system_error>
#include <unistd.h>
#define ASIO_IP_TCP_HPP
// the network: who was called, what was sent, and what comes back
struct verif_net { bool down = true; std::string peer, sent, reply; int calls = 0; };
extern struct verif_net* verif_network;
class verif_net_buf : public std::streambuf {
 public:
  void connected() { up_ = true; in_ = verif_network->reply; setg(&in_[0], &in_[0], &in_[0] + in_.size()); }
  void gone() { up_ = false; setg(nullptr, nullptr, nullptr); }
 protected:
  int_type overflow(int_type c) override { if (!up_) return traits_type::eof(); if (c != traits_type::eof()) verif_network->sent += (char)c; return 1; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { if (!up_) return 0; verif_network->sent.append(s, n); return n; }
 private:
  bool up_ = false;
  std::string in_;
};
namespace asio { namespace ip { class tcp { public:
  struct iostream : public std::iostream {
    iostream() : std::iostream(nullptr) { init(&b_); }
    void connect(const std::string& name, const std::string& port) {
      ++verif_network->calls;
      verif_network->peer = name + ":" + port;
      if (verif_network->down) { b_.gone(); setstate(std::ios_base::failbit); } else { b_.connected(); }
    }
    std::error_code error() const { return std::error_code(); }
   private:
    verif_net_buf b_;
  };
}; } }
struct verif_log_file { std::string content; bool bad = false; };
extern std::map<std::string, verif_log_file>* verif_log_files;
extern bool verif_config_there;
extern "C" int verif_printf(const char* format, ...);
extern "C" int verif_isatty(int);
namespace std {
size_t verif_strftime(char* to, size_t n, const char* format, const tm* t);
char* verif_getenv(const char*);
struct tm* verif_gmtime(const time_t*);
struct tm* verif_localtime(const time_t*);
class verif_log_buf : public streambuf {
 public:
  verif_log_file* f = nullptr;
 protected:
  int_type overflow(int_type c) override { if (!f) return traits_type::eof(); if (c != traits_type::eof()) f->content += (char)c; return 1; }
  streamsize xsputn(const char* s, streamsize n) override { if (!f) return 0; f->content.append(s, n); return n; }
};
class verif_ofstream : public ostream {
 public:
  verif_ofstream() : ostream(nullptr) { init(&b_); }
  explicit verif_ofstream(const char* p, ios_base::openmode m = ios_base::out) : ostream(nullptr) { init(&b_); open(p, m); }
  explicit verif_ofstream(const string& p, ios_base::openmode m = ios_base::out) : verif_ofstream(p.c_str(), m) {}
  void open(const char* p, ios_base::openmode m = ios_base::out) {
    verif_log_file& f = (*verif_log_files)[p];
    if (f.bad) { setstate(ios_base::failbit); return; }
    if (!(m & ios_base::app)) f.content.clear();
    b_.f = &f;
    clear();
  }
  void open(const string& p, ios_base::openmode m = ios_base::out) { open(p.c_str(), m); }
  bool is_open() const { return b_.f != nullptr; }
  void close() { if (!b_.f) setstate(ios_base::failbit); b_.f = nullptr; }
 private:
  verif_log_buf b_;
};
class verif_ifstream : public istream {
 public:
  explicit verif_ifstream(const char* p, ios_base::openmode = ios_base::in) : istream(nullptr) { init(&b_); if (!verif_config_there || string(p) != "/cfg") setstate(ios_base::failbit); }
  explicit verif_ifstream(const string& p, ios_base::openmode m = ios_base::in) : verif_ifstream(p.c_str(), m) {}
 private:
  verif_log_buf b_;
};
}
#define ofstream verif_ofstream
#define ifstream verif_ifstream
#define printf verif_printf
#define isatty verif_isatty
#define strftime verif_strftime
#define getenv verif_getenv
#define gmtime verif_gmtime
#define localtime verif_localtime
#undef fileno
#define fileno(f) 1
