// Stand-in for the file streams of the standard library: one file on a disk that the harness lets fail.
#pragma once
#include <fstream>
#include <istream>
#include <ostream>
#include <streambuf>
#include <string>
struct verif_disk_t {
  std::string path;            // the file
  bool exists = false;
  std::string content;
  bool open_fails = false;     // opening is refused
  size_t readable = ~(size_t)0;   // reading stops (end, or error) after so many characters
  size_t writable = ~(size_t)0;   // writing stops after so many
  bool late = false;           // a failing write shows only when the stream is flushed or closed
  bool close_fails = false;
  int opens = 0, open_now = 0;
};
extern verif_disk_t verif_disk;
namespace std {
class verif_filebuf : public streambuf {
 public:
  verif_filebuf() {}
  ~verif_filebuf() { close(); }
  bool is_open() const { return open_; }
  verif_filebuf* open(const char* p, ios_base::openmode m) {
    if (open_) return nullptr;
    verif_disk_t& d = verif_disk;
    ++d.opens;
    bool out = (m & ios_base::out) || (m & ios_base::app), in = m & ios_base::in;
    if (d.open_fails || d.path != p || d.path.empty() || d.path.back() == '/' || (!out && !d.exists) || (out && in && !(m & (ios_base::trunc | ios_base::app)) && !d.exists)) return nullptr;
    if (out && (!in || (m & ios_base::trunc)) && !(m & ios_base::app)) d.content.clear();
    d.exists = true;
    open_ = true; mode_ = m; pos_ = (m & (ios_base::app | ios_base::ate)) ? d.content.size() : 0; failed_ = false;
    ++d.open_now;
    return this;
  }
  verif_filebuf* open(const string& p, ios_base::openmode m) { return open(p.c_str(), m); }
  verif_filebuf* close() {
    if (!open_) return nullptr;
    open_ = false;
    --verif_disk.open_now;
    return failed_ || verif_disk.close_fails ? nullptr : this;
  }
 protected:
  bool can_read() const { return open_ && (mode_ & ios_base::in) && pos_ < verif_disk.content.size() && pos_ < verif_disk.readable; }
  int_type underflow() override {
    if (!can_read()) return traits_type::eof();
    c_ = verif_disk.content[pos_];
    return traits_type::to_int_type(c_);
  }
  int_type uflow() override { int_type r = underflow(); if (r != traits_type::eof()) ++pos_; return r; }
  streamsize xsgetn(char* to, streamsize n) override {
    streamsize i = 0;
    for (; i < n && can_read(); ++i) to[i] = verif_disk.content[pos_++];
    return i;
  }
  streamsize showmanyc() override { return can_read() ? 1 : -1; }
  bool put(char c) {
    verif_disk_t& d = verif_disk;
    if (!open_ || !(mode_ & (ios_base::out | ios_base::app))) return false;
    if (pos_ >= d.writable || failed_) { failed_ = true; return d.late; }
    if (pos_ < d.content.size()) d.content[pos_] = c; else d.content += c;
    ++pos_;
    return true;
  }
  int_type overflow(int_type c) override { return c == traits_type::eof() ? traits_type::not_eof(c) : put((char)c) ? c : traits_type::eof(); }
  streamsize xsputn(const char* s, streamsize n) override { for (streamsize i = 0; i < n; ++i) if (!put(s[i])) return i; return n; }
  int sync() override { return failed_ ? -1 : 0; }
  pos_type seekoff(off_type o, ios_base::seekdir w, ios_base::openmode) override {
    if (!open_) return pos_type(off_type(-1));
    off_type base = w == ios_base::beg ? 0 : w == ios_base::end ? (off_type)verif_disk.content.size() : (off_type)pos_;
    if (base + o < 0) return pos_type(off_type(-1));
    pos_ = (size_t)(base + o);
    return pos_type((off_type)pos_);
  }
  pos_type seekpos(pos_type p, ios_base::openmode m) override { return seekoff(off_type(p), ios_base::beg, m); }
 private:
  bool open_ = false, failed_ = false;
  ios_base::openmode mode_ = ios_base::openmode(0);
  size_t pos_ = 0;
  char c_ = 0;
};
template <typename B, int M> class verif_fstream_t : public B {
 public:
  verif_fstream_t() : B(nullptr) { this->init(&buf_); }
  explicit verif_fstream_t(const char* p, ios_base::openmode m = ios_base::openmode(M)) : B(nullptr) { this->init(&buf_); open(p, m); }
  explicit verif_fstream_t(const string& p, ios_base::openmode m = ios_base::openmode(M)) : verif_fstream_t(p.c_str(), m) {}
  void open(const char* p, ios_base::openmode m = ios_base::openmode(M)) { if (buf_.open(p, m | ios_base::openmode(M & ~(int)ios_base::trunc))) this->clear(); else this->setstate(ios_base::failbit); }
  void open(const string& p, ios_base::openmode m = ios_base::openmode(M)) { open(p.c_str(), m); }
  bool is_open() const { return buf_.is_open(); }
  void close() { if (!buf_.close()) this->setstate(ios_base::failbit); }
  verif_filebuf* rdbuf() const { return const_cast<verif_filebuf*>(&buf_); }
 private:
  verif_filebuf buf_;
};
typedef verif_fstream_t<istream, (int)ios_base::in> verif_ifstream;
typedef verif_fstream_t<ostream, (int)ios_base::out> verif_ofstream;
typedef verif_fstream_t<iostream, (int)ios_base::in | (int)ios_base::out> verif_fstream;
}
#define ifstream verif_ifstream
#define ofstream verif_ofstream
