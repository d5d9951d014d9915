// Test streams: a streambuf that serves and accepts bytes in chosen chunks, and
// library streams that override just one of the two primitive operations.
#ifndef VERIF_STREAMS_H_
#define VERIF_STREAMS_H_
#include <istream>
#include <ostream>
#include <streambuf>
#include <string>
#include "arpc/errors.h"
#include "arpc/io_adapters.h"
#include "pbt.h"

class chunk_inbuf : public std::streambuf {
 public:
  chunk_inbuf(const std::string& s, std::uint64_t seed, std::size_t max_chunk) : s_(s), st_(seed), max_(max_chunk) {}

 protected:
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (pos_ >= s_.size()) return traits_type::eof();
    std::size_t n = 1 + pbt::splitmix(st_) % max_;
    n = std::min(n, s_.size() - pos_);
    buf_ = s_.substr(pos_, n);
    pos_ += n;
    setg(&buf_[0], &buf_[0], &buf_[0] + n);
    return traits_type::to_int_type(*gptr());
  }

 private:
  const std::string& s_;
  std::string buf_;
  std::size_t pos_ = 0;
  std::uint64_t st_;
  std::size_t max_;
};

class chunk_outbuf : public std::streambuf {
 public:
  chunk_outbuf(std::string& s, std::size_t size) : s_(s), buf_(size, 0) { setp(&buf_[0], &buf_[0] + size); }
  ~chunk_outbuf() override { sync(); }

 protected:
  int_type overflow(int_type c) override {
    sync();
    if (c != traits_type::eof()) sputc(static_cast<char>(c));
    return 0;
  }
  int sync() override {
    s_.append(pbase(), pptr());
    setp(&buf_[0], &buf_[0] + buf_.size());
    return 0;
  }

 private:
  std::string& s_;
  std::string buf_;
};

/// Only getc() of its own: read() is the base class's.
class getc_stream : public arpc::input_stream {
 public:
  explicit getc_stream(const std::string& s) : s_(s) {}
  std::size_t read(char* p, std::size_t l) override { return arpc::input_stream::read(p, l); }
  char getc() override {
    if (pos_ >= s_.size()) throw arpc::errors::eof("EOF");
    return s_[pos_++];
  }

 private:
  const std::string& s_;
  std::size_t pos_ = 0;
};
/// Only read() of its own: getc() is the base class's.
class read_stream : public arpc::input_stream {
 public:
  explicit read_stream(const std::string& s) : s_(s) {}
  std::size_t read(char* p, std::size_t l) override {
    l = std::min(l, s_.size() - pos_);
    std::memcpy(p, s_.data() + pos_, l);
    pos_ += l;
    return l;
  }
  char getc() override { return arpc::input_stream::getc(); }

 private:
  const std::string& s_;
  std::size_t pos_ = 0;
};
class putc_stream : public arpc::output_stream {
 public:
  explicit putc_stream(std::string& s) : s_(s) {}
  void write(const char* p, std::size_t l) override { arpc::output_stream::write(p, l); }
  void putc(char c) override { s_.push_back(c); }
  void flush() override { flushes++; }
  int flushes = 0;

 private:
  std::string& s_;
};
class write_stream : public arpc::output_stream {
 public:
  explicit write_stream(std::string& s) : s_(s) {}
  void write(const char* p, std::size_t l) override { s_.append(p, l); }
  void putc(char c) override { arpc::output_stream::putc(c); }
  void flush() override { flushes++; }
  int flushes = 0;

 private:
  std::string& s_;
};
#endif
