#include <memory>
#include <sstream>
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/iostream_adapters.h"
#include "arpc/object_name.h"
#include "arpc/string_adapters.h"
#include "pbt.h"
#include "streams.h"
using namespace arpc;

namespace {
std::string content(pbt::Case& c) {
  return c.src.coin() ? c.src.bytes(c.src.range<std::uint64_t>(0, 60)) : c.src.bytes_upto(3000);
}
struct In {
  std::unique_ptr<std::stringstream> ss;
  std::unique_ptr<chunk_inbuf> buf;
  std::unique_ptr<std::istream> is;
  std::unique_ptr<input_stream> in;
  string_input_stream* str = nullptr;
};
In make_in(pbt::Case& c, const std::string& data) {
  In r;
  switch (c.src.below(5)) {
    case 0:
      c.note("string_input_stream ");
      c.label("string");
      r.str = new string_input_stream(data);
      r.in.reset(r.str);
      break;
    case 1:
      c.note("istream(stringstream) ");
      c.label("istream");
      r.ss = std::make_unique<std::stringstream>(data);
      r.in = std::make_unique<istream_input_stream>(*r.ss);
      break;
    case 2:
      r.buf = std::make_unique<chunk_inbuf>(data, c.src.draw(~0ull >> 1), 1 + c.src.below(9));
      c.note("istream(chunked) ");
      c.label("istream-chunked");
      r.is = std::make_unique<std::istream>(r.buf.get());
      r.in = std::make_unique<istream_input_stream>(*r.is);
      break;
    case 3:
      c.note("getc-only ");
      c.label("getc-only");
      r.in = std::make_unique<getc_stream>(data);
      break;
    default:
      c.note("read-only ");
      c.label("read-only");
      r.in = std::make_unique<read_stream>(data);
  }
  return r;
}
}  // namespace

// Any interleaving of getc / read / read_fully against a cursor over the bytes,
// until and past the end of data.
PBT_ARM(input_history, 30000, 1500000) {
  auto data = content(c);
  auto r = make_in(c, data);
  c.note(data.size(), " bytes:");
  std::size_t pos = 0;
  bool at_end = false;
  auto ops = c.src.range<std::uint64_t>(1, 14);
  for (std::uint64_t i = 0; i < ops; i++) {
    auto left = data.size() - pos;
    switch (c.src.weighted({3, 4, 4, 1})) {
      case 0: {
        c.note(" getc");
        bool eof = false;
        char ch = 0;
        try {
          ch = r.in->getc();
        } catch (const errors::eof&) {
          eof = true;
        }
        PBT_CHECK(c, eof == (left == 0), "getc-eof", "at " << pos << " of " << data.size());
        if (!eof) {
          PBT_CHECK(c, ch == data[pos], "getc-value", "at " << pos);
          pos++;
        }
        at_end |= eof;
        break;
      }
      case 1: {
        std::size_t n = c.src.coin() ? c.src.range<std::uint64_t>(0, 12) : c.src.length(data.size() + 10);
        c.note(" read(", n, ")");
        std::vector<char> b(n + 2, 'x');
        std::size_t got = 0;
        got = r.in->read(b.data() + 1, n);
        PBT_CHECK(c, got <= n, "read-too-much", "asked " << n << " got " << got);
        PBT_CHECK(c, got == std::min(n, left), "read-count", "asked " << n << " with " << left << " left, got " << got);
        PBT_CHECK(c, std::equal(b.begin() + 1, b.begin() + 1 + got, data.begin() + pos), "read-value", "at " << pos);
        PBT_CHECK(c, b.front() == 'x' && b.back() == 'x', "read-overrun", "bytes around the buffer changed");
        pos += got;
        at_end |= got < n;
        break;
      }
      case 2: {
        std::size_t n = c.src.coin() ? c.src.range<std::uint64_t>(0, 12) : c.src.length(data.size() + 10);
        c.note(" read_fully(", n, ")");
        std::vector<char> b(n + 1, 'x');
        bool eof = false;
        try {
          r.in->read_fully(b.data(), n);
        } catch (const errors::eof&) {
          eof = true;
        }
        PBT_CHECK(c, eof == (n > left), "full-eof", "asked " << n << " with " << left << " left");
        if (eof) {
          // What was there has been consumed; nothing is left.
          pos = data.size();
          at_end = true;
        } else {
          PBT_CHECK(c, std::equal(b.begin(), b.begin() + n, data.begin() + pos), "full-value", "at " << pos);
          PBT_CHECK(c, b.back() == 'x', "full-overrun", "byte after the buffer changed");
          pos += n;
        }
        break;
      }
      default:
        if (r.str) {
          PBT_CHECK(c, r.str->pos() == pos, "pos", "pos " << r.str->pos() << " want " << pos);
          auto to = c.src.length(data.size() + 5);
          c.note(" pos(", to, ")");
          bool range = false;
          try {
            r.str->pos(to);
          } catch (const errors::out_of_range&) {
            range = true;
          }
          PBT_CHECK(c, range == (to > data.size()), "pos-range", "pos(" << to << ") of " << data.size());
          if (!range) pos = to;
          PBT_CHECK(c, r.str->pos() == pos, "pos", "pos " << r.str->pos() << " want " << pos);
        }
    }
  }
  c.nontrivial(data.size() > 1);
  if (at_end) c.label("reached-end");
}

PBT_ARM(initial_position, 3000, 100000) {
  auto data = content(c);
  auto at = c.src.length(data.size() + 8);
  c.note("string_input_stream(", data.size(), " bytes, ", at, ")");
  c.nontrivial(at > 0);
  bool range = false;
  try {
    string_input_stream in(data, at);
    PBT_CHECK(c, in.pos() == at, "pos", "pos " << in.pos());
    std::string rest(data.size() - at, '\0');
    in.read_fully(&rest[0], rest.size());
    PBT_CHECK(c, rest == data.substr(at), "rest", "wrong bytes");
    bool eof = false;
    try {
      in.getc();
    } catch (const errors::eof&) {
      eof = true;
    }
    PBT_CHECK(c, eof, "eof", "no end of file");
  } catch (const errors::out_of_range&) {
    range = true;
  }
  PBT_CHECK(c, range == (at > data.size()), "range", "at " << at << " of " << data.size());
}

// Any interleaving of putc / write / flush appends exactly the bytes given.
PBT_ARM(output_history, 30000, 1500000) {
  std::string sink, want;
  std::string pre = c.src.bytes(c.src.range<std::uint64_t>(0, 5));
  int kind = static_cast<int>(c.src.below(5));
  std::unique_ptr<std::stringstream> ss;
  std::unique_ptr<chunk_outbuf> buf;
  std::unique_ptr<std::ostream> os;
  std::unique_ptr<output_stream> out;
  switch (kind) {
    case 0:
      sink = want = pre;
      out = std::make_unique<string_output_stream>(sink);
      break;
    case 1:
      ss = std::make_unique<std::stringstream>();
      out = std::make_unique<ostream_output_stream>(*ss);
      break;
    case 2:
      buf = std::make_unique<chunk_outbuf>(sink, 1 + c.src.below(9));
      os = std::make_unique<std::ostream>(buf.get());
      out = std::make_unique<ostream_output_stream>(*os);
      break;
    case 3:
      out = std::make_unique<putc_stream>(sink);
      break;
    default:
      out = std::make_unique<write_stream>(sink);
  }
  static const char* names[] = {"string", "ostream", "ostream-chunked", "putc-only", "write-only"};
  c.label(names[kind]);
  c.note(names[kind], ":");
  auto seen = [&] { return kind == 1 ? ss->str() : sink; };
  auto ops = c.src.range<std::uint64_t>(1, 14);
  for (std::uint64_t i = 0; i < ops; i++) {
    switch (c.src.weighted({4, 5, 2})) {
      case 0: {
        char ch = static_cast<char>(c.src.byte());
        c.note(" putc");
        out->putc(ch);
        want.push_back(ch);
        break;
      }
      case 1: {
        auto s = c.src.coin() ? c.src.bytes(c.src.range<std::uint64_t>(0, 12)) : c.src.bytes_upto(2000);
        s.shrink_to_fit();
        c.note(" write(", s.size(), ")");
        out->write(s.data(), s.size());
        want += s;
        break;
      }
      default:
        c.note(" flush");
        out->flush();
        PBT_CHECK(c, seen() == want, "flushed", "after flush " << seen().size() << " of " << want.size() << " bytes");
    }
    if (kind == 0 || kind > 2) PBT_CHECK(c, sink == want, "written", "sink differs after operation " << i);
  }
  c.nontrivial(want.size() > 1);
  out.reset();  // flushes
  PBT_CHECK(c, seen() == want, "final", "got " << pbt::hex(seen()) << " want " << pbt::hex(want));
}

namespace {
struct bad_buf : std::streambuf {
  std::string taken;
  std::size_t limit;
  explicit bad_buf(std::size_t l) : limit(l) {}
  int_type overflow(int_type ch) override {
    if (taken.size() >= limit || ch == traits_type::eof()) return traits_type::eof();
    taken.push_back(static_cast<char>(ch));
    return ch;
  }
};
}  // namespace

// A sink that stops accepting: the adapter reports it and never silently drops.
PBT_ARM(failing_sink, 4000, 200000) {
  bad_buf b(c.src.range<std::uint64_t>(0, 30));
  std::ostream os(&b);
  std::string want;
  bool failed = false;
  {
    ostream_output_stream out(os);
    auto ops = c.src.range<std::uint64_t>(1, 10);
    c.note("sink accepts ", b.limit, " bytes:");
    for (std::uint64_t i = 0; i < ops && !failed; i++) {
      auto s = c.src.bytes(c.src.range<std::uint64_t>(1, 8));
      bool single = c.src.coin();
      if (single) s.resize(1);
      c.note(single ? " putc" : " write(", single ? std::string() : std::to_string(s.size()) + ")");
      want += s;
      try {
        if (single)
          out.putc(s[0]);
        else
          out.write(s.data(), s.size());
      } catch (const errors::io_error&) {
        failed = true;
      }
      PBT_CHECK(c, failed == (want.size() > b.limit), "failure", "wrote " << want.size() << " limit " << b.limit);
    }
  }
  c.nontrivial(failed);
  PBT_CHECK(c, b.taken == want.substr(0, b.limit), "prefix", "sink has " << pbt::hex(b.taken));
}

// object_name: the bytes the encoder writes for the value, each time the same.
PBT_ARM(object_names, 4000, 200000) {
  auto s = c.src.bytes_upto(300);
  auto i = c.src.integer<std::int32_t>();
  c.note("object_name(", pbt::hex(s), ") and of pair<int, string>");
  c.nontrivial(!s.empty());
  auto n = object_name<little_endian_binary_encoder>(s);
  std::string back;
  string_input_stream in(n);
  little_endian_binary_decoder d(in);
  d(back);
  PBT_CHECK(c, back == s && in.pos() == n.size(), "name-back", "name " << pbt::hex(n));
  std::pair<std::int32_t, std::string> p(i, s), q;
  auto np = object_name<big_endian_binary_encoder>(p);
  string_input_stream in2(np);
  big_endian_binary_decoder d2(in2);
  d2(q);
  PBT_CHECK(c, q == p && in2.pos() == np.size(), "name-back", "name " << pbt::hex(np));
  PBT_CHECK(c, object_name<little_endian_binary_encoder>(s) == n, "name-repeat", "a second name differs");
}
