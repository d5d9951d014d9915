#include <memory>
#include "arpc/iostream_adapters.h"
#include "arpc/packet_protocols.h"
#include "arpc/string_adapters.h"
#include "cobs_ref.h"
#include "hash_ref.h"
#include "pbt.h"
#include "streams.h"
using namespace arpc;

namespace {
std::vector<std::string> gen_packets(pbt::Case& c, std::size_t max_len) {
  std::vector<std::string> v;
  auto n = c.src.range<std::uint64_t>(0, 6);
  for (std::uint64_t i = 0; i < n; i++) {
    v.push_back(c.src.bytes_upto(max_len));
  }
  return v;
}
struct In {
  std::unique_ptr<chunk_inbuf> buf;
  std::unique_ptr<std::istream> is;
  std::unique_ptr<input_stream> in;
};
In make_in(pbt::Case& c, const std::string& data) {
  In r;
  switch (c.src.below(4)) {
    case 0:
      r.in = std::make_unique<string_input_stream>(data);
      break;
    case 1:
      r.buf = std::make_unique<chunk_inbuf>(data, c.src.draw(~0ull >> 1), 1 + c.src.below(40));
      r.is = std::make_unique<std::istream>(r.buf.get());
      r.in = std::make_unique<istream_input_stream>(*r.is);
      break;
    case 2:
      r.in = std::make_unique<getc_stream>(data);
      break;
    default:
      r.in = std::make_unique<read_stream>(data);
  }
  return r;
}
/// 1 packet, 0 end of file, -1 data_mismatch, -2 out_of_range, -3 something else
template <typename P>
int receive(P& p, input_stream& in, std::string& packet, std::string& what) {
  try {
    packet = p.receive(in);
    return 1;
  } catch (const errors::eof&) {
    return 0;
  } catch (const errors::data_mismatch&) {
    return -1;
  } catch (const errors::out_of_range&) {
    return -2;
  } catch (const std::exception& e) {
    what = e.what();
    return -3;
  }
}
template <typename P>
void intact(pbt::Case& c, const char* name) {
  auto packets = gen_packets(c, 1500);
  c.note(name, " packets of sizes");
  std::size_t total = 0;
  P sender, receiver;
  std::string wire;
  {
    std::unique_ptr<chunk_outbuf> ob;
    std::unique_ptr<std::ostream> os;
    std::unique_ptr<output_stream> out;
    switch (c.src.below(3)) {
      case 0:
        out = std::make_unique<string_output_stream>(wire);
        break;
      case 1:
        ob = std::make_unique<chunk_outbuf>(wire, 1 + c.src.below(40));
        os = std::make_unique<std::ostream>(ob.get());
        out = std::make_unique<ostream_output_stream>(*os);
        break;
      default:
        out = std::make_unique<putc_stream>(wire);
    }
    for (auto& p : packets) {
      c.note(" ", p.size());
      total += p.size();
      auto before = wire.size();
      sender.send(*out, p);
      PBT_CHECK(c, wire.size() > before, "not-flushed", "nothing was flushed to the stream by send");
    }
  }
  c.nontrivial(packets.size() > 1 || total > 127);
  if (total > 127) c.label("long");
  auto in = make_in(c, wire);
  std::string got, what;
  for (std::size_t i = 0; i < packets.size(); i++) {
    int r = receive(receiver, *in.in, got, what);
    PBT_CHECK(c, r == 1, "lost", "packet " << i << " of " << packets.size() << ": outcome " << r << " " << what);
    PBT_CHECK(c, got == packets[i], "changed", "packet " << i << " received as " << pbt::hex(got));
  }
  for (int k = 0; k < 2; k++) {
    int r = receive(receiver, *in.in, got, what);
    PBT_CHECK(c, r == 0, "no-eof", "after the last packet: outcome " << r << " " << what);
  }
}
}  // namespace

PBT_ARM(serial_intact, 8000, 400000) { intact<serial_line_packet_protocol<>>(c, "serial"); }
PBT_ARM(stream_le_intact, 6000, 300000) { intact<protected_stream_packet_protocol<>>(c, "stream-le"); }
PBT_ARM(stream_be_intact, 6000, 300000) {
  intact<protected_stream_packet_protocol<big_endian_binary_encoder, big_endian_binary_decoder>>(c, "stream-be");
}

namespace {
constexpr std::size_t no_limit = std::numeric_limits<std::size_t>::max();
/// Reference for the frames on a serial line.
bool ref_frame(const std::string& frame, std::string& payload) {
  std::string d;
  if (!cobs_ref::decode(frame, d) || d.size() < 8) return false;
  static const std::uint64_t key[4] = {mac_codec::default_key[0], mac_codec::default_key[1], mac_codec::default_key[2],
                                       mac_codec::default_key[3]};
  payload = d.substr(0, d.size() - 8);
  auto h = hash_ref::h64(payload, key);
  for (int i = 0; i < 8; i++)
    if (d[d.size() - 8 + i] != static_cast<char>(h >> (8 * i))) return false;
  return true;
}

template <std::size_t limit>
void damaged(pbt::Case& c) {
  auto packets = gen_packets(c, limit == no_limit ? 300 : limit + 40);
  if (limit != no_limit && c.src.coin()) {
    // Around the limit: the encoded size is payload + 8 + stuffing.
    auto n = static_cast<std::size_t>(c.src.range<std::uint64_t>(limit > 16 ? limit - 16 : 0, limit));
    packets.push_back(c.src.bytes(n));
  }
  serial_line_packet_protocol<limit> sender, receiver;
  std::string wire;
  string_output_stream out(wire);
  for (auto& p : packets) sender.send(out, p);
  c.note("limit ", limit, " packets ", packets.size(), " wire ", wire.size(), ":");
  auto edits = c.src.range<std::uint64_t>(0, 4);
  for (std::uint64_t i = 0; i < edits && !wire.empty(); i++) {
    auto at = c.src.below(wire.size());
    switch (c.src.below(6)) {
      case 0:
        wire[at] = static_cast<char>(wire[at] ^ (1 << c.src.below(8)));
        c.note(" flip@", at);
        break;
      case 1:
        wire[at] = static_cast<char>(c.src.byte());
        c.note(" set@", at);
        break;
      case 2: {
        auto n = c.src.range<std::uint64_t>(1, 12);
        wire.erase(at, n);
        c.note(" erase@", at, "+", n);
        break;
      }
      case 3: {
        auto s = c.src.bytes(c.src.range<std::uint64_t>(1, 12));
        wire.insert(at, s);
        c.note(" insert@", at, "+", s.size());
        break;
      }
      case 4:
        wire.insert(at, 1 + c.src.below(3), '\0');
        c.note(" zeros@", at);
        break;
      default:
        wire.resize(at);
        c.note(" cut@", at);
    }
  }
  // Reference: the frames between delimiters, whatever the damage.
  std::vector<std::string> want;
  std::string frame, payload;
  std::size_t bad = 0, too_long = 0;
  for (char ch : wire) {
    if (ch) {
      frame.push_back(ch);
      continue;
    }
    if (frame.size() > limit)
      too_long++;
    else if (ref_frame(frame, payload))
      want.push_back(payload);
    else
      bad++;
    frame.clear();
  }
  bool open = frame.size() > limit;
  c.nontrivial(bad || too_long);
  if (bad) c.label("bad-frames");
  if (too_long) c.label("too-long-frames");
  if (!frame.empty()) c.label("unterminated");
  auto in = make_in(c, wire);
  std::vector<std::string> got;
  std::size_t mismatches = 0, ranges = 0, calls = 0;
  std::string what;
  for (;;) {
    std::string p;
    int r = receive(receiver, *in.in, p, what);
    if (r == 0) break;
    PBT_CHECK(c, r != -3, "error-class", "receive threw " << what);
    PBT_CHECK(c, ++calls <= wire.size() + 2, "stuck", "receive does not advance");
    if (r == 1) {
      PBT_CHECK(c, std::find(packets.begin(), packets.end(), p) != packets.end() ||
                       std::find(want.begin(), want.end(), p) != want.end(),
                "forged", "delivered a packet that was not sent: " << pbt::hex(p));
      got.push_back(p);
    } else if (r == -1) {
      mismatches++;
    } else {
      ranges++;
    }
  }
  PBT_CHECK(c, got == want, "delivered",
            "delivered " << got.size() << " packets, " << want.size() << " intact frames were on the wire");
  // Every damaged frame is reported or skipped; an over-long one is refused.
  PBT_CHECK(c, ranges >= too_long || ranges + mismatches >= too_long, "limit", "over-long frames were not reported");
  if (limit == no_limit) PBT_CHECK(c, ranges == 0, "limit", "out_of_range without a limit");
  (void)open;
}
}  // namespace

PBT_ARM(serial_damaged, 10000, 500000) { damaged<no_limit>(c); }
PBT_ARM(serial_limit_64, 6000, 300000) { damaged<64>(c); }
PBT_ARM(serial_limit_600, 4000, 200000) { damaged<600>(c); }

// Exactly at, below and above the limit.
namespace {
template <std::size_t limit>
void boundary(pbt::Case& c) {
  // Payload whose encoding has a chosen size close to the limit.
  std::uint64_t st = c.src.draw(~0ull >> 1);
  std::size_t n = static_cast<std::size_t>(c.src.range<std::uint64_t>(limit > 14 ? limit - 14 : 0, limit));
  std::string p;
  for (std::size_t i = 0; i < n; i++) p.push_back(static_cast<char>(pbt::splitmix(st)));
  serial_line_packet_protocol<limit> proto;
  std::string wire;
  string_output_stream out(wire);
  proto.send(out, p);
  std::size_t size = wire.size() - 1;
  proto.send(out, "tail");
  c.note("limit ", limit, " encoded size ", size);
  c.label(size < limit ? "below" : size == limit ? "at" : "above");
  c.nontrivial(size + 2 >= limit && size <= limit + 2);
  string_input_stream in(wire);
  std::string got, what;
  int r = receive(proto, in, got, what);
  PBT_CHECK(c, r == (size <= limit ? 1 : -2), "boundary", "encoded size " << size << " limit " << limit << ": outcome " << r);
  if (r == 1) PBT_CHECK(c, got == p, "boundary-value", "packet changed");
  // The next packet still arrives.
  bool tail = false;
  for (int i = 0; i < 40 && (r = receive(proto, in, got, what)) != 0; i++) tail |= r == 1 && got == "tail";
  PBT_CHECK(c, tail, "resync", "the packet after it was lost");
}
}  // namespace
PBT_ARM(limit_boundary, 6000, 300000) {
  if (c.src.coin())
    boundary<40>(c);
  else
    boundary<300>(c);
}

// A stream cut anywhere: the packets whose bytes are complete, then end of file.
PBT_ARM(stream_truncated, 5000, 250000) {
  auto packets = gen_packets(c, 400);
  protected_stream_packet_protocol<> s;
  std::string wire;
  string_output_stream out(wire);
  std::vector<std::size_t> ends;
  for (auto& p : packets) {
    s.send(out, p);
    ends.push_back(wire.size());
  }
  auto cut = c.src.below(wire.size() + 1);
  wire.resize(cut);
  c.note("stream of ", packets.size(), " packets cut at ", cut);
  c.nontrivial(packets.size() > 0);
  auto in = make_in(c, wire);
  std::string got, what;
  std::size_t i = 0;
  for (;; i++) {
    int r = receive(s, *in.in, got, what);
    if (r == 0) break;
    PBT_CHECK(c, r == 1 && i < packets.size() && got == packets[i], "stream-truncated", "packet " << i << " outcome " << r << what);
  }
  std::size_t complete = std::count_if(ends.begin(), ends.end(), [&](auto e) { return e <= cut; });
  PBT_CHECK(c, i == complete, "stream-truncated-count", "delivered " << i << " complete " << complete);
}
