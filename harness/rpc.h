/// What the checks of remote calls share: servers and clients that are connected by socket pairs, and objects to call.
#pragma once
#include <sys/socket.h>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "arpc/client.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/interface.h"
#include "arpc/packet_protocols.h"
#include "arpc/queue.h"
#include "arpc/server.h"
#include "fds.h"
#include "lin.h"

namespace rpc {
using namespace arpc;

/// Where clients meet a server.
struct Exchange {
  arpc::queue<channel> waiting;
  std::deque<int> client_fds;  // of every connection, in order of their making
  unsigned made = 0;
  bool refuse = false;
  int small = 0;  // size of the socket buffers
  unsigned cut = 0;  // sends that were left in the middle
  unsigned connections_alive = 0;
  /// One more connection: our end.
  channel connect() {
    if (refuse) throw errors::io_error("refused");
    int s[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) pbt::fatal("harness", "no sockets");
    if (small)
      for (int i : {0, 1}) setsockopt(s[i], SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
    channel ours(s[0]);
    made++;
    client_fds.push_back(s[0]);
    waiting.put(channel(s[1]));
    return ours;
  }
};
template <typename Protocol>
struct Factory {
  using connection_type = packet_connection_impl<channel_connection, Protocol>;
  Exchange* x;
  explicit Factory(Exchange* e) : x(e) {}
  std::unique_ptr<connection_type> operator()() { return std::make_unique<connection_type>(x->waiting.get()); }
};
struct Dial : channel_connection {
  Exchange* x;
  explicit Dial(Exchange* e) : channel_connection(e->connect()), x(e) { x->connections_alive++; }
  ~Dial() override { x->connections_alive--; }
  void write(const char* data, std::size_t size) override {
    try {
      channel_connection::write(data, size);
    } catch (const errors::cancelled&) {
      x->cut++;
      throw;
    } catch (const errors::deadline_exceeded&) {
      x->cut++;
      throw;
    }
  }
};
template <typename Enc, typename Dec, typename Proto, typename NameEnc, std::size_t max = std::numeric_limits<std::size_t>::max()>
struct Cfg {
  using encoder = Enc;
  using decoder = Dec;
  using protocol = Proto;
  using name_encoder = NameEnc;
  using server = arpc::server<Enc, Dec, Proto, NameEnc, connection_producer<Factory<Proto>, max>>;
  using client = client_connection<Dial, Enc, Dec, Proto, NameEnc>;
};
using LE = Cfg<little_endian_binary_encoder, little_endian_binary_decoder, protected_stream_packet_protocol<little_endian_binary_encoder, little_endian_binary_decoder>, little_endian_binary_encoder>;
using BE = Cfg<big_endian_binary_encoder, big_endian_binary_decoder, serial_line_packet_protocol<>, big_endian_binary_encoder>;
using MIX = Cfg<big_endian_binary_encoder, big_endian_binary_decoder, protected_stream_packet_protocol<little_endian_binary_encoder, little_endian_binary_decoder>, little_endian_binary_encoder, 4>;

/// An exception as it is known on either side: the class and the message, or none.
inline std::string failure(std::exception_ptr e) {
  try {
    std::rethrow_exception(e);
  } catch (const errors::base_error& x) {
    return std::string(x.portable_error_class_name()) + ": " + x.what();
  } catch (const std::exception& x) {
    return std::string("foreign: ") + x.what();
  } catch (...) {
    return "foreign";
  }
}
template <typename F>
std::string attempt(F f) {
  try {
    f();
    return "";
  } catch (pbt::Failure&) {
    throw;
  } catch (...) {
    return failure(std::current_exception());
  }
}
}  // namespace rpc
