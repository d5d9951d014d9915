#include <arpa/inet.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <cstring>
#include <map>
#include <mutex>
#include <optional>
#include "arpc/address.h"
#include "arpc/address_resolver.h"
#include "arpc/errors.h"
#include "pbt.h"
using namespace arpc;

namespace {
/// What the system resolver was asked and what it answered.
struct Query {
  std::optional<std::string> name, service;
  int flags, family, socktype, protocol;
  bool hints_clean;
};
std::mutex mu;
std::vector<Query> queries;
struct Entry {
  int family, socktype, protocol;
  std::string bytes;
};
/// What the stand-in answers to a name: an error code, or a list.
struct Answer {
  int error = 0;
  std::vector<Entry> list;
};
std::map<std::string, Answer> answers;  // by name (or "" for none)
std::map<addrinfo*, bool> live_lists;
long freed_unknown = 0;
}  // namespace

extern "C" int __wrap_getaddrinfo(const char* name, const char* service, const addrinfo* hints, addrinfo** res) {
  std::lock_guard<std::mutex> l(mu);
  Query q;
  if (name) q.name = name;
  if (service) q.service = service;
  q.flags = hints->ai_flags;
  q.family = hints->ai_family;
  q.socktype = hints->ai_socktype;
  q.protocol = hints->ai_protocol;
  q.hints_clean = !hints->ai_addrlen && !hints->ai_addr && !hints->ai_canonname && !hints->ai_next;
  queries.push_back(q);
  auto& a = answers[name ? name : ""];
  if (a.error) return a.error;
  addrinfo *head = nullptr, *tail = nullptr;
  for (auto& e : a.list) {
    auto* n = new addrinfo();
    n->ai_family = e.family;
    n->ai_socktype = e.socktype;
    n->ai_protocol = e.protocol;
    n->ai_addrlen = e.bytes.size();
    n->ai_addr = reinterpret_cast<sockaddr*>(new char[e.bytes.size()]);  // exactly sized
    std::memcpy(n->ai_addr, e.bytes.data(), e.bytes.size());
    (tail ? tail->ai_next : head) = n;
    tail = n;
  }
  *res = head;
  live_lists[head] = true;
  return 0;
}
extern "C" void __wrap_freeaddrinfo(addrinfo* p) {
  std::lock_guard<std::mutex> l(mu);
  auto it = live_lists.find(p);
  if (it == live_lists.end()) pbt::fatal("free", "a list is freed twice, or something else is freed as a list");
  live_lists.erase(it);
  while (p) {
    auto* n = p->ai_next;
    delete[] reinterpret_cast<char*>(p->ai_addr);
    delete p;
    p = n;
  }
}

namespace {
/// A socket address and its text.
struct Sock {
  int family = 0;
  std::string bytes;
  std::optional<std::string> text;
};
std::string v4_text(const unsigned char* b) {
  return std::to_string(b[0]) + "." + std::to_string(b[1]) + "." + std::to_string(b[2]) + "." + std::to_string(b[3]);
}
Sock gen_sock(pbt::Case& c) {
  Sock s;
  auto port = c.src.coin() ? static_cast<unsigned>(c.src.draw(65535)) : (unsigned)c.src.pick(std::vector<int>{0, 1, 80, 255, 256, 443, 65535, 32768, 9999, 10000});
  switch (c.src.weighted({4, 4, 2})) {
    case 0: {
      sockaddr_in a{};
      a.sin_family = s.family = AF_INET;
      unsigned char b[4];
      for (auto& x : b) x = c.src.chance(1, 3) ? (unsigned char)c.src.pick(std::vector<int>{0, 1, 127, 255, 10, 9, 99, 100}) : c.src.byte();
      std::memcpy(&a.sin_addr, b, 4);
      unsigned char p[2] = {(unsigned char)(port >> 8), (unsigned char)port};
      std::memcpy(&a.sin_port, p, 2);
      s.bytes.assign(reinterpret_cast<char*>(&a), sizeof a);
      s.text = v4_text(b) + ":" + std::to_string(port);
      break;
    }
    case 1: {
      sockaddr_in6 a{};
      a.sin6_family = s.family = AF_INET6;
      unsigned char b[16];
      auto shape = c.src.below(4);
      for (int i = 0; i < 16; i++) b[i] = shape == 0 ? c.src.byte() : shape == 1 ? (c.src.coin() ? 0 : c.src.byte()) : 0;
      if (shape == 2) b[15] = c.src.byte();
      if (shape == 3) {
        b[10] = b[11] = 255;
        for (int i = 12; i < 16; i++) b[i] = c.src.byte();
      }
      // Link-local and multicast addresses print their scope; leave the scope zero.
      std::memcpy(&a.sin6_addr, b, 16);
      unsigned char p[2] = {(unsigned char)(port >> 8), (unsigned char)port};
      std::memcpy(&a.sin6_port, p, 2);
      s.bytes.assign(reinterpret_cast<char*>(&a), sizeof a);
      char buf[64];
      s.text = "[" + std::string(inet_ntop(AF_INET6, b, buf, sizeof buf)) + "]:" + std::to_string(port);
      break;
    }
    default: {
      // A local address of any legal length: no network address, so no text.
      auto path = c.src.bytes(c.src.coin() ? c.src.length(20) : c.src.length(108));
      if (path.size() > 108) path.resize(108);
      s.family = AF_UNIX;
      s.bytes.assign(sizeof(sa_family_t), 0);
      sa_family_t f = AF_UNIX;
      std::memcpy(s.bytes.data(), &f, sizeof f);
      s.bytes += path;
      break;
    }
  }
  return s;
}

struct Model {
  int family = 0, type = 0, proto = 0;
  std::string bytes;
  std::optional<std::string> text;
  bool blank = true;  // default constructed: bytes beyond size() bytes unspecified
};
void same(pbt::Case& c, const address& a, const Model& m, const char* when) {
  PBT_CHECK(c, a.family() == m.family, "family", when << ": family " << a.family() << ", want " << m.family);
  PBT_CHECK(c, a.socket_type() == m.type, "type", when << ": socket type " << a.socket_type() << ", want " << m.type);
  PBT_CHECK(c, a.protocol() == m.proto, "protocol", when << ": protocol " << a.protocol() << ", want " << m.proto);
  PBT_CHECK(c, a.address_size() == m.bytes.size(), "size", when << ": size " << a.address_size() << ", want " << m.bytes.size());
  PBT_CHECK(c, std::string(reinterpret_cast<const char*>(a.address_data()), m.bytes.size()) == m.bytes, "bytes",
            when << ": other address bytes " << pbt::hex(std::string(reinterpret_cast<const char*>(a.address_data()), m.bytes.size())) << ", want " << pbt::hex(m.bytes));
  if (m.text) {
    std::string t;
    try {
      t = a.as_string();
    } catch (const std::exception& e) {
      c.fail("text-error", PBT_STR_(when << ": as_string fails with " << e.what() << ", want " << *m.text));
    }
    PBT_CHECK(c, t == *m.text, "text", when << ": text " << t << ", want " << *m.text);
  }
}
void set(address& a, Model& m, const Sock& s, int type, int proto) {
  a.family() = s.family;
  a.socket_type() = type;
  a.protocol() = proto;
  a.address_size() = s.bytes.size();
  std::memcpy(a.address_data(), s.bytes.data(), s.bytes.size());
  m = Model{s.family, type, proto, s.bytes, s.text, false};
}
}  // namespace

PBT_ARM(values, 60000, 600000) {
  // A pool of addresses made from nothing, from each other and from list elements.
  struct Slot {
    std::unique_ptr<address> a;
    Model m;
    bool gone = false;
  };
  std::vector<Slot> pool;
  auto nops = 1 + c.src.length(20);
  unsigned copies = 0;
  for (std::size_t i = 0; i < nops; i++) {
    auto op = pool.empty() ? 0 : c.src.weighted({3, 3, 3, 2, 1, 1});
    if (op == 0 && pool.size() > 8) op = 3;
    if (op == 0) {
      Slot s;
      s.a = std::make_unique<address>();
      PBT_CHECK(c, s.a->family() == AF_UNSPEC && s.a->socket_type() == 0 && s.a->protocol() == 0 && s.a->address_size() == sizeof(sockaddr_storage), "fresh", "a new address is not blank");
      s.m.bytes.assign(sizeof(sockaddr_storage), 0);
      c.note("new; ");
      pool.push_back(std::move(s));
      continue;
    }
    auto k = c.src.below(pool.size());
    auto& s = pool[k];
    switch (op) {
      case 1: {
        if (s.gone) break;
        auto k2 = gen_sock(c);
        int type = c.src.pick(std::vector<int>{SOCK_STREAM, SOCK_DGRAM, SOCK_RAW, 0}), proto = c.src.pick(std::vector<int>{0, IPPROTO_TCP, IPPROTO_UDP});
        c.note("set ", k, " to ", k2.text ? *k2.text : pbt::hex(k2.bytes), "; ");
        set(*s.a, s.m, k2, type, proto);
        break;
      }
      case 2: {
        if (pool.size() > 8 || s.gone) break;
        Slot n;
        n.a = std::make_unique<address>(*s.a);
        n.m = s.m;
        copies++;
        c.note("copy ", k, "; ");
        pool.push_back(std::move(n));
        break;
      }
      case 3: {
        if (pool.size() > 8 || s.gone) break;
        Slot n;
        n.a = std::make_unique<address>(std::move(*s.a));
        n.m = s.m;
        s.gone = true;
        copies++;
        c.note("move ", k, "; ");
        pool.push_back(std::move(n));
        break;
      }
      case 4: {
        c.note("drop ", k, "; ");
        pool.erase(pool.begin() + k);
        break;
      }
      case 5: {
        if (s.gone) break;
        // Change one attribute only.
        switch (c.src.below(3)) {
          case 0: s.a->socket_type() = s.m.type = 3; break;
          case 1: s.a->protocol() = s.m.proto = 41; break;
          default:
            if (!s.m.bytes.empty()) {
              auto at = c.src.below(s.m.bytes.size());
              reinterpret_cast<char*>(s.a->address_data())[at] ^= 0x55;
              s.m.bytes[at] ^= 0x55;
              s.m.text.reset();
            }
        }
        c.note("tweak ", k, "; ");
      }
    }
    for (std::size_t j = 0; j < pool.size(); j++)
      if (!pool[j].gone) same(c, *pool[j].a, pool[j].m, "in the pool");
  }
  c.nontrivial(copies > 0);
}

namespace {
struct EndpointModel {
  std::string name, service;
  bool passive = false;
  int family = AF_UNSPEC, type = SOCK_STREAM;
};
void settings(pbt::Case& c, endpoint& e, EndpointModel& m, std::size_t n, const std::string& name) {
  for (std::size_t i = 0; i < n; i++) {
    endpoint* r = nullptr;
    switch (c.src.below(10)) {
      case 0: r = &e.name(m.name = name); c.note(".name(", name, ")"); break;
      case 1: m.service = c.src.pick(std::vector<std::string>{"http", "80", "", "no-such-service", "65535", std::string(300, 's')}); r = &e.service(m.service); c.note(".service(", m.service, ")"); break;
      case 2: {
        int p = c.src.coin() ? c.src.range<int>(0, 65535) : c.src.pick(std::vector<int>{0, 1, 80, 65535, 65536, -1, 2147483647});
        m.service = std::to_string(p);
        r = &e.port(p);
        c.note(".port(", p, ")");
        break;
      }
      case 3: r = &e.passive(); m.passive = true; c.note(".passive()"); break;
      case 4: r = &e.active(); m.passive = false; c.note(".active()"); break;
      case 5: r = &e.stream(); m.type = SOCK_STREAM; c.note(".stream()"); break;
      case 6: r = &e.datagram(); m.type = SOCK_DGRAM; c.note(".datagram()"); break;
      case 7: r = &e.ip(); m.family = AF_UNSPEC; c.note(".ip()"); break;
      case 8: r = &e.ipv4(); m.family = AF_INET; c.note(".ipv4()"); break;
      default: r = &e.ipv6(); m.family = AF_INET6; c.note(".ipv6()"); break;
    }
    PBT_CHECK(c, r == &e, "chain", "a setting does not return the endpoint it was made on");
  }
}
Model of(const Entry& e) { return Model{e.family, e.socktype, e.protocol, e.bytes, std::nullopt, false}; }
}  // namespace

PBT_ARM(endpoints, 12000, 120000) {
  {
    std::lock_guard<std::mutex> l(mu);
    queries.clear();
    answers.clear();
    if (!live_lists.empty()) pbt::fatal("leak", "a list of an earlier case was not freed");
  }
  std::size_t n = 1 + c.src.length(5);
  std::vector<EndpointModel> models;
  std::vector<endpoint> eps;
  std::vector<std::vector<Model>> want;
  std::vector<int> errs;
  for (std::size_t i = 0; i < n; i++) {
    EndpointModel m;
    endpoint e;
    if (i > 0 && c.src.chance(1, 3)) {
      auto from = c.src.below(i);
      e = eps[from];
      m = models[from];
      c.note("copy of ", from);
    }
    // Names are unique per case, so that answers can differ.
    std::string name = c.src.chance(1, 8) ? "" : "host" + std::to_string(i) + (c.src.chance(1, 8) ? std::string(400, 'x') : ".example");
    settings(c, e, m, c.src.length(10), name);
    c.note("; ");
    eps.push_back(e);
    models.push_back(m);
  }
  for (std::size_t i = 0; i < n; i++) {
    Answer a;
    std::lock_guard<std::mutex> l(mu);
    if (answers.count(models[i].name)) continue;
    if (c.src.chance(1, 6)) {
      a.error = c.src.pick(std::vector<int>{EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM, EAI_SERVICE});
    } else {
      auto k = 1 + c.src.length(6);
      for (std::size_t j = 0; j < k; j++) {
        auto s = gen_sock(c);
        a.list.push_back({s.family, c.src.pick(std::vector<int>{SOCK_STREAM, SOCK_DGRAM}), c.src.pick(std::vector<int>{0, 6, 17}), s.bytes});
      }
    }
    answers[models[i].name] = a;
  }
  auto& r = address_resolver::get();
  std::vector<std::optional<future<address_list>>> futs(n);
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < n; i++) order.push_back(i);
  for (std::size_t i = n; i-- > 1;) std::swap(order[i], order[c.src.below(i + 1)]);
  bool sync = c.src.coin();
  std::size_t most = 0;
  auto look = [&](std::size_t i, auto get) {
    auto& a = answers[models[i].name];
    try {
      address_list l = get();
      PBT_CHECK(c, !a.error, "no-error", "resolving succeeds though the resolver failed");
      most = std::max(most, a.list.size());
      PBT_CHECK(c, l.size() == a.list.size(), "list-size", "a list of " << l.size() << " addresses, want " << a.list.size());
      PBT_CHECK(c, l.empty() == a.list.empty(), "list-empty", "empty() is wrong");
      std::vector<address> copies;
      copies.reserve(a.list.size());
      std::size_t j = 0;
      for (auto& x : l) {
        PBT_CHECK(c, j < a.list.size(), "iteration", "iteration does not end");
        same(c, x, of(a.list[j]), "in the list");
        copies.emplace_back(x);
        j++;
      }
      PBT_CHECK(c, j == a.list.size(), "iteration", "iteration visits " << j << " of " << a.list.size());
      if (c.src.coin()) {
        address_list moved(std::move(l));
        l = std::move(moved);
        c.note("moved; ");
      }
      const auto& cl = l;
      j = 0;
      for (auto it = cl.begin(); it != cl.cend(); it++, j++) {
        same(c, *it, of(a.list[j]), "in the constant list");
        PBT_CHECK(c, it->family() == a.list[j].family, "arrow", "-> gives another address");
      }
      PBT_CHECK(c, j == a.list.size(), "const-iteration", "iteration visits " << j << " of " << a.list.size());
      // Iterators: post- and pre-increment, swap, conversion.
      auto i1 = l.begin(), i2 = l.begin();
      auto old = i1++;
      PBT_CHECK(c, old == i2 && i1 != i2, "post-increment", "post-increment returns another position");
      PBT_CHECK(c, ++i2 == i1, "pre-increment", "pre-increment goes to another position");
      i2 = l.begin();
      swap(i1, i2);
      PBT_CHECK(c, i1 == l.begin() && i2 != i1, "swap", "swap does not exchange iterators");
      address_list::const_iterator ci(i1);
      PBT_CHECK(c, ci == cl.begin() && &*ci == &*i1, "convert", "conversion to const_iterator changes the position");
      auto ci2 = ci++;
      PBT_CHECK(c, ci2 == cl.begin() && ci != ci2, "post-increment", "post-increment returns another position");
      swap(ci, ci2);
      PBT_CHECK(c, ci == cl.begin(), "swap", "swap does not exchange iterators");
      PBT_CHECK(c, ++ci == ci2, "pre-increment", "pre-increment goes to another position");
      PBT_CHECK(c, address_list::iterator() == l.end() && address_list::const_iterator() == cl.end(), "end", "a blank iterator is not the end");
      { address_list dropped(std::move(l)); }
      for (j = 0; j < copies.size(); j++) same(c, copies[j], of(a.list[j]), "copy that outlives the list");
    } catch (const errors::io_error& e) {
      PBT_CHECK(c, a.error, "error", "resolving fails with " << e.what());
    }
  };
  std::vector<std::size_t> asked;
  for (auto i : order) {
    asked.push_back(i);
    if (sync) {
      bool mv = c.src.coin();
      look(i, [&] { endpoint e = eps[i]; return mv ? r.resolve(std::move(e)) : r.resolve(eps[i]); });
    } else {
      endpoint e = eps[i];
      futs[i].emplace(c.src.coin() ? r.async_resolve(std::move(e)) : r.async_resolve(eps[i]));
    }
  }
  if (!sync) {
    for (std::size_t i = n; i-- > 0;) {
      // Also drop some unread: their lists have to be freed.
      look(i, [&] { return futs[i]->get(); });
    }
    futs.clear();
  }
  std::lock_guard<std::mutex> l(mu);
  PBT_CHECK(c, queries.size() == n, "queries", queries.size() << " queries for " << n << " requests");
  for (std::size_t k = 0; k < n; k++) {
    auto& q = queries[k];
    auto& m = models[asked[k]];
    PBT_CHECK(c, q.name.value_or("") == m.name && q.name.has_value() == !m.name.empty(), "name", "asked for host " << q.name.value_or("(none)") << ", want " << m.name);
    PBT_CHECK(c, q.service.value_or("") == m.service && q.service.has_value() == !m.service.empty(), "service", "asked for service " << q.service.value_or("(none)") << ", want " << m.service);
    PBT_CHECK(c, q.family == m.family, "endpoint-family", "asked for family " << q.family << ", want " << m.family);
    PBT_CHECK(c, q.socktype == m.type, "endpoint-type", "asked for socket type " << q.socktype << ", want " << m.type);
    PBT_CHECK(c, bool(q.flags & AI_PASSIVE) == m.passive, "endpoint-passive", "passive flag is " << bool(q.flags & AI_PASSIVE) << ", want " << m.passive);
    PBT_CHECK(c, !(q.flags & (AI_NUMERICHOST | AI_CANONNAME | AI_NUMERICSERV | AI_ALL)) && q.protocol == 0 && q.hints_clean, "hints", "the request restricts the result in a way nobody asked for");
  }
  PBT_CHECK(c, live_lists.empty(), "leak", live_lists.size() << " address lists were not freed");
  c.nontrivial(n > 1 || most > 1);
}
