#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include "arpc/channel.h"
#include "arpc/connection.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/file.h"
#include "arpc/packet_protocols.h"
#include "arpc/pipe.h"
#include "arpc/select.h"
#include "arpc/socket.h"
#include "arpc/thread.h"
#include "fds.h"
#include "lin.h"
using namespace arpc;
using std::chrono::milliseconds;

namespace {
/// A directory for the files of this process.
const std::string& scratch() {
  static const std::string dir = [] {
    char t[] = "/tmp/arpc-c31-XXXXXX";
    if (!mkdtemp(t)) pbt::fatal("harness", "no scratch directory");
    static std::string d = t;
    std::atexit([] {
      ::unlink((d + "/a").c_str());
      ::unlink((d + "/b").c_str());
      ::rmdir(d.c_str());
    });
    return d;
  }();
  return dir;
}
/// One of many kinds of failure: what an operation throws, if anything.
enum Res { OK, TRY_LATER, END, IO, CANCELLED, DEADLINE, OTHER };
const char* RES[] = {"works", "has to try again", "reports the end", "fails", "is cancelled", "exceeds its deadline", "throws something else"};
template <typename F>
Res result(F f) {
  try {
    f();
    return OK;
  } catch (const errors::try_again&) {
    return TRY_LATER;
  } catch (const errors::eof&) {
    return END;
  } catch (const errors::io_error&) {
    return IO;
  } catch (const errors::cancelled&) {
    return CANCELLED;
  } catch (const errors::deadline_exceeded&) {
    return DEADLINE;
  } catch (const std::exception&) {
    return OTHER;
  }
}
/// Bytes that show where they come from.
std::string pattern(std::size_t from, std::size_t n) {
  std::string r(n, 0);
  for (std::size_t i = 0; i < n; i++) r[i] = static_cast<char>((from + i) * 131 + ((from + i) >> 8) * 7);
  return r;
}

// What is behind a descriptor.
struct Flow {  // one direction
  std::string content;
  int readers = 0, writers = 0;
  bool reset = false;  // by a socket closed with unread data
};
struct Desc {
  enum Kind { PIPE, SOCK, FILE_ } kind;
  std::shared_ptr<Flow> in, out, back;
  bool nonblock = false;
  // Files:
  std::string path;
  bool can_read = true, can_write = true, append = false;
  std::size_t pos = 0;
  Desc(Kind k, std::shared_ptr<Flow> i, std::shared_ptr<Flow> o) : kind(k), in(i), out(o), back(o) {
    if (in) in->readers++;
    if (out) out->writers++;
  }
  ~Desc() {
    if (in) in->readers--;
    if (in && back && !in->content.empty()) back->reset = true;
    if (out) out->writers--;
  }
};
constexpr std::size_t BLOCKING_ROOM = 32000;
}  // namespace

/// One thread, any history of channels: their ownership, what is read and written, errors, against a model.
PBT_ARM(history, 20000, 200000, false, 10) {
  context::top();
  scratch();
  auto base = open_fds();
  sched::Policy p;
  bool faults = c.src.coin();
  if (faults) {
    p.short_io = c.src.coin() ? 3 : 0;
    p.eintr_den = c.src.coin() ? 2 : 0;
    p.spurious_poll = c.src.chance(1, 3) ? 4 : 0;
  }
  unsigned moved = 0, transferred = 0;
  sched::run(c, p, [&] {
    std::vector<channel> slots(5);
    bool io_faults = faults && c.src.coin();
    if (io_faults)
      sched::io_hook = [&](const sched::Io& io, int& err) -> std::size_t {
        // The library's own descriptors are not touched, nor is what cannot be interrupted.
        if (std::none_of(slots.begin(), slots.end(), [&](auto& s) { return s.get() == io.fd; })) return io.len;
        bool nonblock = fcntl(io.fd, F_GETFL) & O_NONBLOCK;
        if (c.src.chance(1, 6)) {
          err = nonblock ? EAGAIN : EINTR;
          return 0;
        }
        if (io.len > 1 && c.src.chance(1, 4)) return 1 + c.src.below(io.len - 1);
        return io.len;
      };
    std::vector<std::shared_ptr<Desc>> model(5);
    std::map<std::string, std::string> files;  // contents
    std::size_t counter = 0;
    ::unlink((scratch() + "/a").c_str());
    ::unlink((scratch() + "/b").c_str());
    auto n = 2 + c.src.length(40);
    auto set = [&](std::size_t i, std::shared_ptr<Desc> d) { model[i] = std::move(d); };
    auto pick = [&] { return c.src.below(slots.size()); };
    auto used = [&]() -> std::size_t {
      std::vector<std::size_t> u;
      for (std::size_t i = 0; i < slots.size(); i++)
        if (model[i]) u.push_back(i);
      if (u.empty() || c.src.chance(1, 10)) return pick();
      return u[c.src.below(u.size())];
    };
    for (std::size_t step = 0; step < n; step++) {
      auto op = c.src.weighted({4, 2, 3, 3, 2, 2, 2, 2, 3, 12, 12, 2});
      switch (op) {
        case 0: {  // pipe
          auto a = pick(), b = pick();
          if (a == b) break;
          c.note("pipe ", a, b, "; ");
          channel ends[2];
          arpc::pipe(ends);
          slots[a] = std::move(ends[0]);
          slots[b] = std::move(ends[1]);
          auto f = std::make_shared<Flow>();
          set(a, std::make_shared<Desc>(Desc::PIPE, f, nullptr));
          set(b, std::make_shared<Desc>(Desc::PIPE, nullptr, f));
          break;
        }
        case 1: {  // sockets
          auto a = pick(), b = pick();
          if (a == b) break;
          c.note("sockets ", a, b, "; ");
          int s[2];
          if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) pbt::fatal("harness", "no sockets");
          slots[a].reset(s[0]);
          slots[b] = channel(s[1]);
          auto f = std::make_shared<Flow>(), g = std::make_shared<Flow>();
          set(a, std::make_shared<Desc>(Desc::SOCK, f, g));
          set(b, std::make_shared<Desc>(Desc::SOCK, g, f));
          break;
        }
        case 2: {  // file
          auto a = pick();
          auto path = scratch() + (c.src.coin() ? "/a" : "/b");
          auto mode = static_cast<open_mode>(c.src.below(6));
          c.note("file ", path.back(), " mode ", static_cast<int>(mode), " in ", a, "; ");
          bool exists = files.count(path), creates = mode != open_mode::READ && mode != open_mode::READ_PLUS;
          channel f;
          auto r = result([&] { f = file(path, mode); });
          SCHED_CHECK(c, r == (exists || creates ? OK : IO), "file", "opening " << (exists ? "a file" : "nothing") << " in mode " << static_cast<int>(mode) << " " << RES[r]);
          if (r != OK) break;
          slots[a] = std::move(f);
          if (mode == open_mode::WRITE || mode == open_mode::WRITE_PLUS || !exists) files[path] = "";
          struct stat st;
          SCHED_CHECK(c, ::stat(path.c_str(), &st) == 0 && (st.st_mode & 0600) == 0600, "file", "a new file has mode " << (st.st_mode & 0777));
          auto d = std::make_shared<Desc>(Desc::FILE_, nullptr, nullptr);
          d->path = path;
          d->can_read = mode == open_mode::READ || mode >= open_mode::READ_PLUS;
          d->can_write = mode != open_mode::READ;
          d->append = mode == open_mode::APPEND || mode == open_mode::APPEND_PLUS;
          set(a, d);
          break;
        }
        case 3: {  // move
          auto a = used(), b = pick();
          moved++;
          switch (c.src.below(3)) {
            case 0:
              c.note("move ", a, " to ", b, "; ");
              if (a == b) break;
              slots[b] = std::move(slots[a]);
              model[b] = std::move(model[a]);
              model[a] = nullptr;
              break;
            case 1: {
              c.note("pass ", a, "; ");
              channel x(std::move(slots[a]));
              SCHED_CHECK(c, !slots[a] && slots[a].get() == -1, "moved", "a moved-from channel is open");
              channel y;
              y = std::move(x);
              slots[a] = std::move(y);
              break;
            }
            default:
              c.note("swap ", a, b, "; ");
              slots[a].swap(slots[b]);
              std::swap(model[a], model[b]);
          }
          break;
        }
        case 4: {  // close
          auto a = used();
          c.note("close ", a, "; ");
          switch (c.src.below(4)) {
            case 0: slots[a].close(); break;
            case 1: slots[a].reset(); break;
            case 2: slots[a] = channel(); break;
            default: {
              int fd = slots[a].release();
              SCHED_CHECK(c, (fd >= 0) == static_cast<bool>(model[a]) && !slots[a], "release", "release returns " << fd);
              if (fd >= 0) ::close(fd);
            }
          }
          model[a] = nullptr;
          break;
        }
        case 5: {  // dup
          auto a = used(), b = pick();
          c.note("dup ", a, " to ", b, "; ");
          channel d;
          auto r = result([&] { d = slots[a].dup(); });
          SCHED_CHECK(c, r == (model[a] ? OK : IO), "dup", "dup of " << (model[a] ? "an open" : "a closed") << " channel " << RES[r]);
          if (r != OK) break;
          SCHED_CHECK(c, d.get() != slots[a].get(), "dup", "the same descriptor");
          auto m = model[a];
          slots[b] = std::move(d);
          model[b] = m;
          break;
        }
        case 6: {  // blocking mode
          auto a = used();
          bool on = c.src.coin();
          c.note(on ? "non-blocking " : "blocking ", a, "; ");
          auto r = result([&] { slots[a].make_non_blocking(on); });
          SCHED_CHECK(c, r == (model[a] ? OK : IO), "nonblock", "changing " << (model[a] ? "an open" : "a closed") << " channel " << RES[r]);
          if (model[a]) model[a]->nonblock = on;
          break;
        }
        case 7: {  // shutdown
          auto a = used();
          if (!model[a] || model[a]->kind != Desc::SOCK || model[a].use_count() > 1) break;
          c.note("shut down ", a, " for writing; ");
          auto r = result([&] { slots[a].shutdown(false, true); });
          SCHED_CHECK(c, r == OK, "shutdown", "shutting a socket down " << RES[r]);
          if (model[a]->out) {
            model[a]->out->writers--;
            model[a]->out = nullptr;
          }
          break;
        }
        case 8: {  // what is known without touching it
          for (std::size_t i = 0; i < slots.size(); i++)
            SCHED_CHECK(c, static_cast<bool>(slots[i]) == static_cast<bool>(model[i]) && slots[i].get() == *slots[i] && (slots[i].get() >= 0) == static_cast<bool>(model[i]), "open", "channel " << i << " is " << (model[i] ? "open" : "closed") << ", descriptor " << slots[i].get());
          break;
        }
        case 9: {  // read
          auto a = used();
          auto len = 1 + (c.src.coin() ? c.src.below(8) : c.src.below(5000));
          auto& d = model[a];
          auto how = c.src.below(3);
          // Nothing can be read from anything that has something, without that being the end.
          if (c.src.chance(1, 16) && d && (d->kind == Desc::FILE_ ? d->can_read : d->in && !d->in->content.empty())) {
            c.note("read nothing from ", a, "; ");
            char none = 'x';
            std::size_t got = 1;
            auto r = result([&] { got = how ? slots[a].read(&none, 0) : slots[a].maybe_read(&none, 0); });
            SCHED_CHECK(c, (r == OK && got == 0 && none == 'x') || (io_faults && how == 0 && r == TRY_LATER), "read", "reading no bytes " << RES[r]);
            break;
          }
          std::string buf(len, 'x');
          std::size_t got = 0;
          bool late = false;
          Res r;
          {
            context ctx;
            if (how != 0) {
              ctx.set_timeout(milliseconds(20));  // for when nothing comes
              if (c.src.chance(1, 12)) {
                late = true;
                ctx.cancel();
              }
            }
            r = result([&] {
              if (how == 0) {
                if (d && !d->nonblock && d->kind != Desc::FILE_ && d->in && d->in->content.empty() && d->in->writers) throw errors::try_again("not asked");
                got = slots[a].maybe_read(&buf[0], len);
              } else if (how == 1) {
                got = slots[a].read(&buf[0], len);
              } else {
                auto aw = slots[a].async_read(&buf[0], len);
                auto [x] = select(aw);
                got = *x;
              }
            });
          }
          c.note("read ", len, " from ", a, how == 0 ? " at once" : "", " -> ", RES[r], " ", got, "; ");
          Res want;
          std::string all;
          if (how && late) {
            want = CANCELLED;
          } else if (!d) {
            want = IO;
          } else if (d->kind == Desc::FILE_) {
            auto& f = files[d->path];
            if (d->pos < f.size()) all = f.substr(d->pos);
            want = !d->can_read ? IO : all.empty() ? END : OK;
          } else if (!d->in) {
            want = IO;  // the end for writing
          } else {
            all = d->in->content;
            want = !all.empty() ? OK : d->in->writers == 0 ? END : how == 0 ? TRY_LATER : DEADLINE;
          }
          if (!d && how) SCHED_CHECK(c, r == IO || late, "closed", "reading from a closed channel " << RES[r]);
          if (d && d->kind == Desc::PIPE && !d->in && how && r == DEADLINE) want = DEADLINE;  // never readable, as the other end is there
          bool excused = (io_faults && how == 0 && r == TRY_LATER) || (want == END && r == IO && d->in && d->in->reset);
          SCHED_CHECK(c, r == want || excused, "read", "reading " << len << " bytes " << RES[r] << ", but it " << RES[want] << " there (" << all.size() << " bytes)");
          if (r != OK) break;
          transferred++;
          SCHED_CHECK(c, got >= 1 && got <= len && got <= all.size(), "read", "read " << got << " of " << len << " with " << all.size() << " there");
          if (!p.short_io && !io_faults) SCHED_CHECK(c, got == std::min<std::size_t>(len, all.size()), "read", "read " << got << " of " << len << " with " << all.size() << " there");
          SCHED_CHECK(c, std::equal(buf.begin(), buf.begin() + got, all.begin()), "data", "read other bytes than were written");
          SCHED_CHECK(c, std::all_of(buf.begin() + got, buf.end(), [](char x) { return x == 'x'; }), "data", "bytes after those read changed");
          if (d->kind == Desc::FILE_)
            d->pos += got;
          else
            d->in->content.erase(0, got);
          break;
        }
        case 10: {  // write
          auto a = used();
          auto len = 1 + (c.src.coin() ? c.src.below(8) : c.src.below(5000));
          auto& d = model[a];
          auto how = c.src.below(3);
          auto data = pattern(counter, len);
          std::size_t put = 0;
          if (d && d->out && d->out->content.size() + len > BLOCKING_ROOM) break;
          Res r;
          {
            context ctx;
            if (how) ctx.set_timeout(milliseconds(20));
            r = result([&] {
              if (how == 0) {
                put = slots[a].maybe_write(data.data(), len);
              } else if (how == 1) {
                put = slots[a].write(data.data(), len);
              } else {
                auto [x] = select(slots[a].async_write(data.data(), len));
                put = *x;
              }
            });
          }
          c.note("write ", len, " to ", a, how == 0 ? " at once" : "", " -> ", RES[r], " ", put, "; ");
          Res want = !d || (d->kind == Desc::FILE_ ? !d->can_write : !d->out || d->out->readers == 0) ? IO : OK;
          if (d && d->kind == Desc::PIPE && !d->out && how && r == DEADLINE) want = DEADLINE;
          bool excused = io_faults && how == 0 && r == TRY_LATER;
          SCHED_CHECK(c, r == want || excused, "write", "writing " << len << " bytes " << RES[r] << ", but it " << RES[want]);
          if (r != OK) break;
          transferred++;
          SCHED_CHECK(c, put >= 1 && put <= len, "write", "wrote " << put << " of " << len);
          if (!p.short_io && !io_faults) SCHED_CHECK(c, put == len, "write", "wrote " << put << " of " << len);
          counter += len;
          if (d->kind == Desc::FILE_) {
            auto& f = files[d->path];
            if (d->append) d->pos = f.size();
            if (f.size() < d->pos) f.resize(d->pos);
            f.replace(d->pos, std::min(put, f.size() - d->pos), data, 0, put);
            d->pos += put;
          } else {
            d->out->content.append(data, 0, put);
          }
          break;
        }
        default: {  // what may be read or written now
          auto a = used();
          auto& d = model[a];
          if (!d || d->kind == Desc::FILE_ || p.spurious_poll) break;
          bool r_now = false, w_now = false;
          {
            auto [x, y] = select(slots[a].can_read(), polling(milliseconds(0)));
            r_now = x.has_value();
            (void)y;
          }
          {
            auto [x, y] = select(slots[a].can_write(), polling(milliseconds(0)));
            w_now = x.has_value();
            (void)y;
          }
          if (d->in) SCHED_CHECK(c, r_now == (!d->in->content.empty() || !d->in->writers), "can_read", "channel " << a << " with " << d->in->content.size() << " bytes can " << (r_now ? "" : "not ") << "be read");
          if (d->out) SCHED_CHECK(c, w_now, "can_write", "channel " << a << " cannot be written to");
        }
      }
      // Every descriptor is open exactly as long as a channel has it.
      int open = 0;
      for (auto& m : model) open += static_cast<bool>(m);
      SCHED_CHECK(c, open_fds() == base + open, "descriptors", open_fds() - base << " descriptors are open for " << open << " channels");
    }
    sched::io_hook = nullptr;
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", "descriptors are left open");
  c.nontrivial(moved > 0 && transferred > 1);
}

namespace {
/// Two ends of something that carries bytes.
std::array<channel, 2> make_ends(pbt::Case& c, unsigned& kind) {
  std::array<channel, 2> r;
  kind = c.src.below(3);
  if (kind == 0) {
    channel x[2];
    arpc::pipe(x);
    r[0] = std::move(x[0]);
    r[1] = std::move(x[1]);
  } else {
    int s[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) pbt::fatal("harness", "no sockets");
    if (kind == 2) {
      int small = 4608;
      setsockopt(s[1], SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
      setsockopt(s[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
    }
    r[0].reset(s[0]);
    r[1].reset(s[1]);
  }
  return r;
}
std::function<std::size_t(const sched::Io&, int&)> faulty_io(pbt::Case& c) {
  return [&c](const sched::Io& io, int& err) -> std::size_t {
    // What does not block is not interrupted; and the library's own pipes always work at once.
    struct stat st;
    bool nonblock = fcntl(io.fd, F_GETFL) & O_NONBLOCK;
    bool sock = fstat(io.fd, &st) == 0 && S_ISSOCK(st.st_mode);
    if ((!nonblock || sock) && c.src.chance(1, 10)) {
      err = nonblock ? EAGAIN : EINTR;
      return 0;
    }
    if (io.len > 1 && c.src.chance(1, 4)) return 1 + c.src.below(c.src.coin() ? std::min<std::size_t>(io.len - 1, 9) : io.len - 1);
    return io.len;
  };
}
}  // namespace

/// One side writes, the other reads, in any portions and any schedule: the same bytes, then the end.
PBT_ARM(transfer, 6000, 60000, false, 10) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  if (c.src.coin()) p.short_io = 3;
  p.max_steps = 3000000;
  std::size_t size = 0;
  auto res = sched::run(c, p, [&] {
    unsigned kind;
    auto ends = make_ends(c, kind);
    size = c.src.coin() ? c.src.below(300) : c.src.below(150000);
    std::size_t read_most = c.src.pick(std::vector<int>{1, 7, 4096, 100000}), write_most = c.src.pick(std::vector<int>{1, 13, 4096, 70000});
    if (size > 2000) {
      read_most = std::max<std::size_t>(read_most, 1000);
      write_most = std::max<std::size_t>(write_most, 1000);
    }
    bool nb_read = c.src.coin(), nb_write = c.src.coin();
    if (nb_read) ends[0].make_non_blocking();
    if (nb_write) ends[1].make_non_blocking();
    std::size_t stop = c.src.chance(1, 4) ? c.src.below(size + 1) : size;  // where the reader leaves
    bool stall = c.src.chance(1, 3);
    c.note(size, " bytes over ", kind == 0 ? "a pipe" : "sockets", ", read up to ", read_most, nb_read ? "" : " (blocking)", ", written up to ", write_most, nb_write ? "" : " (blocking)", stop < size ? PBT_STR_(", reader leaves at " << stop) : "");
    if (c.src.coin()) sched::io_hook = faulty_io(c);
    std::string got;
    Res end = OK, wend = OK;
    std::size_t written = 0;
    auto th = spawn([&] {
      if (stall) sched::sleep_ms(c.src.below(30));
      std::string buf(read_most, 0);
      while (got.size() < stop || stop == size) {
        auto len = std::min<std::size_t>(read_most, 1 + c.src.below(read_most));
        std::size_t n = 0;
        end = result([&] { n = ends[0].read(&buf[0], len); });
        if (end != OK) break;
        SCHED_CHECK(c, n >= 1 && n <= len, "read", "read " << n << " of " << len);
        got.append(buf, 0, n);
        SCHED_CHECK(c, got.size() <= size, "data", "read more than was written");
      }
      ends[0].close();
    });
    while (written < size) {
      auto len = std::min(size - written, std::size_t(1 + c.src.below(write_most)));
      auto data = pattern(written, len);
      std::size_t n = 0;
      wend = result([&] { n = ends[1].write(data.data(), len); });
      if (wend != OK) break;
      SCHED_CHECK(c, n >= 1 && n <= len, "write", "wrote " << n << " of " << len);
      written += n;
    }
    ends[1].close();
    th.join();
    sched::io_hook = nullptr;
    SCHED_CHECK(c, got == pattern(0, got.size()), "data", "other bytes arrive than were written");
    if (stop == size) {
      SCHED_CHECK(c, wend == OK && written == size, "write", "writing " << RES[wend] << " after " << written << " of " << size);
      SCHED_CHECK(c, end == END && got.size() == size, "read", "reading " << RES[end] << " after " << got.size() << " of " << size);
    } else {
      SCHED_CHECK(c, end == OK || (end == END && got.size() == written), "read", "reading " << RES[end] << " after " << got.size() << " of " << written);
      SCHED_CHECK(c, wend == OK || wend == IO, "write", "writing " << RES[wend] << " when the reader is gone");
      SCHED_CHECK(c, got.size() <= written || wend == IO, "data", "read " << got.size() << " of " << written);
    }
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", "descriptors are left open");
  c.nontrivial(size > 20 && res.switches > 3);
}

namespace {
/// A stream connection and its other end.
struct Link {
  std::unique_ptr<channel_connection> here;
  channel there;
};
}  // namespace
/// A connection used by a reader and a writer, while somebody may disconnect it or the other side go away.
PBT_ARM(connection, 8000, 80000, false, 10) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  p.max_steps = 3000000;
  unsigned blocked_ended = 0;
  auto res = sched::run(c, p, [&] {
    int s[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) pbt::fatal("harness", "no sockets");
    if (c.src.coin()) {
      int small = 4608;
      setsockopt(s[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
      setsockopt(s[1], SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
    }
    auto conn = std::make_unique<channel_connection>(channel(s[0]));
    auto peer = std::make_unique<channel_connection>(channel(s[1]));
    SCHED_CHECK(c, conn->connected() && peer->connected(), "connected", "a new connection is not connected");
    SCHED_CHECK(c, result([&] { conn->connect(); }) == OTHER, "connect", "a connection without address reconnects");
    // What each side sends: messages of known sizes, read fully in other portions.
    std::vector<std::size_t> up, down;
    std::size_t up_total = 0, down_total = 0;
    for (auto n = c.src.length(4); n > 0; n--) up_total += up.emplace_back(c.src.coin() ? c.src.below(20) : c.src.below(20000));
    for (auto n = c.src.length(4); n > 0; n--) down_total += down.emplace_back(c.src.coin() ? c.src.below(20) : c.src.below(20000));
    enum { END_OF_DATA, DISCONNECT, PEER, CANCEL, TIMEOUT } how = static_cast<decltype(how)>(c.src.below(5));
    static const char* HOW[] = {"all is sent", "we disconnect", "the peer disconnects", "cancelled", "timeout"};
    c.note(up_total, " up, ", down_total, " down, ", HOW[how]);
    if (c.src.chance(1, 3)) sched::io_hook = faulty_io(c);
    std::string got_up, got_down;
    Res w = OK, r = OK, pw = OK, pr = OK;
    context ctx;
    if (how == TIMEOUT) ctx.set_timeout(milliseconds(c.src.below(20)));
    std::size_t w_done = 0;
    bool ending = false;
    std::vector<std::unique_ptr<arpc::thread>> th;
    auto start = [&](auto f) { th.push_back(std::make_unique<arpc::thread>([f]() mutable {
      try {
        f();
      } catch (pbt::Failure& x) {
        pbt::fatal(x.key, x.msg);
      } })); };
    // Our side.
    start([&] {
      w = result([&] {
        for (auto n : up) {
          auto d = pattern(w_done, n);
          conn->write(d.data(), n);
          if (n % 3 == 0) conn->flush();
          w_done += n;
        }
      });
    });
    bool first_only = c.src.coin();
    start([&] {
      r = result([&] {
        std::string buf;
        // One byte more than there will be: the reader is left waiting.
        while (true) {
          auto n = 1 + c.src.below(first_only ? 50 : 5000);
          if (how == END_OF_DATA) n = std::min<std::size_t>(n, down_total - got_down.size());
          if (!n) break;
          buf.assign(n, 0);
          if (n == 1 && c.src.coin()) {
            buf[0] = conn->getc();
            got_down += buf;
            continue;
          }
          auto m = conn->read(&buf[0], n);
          SCHED_CHECK(c, m <= n, "read", "read " << m << " of " << n);
          got_down.append(buf, 0, m);
          if (m < n) throw errors::eof("short");
        }
      });
      SCHED_CHECK(c, r == OK || ending || r == END || r == IO || r == CANCELLED || r == DEADLINE, "read", "reading " << RES[r]);
    });
    // The other side, under no context of ours.
    auto peer_in = spawn([&] {
      pr = result([&] {
        std::string buf(3000, 0);
        while (got_up.size() < up_total) {
          auto m = peer->read(&buf[0], std::min<std::size_t>(1 + c.src.below(2999), up_total - got_up.size()));
          if (!m) throw errors::eof("end");
          got_up.append(buf, 0, m);
        }
      });
    });
    auto peer_out = spawn([&] {
      std::size_t at = 0;
      pw = result([&] {
        for (auto n : down) {
          auto d = pattern(at, n);
          peer->write(d.data(), n);
          at += n;
        }
      });
    });
    switch (how) {
      case END_OF_DATA: break;
      case DISCONNECT:
        for (auto i = c.src.below(40); i > 0; i--) sched::point();
        if (c.src.coin()) sched::settle();
        ending = true;
        conn->disconnect();
        SCHED_CHECK(c, !conn->connected(), "connected", "a disconnected connection is connected");
        break;
      case PEER:
        for (auto i = c.src.below(40); i > 0; i--) sched::point();
        if (c.src.coin()) sched::settle();
        peer->disconnect();
        break;
      case CANCEL:
        for (auto i = c.src.below(40); i > 0; i--) sched::point();
        if (c.src.coin()) sched::settle();
        for (auto& t : th) t->get_context().cancel();
        break;
      default:;
    }
    for (auto& t : th) t->join();
    if (r != OK) blocked_ended++;
    // No operation on what is over does anything.
    conn->disconnect();
    SCHED_CHECK(c, !conn->connected(), "connected", "a disconnected connection is connected");
    char x = 0;
    SCHED_CHECK(c, result([&] { conn->read(&x, 1); }) == IO && result([&] { conn->write(&x, 1); }) == IO && result([&] { conn->getc(); }) == IO && result([&] { conn->putc(x); }) == IO, "closed", "a disconnected connection can be used");
    peer_in.join();
    peer_out.join();
    conn->disconnect();
    sched::io_hook = nullptr;
    SCHED_CHECK(c, got_down == pattern(0, got_down.size()) && got_down.size() <= down_total, "data", "other bytes come down than were sent");
    SCHED_CHECK(c, got_up == pattern(0, got_up.size()) && got_up.size() <= up_total, "data", "other bytes go up than were sent");
    switch (how) {
      case END_OF_DATA:
        SCHED_CHECK(c, r == OK && w == OK && got_down.size() == down_total, "read", "reading " << RES[r] << ", writing " << RES[w]);
        SCHED_CHECK(c, got_up.size() == up_total && pr == OK, "read", "the other side " << RES[pr] << " after " << got_up.size() << " of " << up_total);
        break;
      case DISCONNECT: SCHED_CHECK(c, r == IO && (w == OK || w == IO), "disconnect", "disconnected, but reading " << RES[r] << ", writing " << RES[w]); break;
      case PEER: SCHED_CHECK(c, (r == END || r == IO) && (w == OK || w == IO), "disconnect", "disconnected by the peer, but reading " << RES[r] << ", writing " << RES[w]); break;
      case CANCEL: SCHED_CHECK(c, r == CANCELLED && (w == OK || w == CANCELLED), "cancel", "cancelled, but reading " << RES[r] << ", writing " << RES[w]); break;
      default: SCHED_CHECK(c, r == DEADLINE && (w == OK || w == DEADLINE), "timeout", "out of time, but reading " << RES[r] << ", writing " << RES[w]);
    }
    if (w == OK) SCHED_CHECK(c, got_up.size() == up_total || how == PEER || how == DISCONNECT || pr == IO, "lost", "written without error, but " << got_up.size() << " of " << up_total << " arrive");
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", "descriptors are left open");
  c.nontrivial(res.switches > 5 && blocked_ended > 0);
}
/// What was sent before the end of a connection is delivered before the end is reported.
PBT_ARM(tail, 8000, 80000, false, 10) {
  context::top();
  auto base = open_fds();
  sched::Policy p = sched::any(c);
  std::size_t size = 0;
  sched::run(c, p, [&] {
    int s[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) pbt::fatal("harness", "no sockets");
    channel_connection conn{channel(s[0])};
    channel there(s[1]);
    size = c.src.below(c.src.coin() ? 10 : 3000);
    auto data = pattern(5, size);
    c.note(size, " bytes, then the end");
    if (size && there.write(data.data(), size) != size) pbt::fatal("harness", "short write");
    there.close();
    std::string got;
    unsigned ends = 0;
    while (ends < 2) {
      auto n = 1 + c.src.below(40) * c.src.below(40);
      std::string buf(n, 0);
      switch (c.src.below(3)) {
        case 0: {
          std::size_t m = 0;
          auto r = result([&] { m = conn.read(&buf[0], n); });
          // A stream that is over gives fewer bytes than asked for, as other streams do.
          SCHED_CHECK(c, r == OK, "read", "reading at the end " << RES[r]);
          SCHED_CHECK(c, m == std::min<std::size_t>(n, size - got.size()), "read", "read " << m << " of " << n << " with " << size - got.size() << " left");
          got.append(buf, 0, m);
          ends += m < n;
          break;
        }
        case 1: {
          char x = 0;
          auto r = result([&] { x = conn.getc(); });
          SCHED_CHECK(c, r == (got.size() < size ? OK : END), "getc", "getc " << RES[r] << " with " << size - got.size() << " left");
          if (r == OK)
            got += x;
          else
            ends++;
          break;
        }
        default: {
          auto left = size - got.size();
          auto r = result([&] { conn.read_fully(&buf[0], n); });
          SCHED_CHECK(c, r == (n <= left ? OK : END), "read_fully", "reading all of " << n << " " << RES[r] << " with " << left << " left");
          if (r == OK) {
            got += buf;
          } else {
            ends = 2;
            got = data;  // what there was is lost with the attempt
          }
        }
      }
    }
    SCHED_CHECK(c, got == data, "data", "other bytes arrive than were sent");
    if (c.src.coin()) {
      conn.disconnect();
      if (c.src.coin()) conn.disconnect();
      char x = 0;
      SCHED_CHECK(c, !conn.connected(), "connected", "disconnected, but connected");
      auto r = result([&] { conn.read(&x, 1); }), w = result([&] { conn.write(&x, 1); }), d = result([&] { (void)conn.data_available(); }), f = result([&] { conn.flush(); });
      SCHED_CHECK(c, r == IO && w == IO && d == IO && f == OK, "closed", "disconnected, but reading " << RES[r] << ", writing " << RES[w] << ", waiting " << RES[d] << ", flushing " << RES[f]);
    }
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", "descriptors are left open");
  c.nontrivial(size > 1);
}

namespace {
/// Connections that can be made again, to a place the case controls.
struct Place {
  pbt::Case* c = nullptr;
  std::deque<channel> others;  // the far ends, in order of their making
  unsigned made = 0, alive = 0;
  bool refuse = false;
  channel_connection* now = nullptr;
};
struct Plug : channel_connection {
  Place* place;
  static channel open(Place* p, const std::string& name) {
    SCHED_CHECK(*p->c, name == "place", "arguments", "the connection is made with other arguments");
    if (p->refuse) throw errors::io_error("refused");
    int s[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) pbt::fatal("harness", "no sockets");
    p->others.emplace_back(s[1]);
    p->made++;
    return channel(s[0]);
  }
  Plug(Place* p, const std::string& name) : channel_connection(open(p, name)), place(p) {
    SCHED_CHECK(*p->c, p->alive == 0, "alive", "a connection is made while the one before is alive");
    p->alive++;
  }
  ~Plug() override { place->alive--; }
};
}  // namespace
/// A connection that is made and unmade again and again, by several threads.
PBT_ARM(reconnect, 8000, 80000, false, 10) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  unsigned made = 0, broken = 0;
  auto res = sched::run(c, p, [&] {
    Place place;
    place.c = &c;
    {
      reconnectable_connection<Plug> conn(&place, std::string("place"));
      SCHED_CHECK(c, !conn.connected() && place.made == 0, "lazy", "it is connected before it is asked to");
      char x = 0;
      SCHED_CHECK(c, result([&] { conn.read(&x, 1); }) == IO && result([&] { conn.write(&x, 1); }) == IO && result([&] { (void)conn.data_available(); }) == IO, "closed", "a connection that is not made can be used");
      bool over = false;
      // A reader that waits for data most of the time; a thread that makes and unmakes it.
      std::vector<std::thread> th;
      auto readers = c.src.below(3);
      for (unsigned k = 0; k < readers; k++)
        th.push_back(spawn([&] {
          for (int i = 0; i < 6 && !over; i++) {
            char y = 0;
            auto r = result([&] { y = conn.getc(); });
            SCHED_CHECK(c, r == OK || r == IO || r == END, "read", "reading " << RES[r]);
            if (r != OK) broken++;
            if (r == OK) SCHED_CHECK(c, y == 'd', "data", "read something else");
            if (r == IO) sched::sleep_ms(1);
          }
        }));
      // Another one that makes and unmakes it at the same time.
      bool two = c.src.chance(1, 4);
      if (two)
        th.push_back(spawn([&] {
          for (auto k = 1 + c.src.below(4); k > 0; k--) {
            if (c.src.coin()) {
              auto r = result([&] { conn.connect(); });
              SCHED_CHECK(c, r == OK || r == IO, "connect", "connecting " << RES[r]);
            } else {
              conn.disconnect();
            }
            if (c.src.coin()) sched::sleep_ms(1);
          }
        }));
      auto n = 1 + c.src.length(8);
      c.note(readers, two ? " readers and another: " : " readers: ");
      for (std::size_t i = 0; i < n; i++) {
        switch (c.src.below(7)) {
          case 6:
            c.note("break, ");
            if (place.now && !two) {
              place.now->disconnect();
              SCHED_CHECK(c, !conn.connected(), "connected", "broken, but connected");
            }
            break;
          case 0: {
            place.refuse = c.src.chance(1, 5);
            bool was = conn.connected();
            auto before = place.made;
            auto r = result([&] { conn.connect(); });
            c.note(was ? "connect again, " : "connect, ");
            if (two) {
              SCHED_CHECK(c, r == OK || (place.refuse && r == IO), "connect", "connecting " << RES[r]);
              place.refuse = false;
              break;
            }
            SCHED_CHECK(c, r == (place.refuse && !was ? IO : OK), "connect", "connecting " << RES[r]);
            SCHED_CHECK(c, place.made == before + (was || place.refuse ? 0 : 1), "connect", "connecting makes " << place.made - before << " connections");
            SCHED_CHECK(c, conn.connected() == (was || !place.refuse), "connected", "after connecting it is " << (conn.connected() ? "" : "not ") << "connected");
            place.refuse = false;
            break;
          }
          case 1:
            c.note("disconnect, ");
            conn.disconnect();
            SCHED_CHECK(c, two || (!conn.connected() && place.alive == 0), "connected", "after disconnecting it is there");
            break;
          case 2:
            c.note("send, ");
            if (conn.connected()) {
              auto r = result([&] {
                conn.write("u", 1);
                conn.flush();
              });
              bool peer = place.others.back() ? true : false;
              SCHED_CHECK(c, r == OK || ((!peer || two) && r == IO), "write", "writing " << RES[r]);
            }
            break;
          case 3:
            c.note("data, ");
            if (conn.connected() && place.others.back()) result([&] { place.others.back().write("ddd", 1 + c.src.below(3)); });
            break;
          case 4:
            c.note("hang up, ");
            if (!place.others.empty()) place.others.back().close();
            break;
          default:
            c.note("wait, ");
            if (c.src.coin())
              sched::settle();
            else
              sched::sleep_ms(c.src.below(3));
        }
      }
      over = true;
      conn.disconnect();
      if (two) {
        // It may be made again meanwhile.
        sched::settle();
        sched::sleep_ms(20);
        sched::settle();
        conn.disconnect();
      }
      for (auto& t : th) t.join();
      made = place.made;
    }
    SCHED_CHECK(c, place.alive == 0, "alive", "a connection outlives its owner");
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", "descriptors are left open");
  c.nontrivial(made > 0 && (broken > 0 || res.switches > 5));
}
/// Packets over a connection, in both protocols.
PBT_ARM(packets, 6000, 60000, false, 10) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  p.max_steps = 3000000;
  unsigned count = 0;
  auto res = sched::run(c, p, [&] {
    int s[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) pbt::fatal("harness", "no sockets");
    std::unique_ptr<packet_connection> a, b;
    bool serial = c.src.coin();
    if (serial) {
      a = std::make_unique<packet_connection_impl<channel_connection, serial_line_packet_protocol<>>>(channel(s[0]));
      b = std::make_unique<packet_connection_impl<channel_connection, serial_line_packet_protocol<>>>(channel(s[1]));
    } else {
      a = std::make_unique<packet_connection_impl<channel_connection, protected_stream_packet_protocol<>>>(channel(s[0]));
      b = std::make_unique<packet_connection_impl<channel_connection, protected_stream_packet_protocol<>>>(channel(s[1]));
    }
    std::vector<std::string> ab, ba;
    for (auto n = c.src.length(4); n > 0; n--) ab.push_back(c.src.chance(1, 4) ? pattern(n, c.src.below(serial ? 1200 : 30000)) : c.src.bytes_upto(20));
    for (auto n = c.src.length(4); n > 0; n--) ba.push_back(c.src.bytes_upto(300));
    count = ab.size() + ba.size();
    c.note(serial ? "serial" : "protected", ": ", ab.size(), " and ", ba.size(), " packets");
    if (c.src.coin()) sched::io_hook = faulty_io(c);
    std::vector<std::thread> th;
    auto sender = [&](packet_connection& x, std::vector<std::string>& v) {
      th.push_back(spawn([&] {
        for (auto& d : v) x.send(d);
      }));
    };
    auto receiver = [&](packet_connection& x, std::vector<std::string>& v) {
      th.push_back(spawn([&] {
        for (auto& d : v) {
          if (c.src.coin()) {
            auto [r] = select(x.data_available());
            *r;
          }
          auto g = x.receive();
          SCHED_CHECK(c, g == d, "data", "received " << g.size() << " bytes that are not the " << d.size() << " sent");
        }
      }));
    };
    sender(*a, ab);
    receiver(*b, ab);
    sender(*b, ba);
    receiver(*a, ba);
    for (auto& t : th) t.join();
    sched::io_hook = nullptr;
    a->disconnect();
    SCHED_CHECK(c, !a->connected() && b->connected(), "connected", "who is connected is wrong");
    auto r = result([&] { b->receive(); });
    SCHED_CHECK(c, r == END || r == IO, "read", "receiving from nobody " << RES[r]);
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", "descriptors are left open");
  c.nontrivial(count > 1 && res.switches > 3);
}
/// The real network of this machine, without a scheduler: dialling, listening, addresses, options.
PBT_ARM(network, 400, 4000, false, 20) {
  context::top();
  // Without a family, as machines that only have a loopback network refuse to resolve with one.
  auto e = [] { return endpoint().name("127.0.0.1"); };
  // Once, so that the resolver is there.
  static bool first = [&] {
    listener l(e().port(0));
    return true;
  }();
  (void)first;
  auto same = [](const address& a, const address& b) {
    return a.address_size() == b.address_size() && !memcmp(a.address_data(), b.address_data(), a.address_size());
  };
  auto base = open_fds();
  unsigned n = 0;
  {
    bool nb = c.src.coin();
    listener l(e().port(0), c.src.coin(), nb);
    // The port was chosen by the system.
    int port = 0;
    for (int fd = 0; fd < 512; fd++) {
      sockaddr_in a{};
      socklen_t len = sizeof(a);
      int listening = 0;
      socklen_t ol = sizeof(listening);
      if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &listening, &ol) == 0 && listening && getsockname(fd, reinterpret_cast<sockaddr*>(&a), &len) == 0) port = ntohs(a.sin_port);
    }
    PBT_CHECK(c, port != 0, "listen", "nothing listens");
    n = 1 + c.src.length(3);
    std::vector<channel> ours, theirs;
    for (unsigned i = 0; i < n; i++) {
      bool cnb = c.src.coin();
      ours.push_back(dial(e().port(port), cnb));
      auto& o = ours.back();
      if (c.src.coin()) o.no_delay(c.src.coin());
      if (c.src.coin()) o.keep_alive(c.src.coin());
      bool lin = c.src.coin();
      int secs = c.src.below(5);
      o.linger(lin, std::chrono::seconds(secs));
      struct linger got {};
      socklen_t len = sizeof(got);
      getsockopt(*o, SOL_SOCKET, SO_LINGER, &got, &len);
      PBT_CHECK(c, (got.l_onoff != 0) == lin && (!lin || got.l_linger == secs), "linger", "asked for " << lin << " " << secs << ", got " << got.l_onoff << " " << got.l_linger);
      o.linger(false);
      bool delay = c.src.coin();
      o.no_delay(delay);
      int v = 0;
      len = sizeof(v);
      getsockopt(*o, IPPROTO_TCP, TCP_NODELAY, &v, &len);
      PBT_CHECK(c, (v != 0) == delay, "no_delay", "no_delay is not " << delay);
      PBT_CHECK(c, ((fcntl(*o, F_GETFL) & O_NONBLOCK) != 0) == cnb, "nonblock", "dialled " << (cnb ? "non-" : "") << "blocking, but is not");
    }
    if (c.src.coin()) {
      auto m = std::move(l);
      for (unsigned i = 0; i < n; i++) theirs.push_back(m.accept());
      l = std::move(m);
    } else {
      for (unsigned i = 0; i < n; i++) theirs.push_back(l.accept());
    }
    // Who is who, by the addresses.
    std::vector<int> match(n, -1);
    for (unsigned i = 0; i < n; i++)
      for (unsigned k = 0; k < n; k++)
        if (same(ours[i].own_addr(), theirs[k].peer_addr())) {
          PBT_CHECK(c, match[i] < 0 && same(ours[i].peer_addr(), theirs[k].own_addr()), "address", "addresses do not pair");
          match[i] = k;
        }
    for (unsigned i = 0; i < n; i++) PBT_CHECK(c, match[i] >= 0, "address", "a connection was not accepted");
    for (unsigned i = 0; i < n; i++) {
      auto size = c.src.below(5000);
      auto data = pattern(i * 1000, size);
      auto& from = c.src.coin() ? ours[i] : theirs[match[i]];
      auto& to = &from == &ours[i] ? theirs[match[i]] : ours[i];
      std::size_t put = 0;
      while (put < size) put += from.write(data.data() + put, size - put);
      from.flush();
      std::string got;
      char buf[777];
      while (got.size() < size) got.append(buf, to.read(buf, sizeof(buf)));
      PBT_CHECK(c, got == data, "data", "other bytes arrive than were sent");
      from.close();
      PBT_CHECK(c, result([&] { to.read(buf, 1); }) == END, "end", "the end is not reported");
    }
    // Nobody else calls.
    {
      context ctx;
      ctx.set_timeout(milliseconds(1));
      PBT_CHECK(c, result([&] { l.accept(); }) == DEADLINE, "accept", "accepted nobody");
      ctx.cancel();
      PBT_CHECK(c, result([&] { l.accept(); }) == CANCELLED, "accept", "a cancelled accept goes on");
    }
    ours.clear();
    theirs.clear();
    if (c.src.chance(1, 4)) {
      // A port where nobody listens.
      int free_port = 0;
      {
        channel s(::socket(AF_INET, SOCK_STREAM, 0));
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t len = sizeof(a);
        if (::bind(*s, reinterpret_cast<sockaddr*>(&a), len) || getsockname(*s, reinterpret_cast<sockaddr*>(&a), &len)) pbt::fatal("harness", "no port");
        free_port = ntohs(a.sin_port);
      }
      PBT_CHECK(c, result([&] { dial(e().port(free_port), c.src.coin()); }) == IO, "dial", "dialling nobody does not fail");
    }
  }
  // The resolver may take its time to close its own.
  for (int i = 0; i < 100 && open_fds() > base; i++) usleep(1000);
  PBT_CHECK(c, open_fds() <= base, "descriptors", open_fds() - base << " descriptors are left open");
  c.nontrivial(n > 1);
}
