// Simulated IPv4 network.
#pragma once
#include "sim.h"
#include <deque>

namespace sim {
typedef uint32_t IP;  // host order
static inline IP mkip(int a, int b, int c, int d) { return (IP)a << 24 | (IP)b << 16 | (IP)c << 8 | (IP)d; }
std::string ipstr(IP a);
std::string v6str(IP a);   // the same host as an IPv6 socket shows it

struct Dgram { IP src; uint16_t sport; std::string data; uint64_t tag; };
struct Obj {
  int kind = 0;  // 1 socket, 2 file, 3 console
  int refs = 0;
  virtual ~Obj() {}
};
enum TState { T_CLOSED, T_LISTEN, T_SYN_SENT, T_EST, T_DEAD };
// Bytes taken from the front in time proportional to what is taken, however much is queued.
struct Fifo {
  std::string b;
  size_t at = 0;
  size_t size() const { return b.size() - at; }
  bool empty() const { return at == b.size(); }
  const char* data() const { return b.data() + at; }
  void clear() { b.clear(); at = 0; }
  void append(const char* p, size_t n) { b.append(p, n); }
  void drop(size_t n) {
    at += n;
    if (at == b.size()) clear();
    else if (at > b.size() / 2) { b.erase(0, at); at = 0; }
  }
};

struct Sock : Obj {
  uint64_t id = 0;
  bool tcp = false, actor = false;
  // address
  IP lip = 0; uint16_t lport = 0; bool bound = false, reuse = false, v6 = false;
  IP rip = 0; uint16_t rport = 0;
  int fd = -1;
  bool closed = false;           // descriptor released
  bool nonblock = false;
  Time rcvtimeo = 0, sndtimeo = 0;
  bool keepalive = false; int kidle = 7200, kintvl = 75, kcnt = 9; int user_timeout = 0;
  WaitQ rq, wq;
  // TCP
  TState st = T_CLOSED;
  Sock* peer = nullptr;
  int err = 0;                   // pending socket error
  bool rshut = false, wshut = false, fin_in = false, fin_sent = false, conn_done = false, active = false;
  Fifo snd;               // written, not yet in the peer's receive buffer
  std::string rcv;               // received, not yet read
  size_t sndbuf = 16384, rcvbuf = 32768;
  bool xfer = false;             // a segment event is scheduled
  bool link_dead = false;        // the path to the peer is gone (vanished)
  Time last_rx = 0;
  Time rto_at = 0;
  // listener
  int backlog = 0;
  std::deque<Sock*> aq;
  // UDP
  std::deque<Dgram> dq;
  size_t dq_bytes = 0;
  // actor callbacks
  bool paused = false;
  std::function<void(Sock*, const char*, size_t)> on_data;
  std::function<void(Sock*, int)> on_end;   // 0 FIN, 1 RST
  std::function<void(Sock*)> on_up;
  uint64_t user = 0;
  bool faulted = false;          // an injected error was returned on this socket
  void* userp = nullptr;
  uint64_t rx_total = 0, tx_total = 0;
  std::string name;
};

struct Route { int mode = 0; Time delay = 0; std::function<void(Sock*)> up; };  // 0 connect, 1 refuse, 2 blackhole, 3 unreachable
struct Net {
  std::function<bool(IP)> is_local;                              // addresses the SUT may bind
  std::function<Route(Sock*, IP, uint16_t)> route;               // SUT connect() to a remote
  std::function<int(const std::string&, IP*, Time*)> dns;        // 0 ok or EAI_*
  std::function<bool(const std::string&)> dual;                  // the name has an IPv6 address too, which comes first
  std::function<void(Sock*, IP, uint16_t, const std::string&)> udp_out;  // successful sendto
  std::function<void(Sock*, IP, uint16_t, const std::string&)> udp_out_fail;  // refused sendto
  std::function<void(Sock*, const Dgram&, bool)> udp_in;         // queued (or dropped for lack of space)
  std::function<void(Sock*)> bound, closed, connected;
  std::function<void(Sock*, IP, uint16_t)> connecting;
  std::function<void(Sock*, const char*, size_t)> tcp_write;     // SUT wrote bytes
  std::function<void(Sock*)> accepted, accept_ret;               // taken off the queue; about to be handed to the caller
  size_t sut_sndbuf = 16384, sut_rcvbuf = 32768, udp_rcvbuf = 200000;
  IP default_ip = mkip(10, 0, 0, 1);
  int fd_limit = 256;
  bool watch_fd = true;
};
extern Net net;

// actor side
Sock* actor_connect(IP from, IP to, uint16_t port, std::function<void(Sock*)> up, std::function<void(int)> fail);
void actor_send(Sock* s, const std::string& d);
void actor_fin(Sock* s);
void actor_rst(Sock* s);
void actor_vanish(Sock* s);
void actor_pause(Sock* s, bool p);
bool udp_inject(IP dst, uint16_t port, IP src, uint16_t sport, const std::string& data, uint64_t tag);
bool tcp_port_listening(IP a, uint16_t port);
struct Listening { IP ip; uint16_t port; bool v6; };
std::vector<Listening> sut_listening();  // where the code under test listens
int open_socks();                     // sockets among them
int open_fds();                       // descriptors above the console
std::string fd_dump();
size_t live_sockets();
extern std::vector<Sock*> sut_udp;    // bound UDP sockets, in order of binding
// descriptors
int fd_install(Obj* o);
Obj* fd_get(int fd, const char* what);
int fd_close(int fd);
void fd_console(int fd, int which);
extern std::string console[3];
struct Console : Obj { int which = 1; Console() { kind = 3; } };
extern bool sig_restart;
bool fd_is_console(int fd);
extern std::function<void(int fd, Obj*, const char*, size_t)> raw_write_hook;  // write() on a descriptor by stdio
void net_init();
}  // namespace sim
