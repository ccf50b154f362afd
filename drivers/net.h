// Loopback peers by plain system calls.
#ifndef VERIF_DRIVER_NET_H
#define VERIF_DRIVER_NET_H
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <poll.h>
#include <asio.hpp>
#include "exe4cpp/asio/StrandExecutor.h"
static std::string g_ip;
static void new_ip() { g_ip = "127." + std::to_string(1 + getpid() % 250) + "." + std::to_string(rnd(256)) + "." + std::to_string(1 + rnd(250)); }
static sockaddr_in addr(unsigned port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, g_ip.c_str(), &a.sin_addr); return a; }
static unsigned port_of(int fd) { sockaddr_in a{}; socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); return ntohs(a.sin_port); }
static int listener(unsigned& port, int rcvbuf = 0)
{
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if(rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    auto a = addr(port); if(bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, 64)) { close(fd); return -1; }
    port = port_of(fd); return fd;
}
static unsigned free_port() { unsigned p = 0; int fd = listener(p); if(fd >= 0) close(fd); return p; }
static int peer() { return socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); }
static bool dial(int fd, unsigned port) { auto a = addr(port); return connect(fd, (sockaddr*)&a, sizeof a) == 0; }
static void hangup(int fd, bool reset) { if(reset) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(fd); }
// reads what there is; true when the other side has closed
static bool drain(int fd, std::vector<uint8_t>& in)
{
    uint8_t b[4096];
    for(;;) { auto n = recv(fd, b, sizeof b, MSG_DONTWAIT); if(n > 0) { in.insert(in.end(), b, b + n); continue; } if(n == 0) return true; return errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR; }
}
struct Loop
{
    std::shared_ptr<asio::io_service> io = std::make_shared<asio::io_service>();
    std::function<void()> each = [] {};
    size_t step(size_t max = 200) { size_t n = 0; io->reset(); std::error_code ec; while(n < max && io->poll_one(ec)) { ++n; each(); } io->reset(); return n; }
    // runs everything that is ready until nothing more comes
    void settle(unsigned rounds = 2) { for(unsigned quiet = 0, k = 0; quiet < rounds && k < 400; ++k) { if(step()) quiet = 0; else { ++quiet; usleep(150); } } }
    // waits for what must come
    template <typename F> bool until(F f, unsigned ms = 1500) { auto e = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms); for(;;) { step(); if(f()) return true; if(std::chrono::steady_clock::now() > e) return false; usleep(300); } }
};
#endif
