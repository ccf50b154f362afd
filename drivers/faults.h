// System calls of the code under test that can be made to fail. The program's own definitions take precedence over the library's.
#ifndef VERIF_DRIVER_FAULTS_H
#define VERIF_DRIVER_FAULTS_H
#include <netdb.h>
#include <sys/syscall.h>
struct Faults
{
    int fd = -1;                       // whose sending and receiving is touched
    int send_error = 0, recv_error = 0, after = 0;  // errors to come, after that many sendings
    std::vector<std::string> hosts;    // what every name resolves to; "" fails
    bool resolve = false;
};
static Faults g_faults;
extern "C" ssize_t send(int fd, const void* p, size_t n, int f)
{
    if(fd == g_faults.fd && fd >= 0)
    {
        if(g_faults.send_error && g_faults.after-- <= 0) { errno = g_faults.send_error; return -1; }
    }
    return syscall(SYS_sendto, fd, p, n, f, nullptr, 0);
}
extern "C" ssize_t recv(int fd, void* p, size_t n, int f)
{
    if(fd == g_faults.fd && fd >= 0 && g_faults.recv_error) { errno = g_faults.recv_error; return -1; }
    return syscall(SYS_recvfrom, fd, p, n, f, nullptr, nullptr);
}
extern "C" void freeaddrinfo(addrinfo* a) { while(a) { auto n = a->ai_next; delete (sockaddr_in*)a->ai_addr; delete a; a = n; } }
extern "C" int getaddrinfo(const char* host, const char* service, const addrinfo* hint, addrinfo** out)
{
    *out = nullptr; addrinfo** end = out; std::vector<std::string> names = g_faults.resolve ? g_faults.hosts : std::vector<std::string>{host ? host : "0.0.0.0"};
    for(auto& h : names)
    {
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(service ? atoi(service) : 0);
        if(h == "localhost") inet_pton(AF_INET, "127.0.0.1", &a.sin_addr); else if(inet_pton(AF_INET, h.c_str(), &a.sin_addr) != 1) continue;
        auto i = new addrinfo{}; i->ai_family = AF_INET; i->ai_socktype = hint && hint->ai_socktype ? hint->ai_socktype : SOCK_STREAM; i->ai_protocol = hint ? hint->ai_protocol : 0; i->ai_addrlen = sizeof a; i->ai_addr = (sockaddr*)new sockaddr_in(a); *end = i; end = &i->ai_next;
    }
    return *out ? 0 : EAI_NONAME;
}
#endif
