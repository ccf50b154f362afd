// TCP connections over loopback and the manager with many threads: C20, C21.
#include "common.h"
#include <atomic>
#include <mutex>
#include <thread>
#include "IConnectionListener.h"
#include "ITcpConnection.h"
#include "client/channel/AsioClientTcpConnection.h"
#include "logging/Logger.h"
#include "modbus/IModbusManager.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IClientSession.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/server/IServerChannel.h"
#include "server/channel/AsioServerTcpConnection.h"
#include "msgs.h"
#include "net.h"
#include "faults.h"
using bytes = std::vector<uint8_t>;
static std::ostringstream g_hist;
static void note(const std::string& s) { g_hist << " " << s; g_case = "history:" + g_hist.str(); if(g_case.size() > 5000) g_case = "history: ..." + g_case.substr(g_case.size() - 5000); }

// ---------------------------------------------------------------- C21
struct Heard : IConnectionListener
{
    bytes in; unsigned errors = 0, connected = 0, written = 0, after = 0; bool silent = false, toobig = false; std::string what;
    void call() { if(silent) ++after; }
    void on_connected() override { call(); ++connected; }
    void on_write_done() override { call(); ++written; }
    void on_receive(const ser4cpp::rseq_t& d) override { call(); in.insert(in.end(), (const uint8_t*)d, (const uint8_t*)d + d.length()); if(d.length() == 0) toobig = true; }
    void on_error(const std::string& m) override { call(); ++errors; what = m; }
};
static std::string N(unsigned long n) { return std::to_string(n); }
struct History
{
    bool client; Loop loop; std::shared_ptr<exe4cpp::StrandExecutor> exe = std::make_shared<exe4cpp::StrandExecutor>(loop.io);
    std::shared_ptr<Logger> log = LoggerFactory::create_null_logger("x");
    unsigned port = 0; int lfd = -1, fd = -1, mine = -1; std::shared_ptr<Heard> heard = std::make_shared<Heard>(); std::shared_ptr<ITcpConnection> conn; std::shared_ptr<AsioServerTcpConnection> sc;
    std::string from, host; bytes sent, got, fed; unsigned errors = 0, done = 0, connected = 0; bool eof = false, ok = true, gone = false, deaf = false;

    void bad(const std::string& w) { fail(w); ok = false; }
    void submit(size_t n) { bytes b(n); for(auto& x : b) x = rnd(256); std::unique_ptr<uint8_t[]> p(new uint8_t[n]); memcpy(p.get(), b.data(), n); conn->send(ser4cpp::rseq_t(p.get(), n)); memset(p.get(), 0xEE, n); p.reset(); sent.insert(sent.end(), b.begin(), b.end()); ++done; }
    bool agree(const char* when)
    {
        if(!ok) return false;
        loop.until([&] { eof = drain(fd, got) || eof; return got.size() >= sent.size() && (deaf || (heard->in.size() >= fed.size() && heard->written >= done)); }); loop.settle(1); eof = drain(fd, got) || eof;
        std::string w = when; w += ": ";
        if(got != sent) { size_t i = 0; while(i < got.size() && i < sent.size() && got[i] == sent[i]) ++i; bad(w + "the peer receives " + N(got.size()) + " bytes, " + N(sent.size()) + " were submitted, first difference at " + N(i)); }
        else if(deaf) { if(!heard->in.empty() || heard->errors || heard->connected || heard->written) bad(w + "a listener that was replaced is called"); }
        else if(heard->in != fed) bad(w + "the listener is given " + N(heard->in.size()) + " bytes that are not the " + N(fed.size()) + " sent by the peer");
        else if(heard->errors != errors) bad(w + N(heard->errors) + " errors reported (" + heard->what + "), expected " + N(errors));
        else if(heard->written != done) bad(w + N(heard->written) + " transmissions reported, " + N(done) + " were submitted");
        else if(heard->connected != connected) bad(w + N(heard->connected) + " connections reported, expected " + N(connected));
        if(ok && eof) bad(w + "the connection is closed");
        return ok;
    }
    // an error was provoked: it is reported once, and the connection closed
    void broken()
    {
        if(!deaf) loop.until([&] { return heard->errors >= errors; });
        loop.settle();
        if(!deaf && heard->errors != errors) bad(N(heard->errors) + " errors reported (" + heard->what + "), expected " + N(errors));
        if(fd >= 0) { if(!loop.until([&] { return drain(fd, got); })) bad("the connection is not closed"); else { hangup(fd, false); fd = -1; } }
        gone = true; g_faults.fd = -1; g_faults.send_error = g_faults.recv_error = 0; mine = -1;
    }
    bool attach()
    {
        int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); eof = false;
        sockaddr_in pa{}; socklen_t l = sizeof pa; getsockname(fd, (sockaddr*)&pa, &l);
        // our end: the socket whose peer is that one
        mine = -1; sockaddr_in q{}; l = sizeof q; getpeername(fd, (sockaddr*)&q, &l);
        for(int x = 3; x < 200 && mine < 0; ++x) { sockaddr_in a{}, c{}; socklen_t m = sizeof a, k = sizeof c; if(x != fd && getpeername(x, (sockaddr*)&a, &m) == 0 && a.sin_family == AF_INET && a.sin_port == pa.sin_port && getsockname(x, (sockaddr*)&c, &k) == 0 && c.sin_port == q.sin_port) mine = x; }
        g_faults.fd = mine;
        if(client && !from.empty()) { char t[32] = ""; inet_ntop(AF_INET, &q.sin_addr, t, sizeof t); if(from != t) { bad(std::string("it connects from ") + t); return false; } }
        return true;
    }
    bool arrives()
    {
        pollfd pf{lfd, POLLIN, 0}; if(!loop.until([&] { return poll(&pf, 1, 0) > 0; })) { bad("no connection is made"); return false; }
        fd = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC); ++connected; gone = false; return attach();
    }
    // fills the way to the peer
    bool stuff()
    {
        if(!agree("sent") || mine < 0) return false;
        note("the peer does not read;"); int small = 1; setsockopt(mine, SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
        bytes x(700); for(auto& y : x) y = rnd(256); for(;;) { auto n = send(mine, x.data(), x.size(), MSG_DONTWAIT | MSG_NOSIGNAL); if(n <= 0) break; sent.insert(sent.end(), x.begin(), x.begin() + n); }
        return true;
    }
    void stop()
    {
        // from when the shutdown has run, nothing may be started and nobody called
        note("shutdown"); unsigned what = rnd(5); bytes before;
        if(what == 0 && fd >= 0) { note("(with bytes to read)"); send(fd, "abc", 3, MSG_NOSIGNAL); }
        if(what == 3 && mine >= 0) { note("(and a transmission under way)"); std::unique_ptr<uint8_t[]> p(new uint8_t[9]()); sent.insert(sent.end(), 9, 0); conn->send(ser4cpp::rseq_t(p.get(), 9)); if(coin()) { g_faults.send_error = EPIPE; g_faults.after = 0; note("that fails"); } }
        conn->shutdown(); exe->post([&] { heard->silent = true; pollfd pf{lfd, POLLIN, 0}; while(client && lfd >= 0 && poll(&pf, 1, 0) > 0) close(accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC)); });
        if(coin()) loop.settle(1);
        if(what == 1 && fd >= 0) { note("peer sends"); send(fd, "abc", 3, MSG_NOSIGNAL); }
        if(what == 2 && fd >= 0) { note("peer resets"); drain(fd, got); hangup(fd, true); fd = -1; }
        if(what == 4 && mine >= 0) { note("reading fails"); g_faults.recv_error = ECONNRESET; send(fd, "abc", 3, MSG_NOSIGNAL); }
        loop.settle(1); bytes more;
        if(rnd(3)) { note("send"); std::unique_ptr<uint8_t[]> p(new uint8_t[5]()); conn->send(ser4cpp::rseq_t(p.get(), 5)); }
        if(sc && rnd(3) == 0) { note("start"); sc->start(); }
        if(coin()) { note("close"); conn->close(); }
        if(rnd(3) == 0) { note("shutdown"); conn->shutdown(); }
        loop.settle();
        if(heard->after) bad("the listener is called " + N(heard->after) + " times after shutdown");
        if(fd >= 0) { drain(fd, got); if(got.size() > sent.size()) bad("bytes are transmitted after shutdown"); }
        std::weak_ptr<ITcpConnection> w = conn; conn.reset(); sc.reset(); loop.settle();
        // resolving cannot be ended at once
        if(!loop.until([&] { return w.expired(); }, 300)) bad("an operation is still under way after shutdown");
        if(client) { pollfd pf{lfd, POLLIN, 0}; if(poll(&pf, 1, 0) > 0) bad("it connects after shutdown"); }
    }
    // before there is a connection: what cannot succeed is reported once for each sending
    void hopeless(const std::string& why)
    {
        unsigned n = 1 + rnd(3); note(why);
        for(unsigned i = 0; i < n && ok; ++i)
        {
            note("send"); submit(1 + rnd(20)); ++errors; if(!deaf) loop.until([&] { return heard->errors >= errors; }); loop.settle(deaf ? 6 : 2);
            if(!deaf && heard->errors != errors) bad(N(heard->errors) + " errors reported, expected " + N(errors));
        }
        sent.clear(); done = 0;
    }
    void run()
    {
        g_hist.str(""); ++g_cases; new_ip(); note(client ? "client connection" : "server connection");
        g_faults = Faults{}; g_faults.resolve = client && rnd(3) == 0;
        lfd = listener(port, 4096); if(lfd < 0) return;
        deaf = rnd(10) == 0; from = coin() ? "" : "127.3." + N(rnd(200)) + "." + N(1 + rnd(200));
        bool cut = rnd(6) == 0;
        if(client)
        {
            if(rnd(20) == 0) from = coin() ? "198.51.100.7" : "no address"; bool noadapter = !from.empty() && from.compare(0, 4, "127.") != 0;
            host = g_faults.resolve ? "some.host" : g_ip;
            conn = std::make_shared<AsioClientTcpConnection>(log, exe, Ipv4Endpoint{host, port}, from); conn->set_listener(heard); if(!from.empty()) note("from " + from);
            if(deaf) { note("whose listener goes away"); conn->set_listener(std::make_shared<Heard>()); }
            if(noadapter) { if(g_faults.resolve) g_faults.hosts = {g_ip}; hopeless("(no such adapter)"); pollfd pf{lfd, POLLIN, 0}; if(poll(&pf, 1, 0) > 0) bad("it connects"); if(ok && coin()) stop(); end(); return; }
            if(g_faults.resolve && coin()) { g_faults.hosts.clear(); hopeless("the name is unknown;"); if(!ok) { end(); return; } note("the name is known;"); }
            if(rnd(5) == 0)
            {
                // nobody listens: the error is reported once, and the next sending tries again
                close(lfd); g_faults.hosts = {g_ip, g_ip}; hopeless("nobody listens;"); if(!ok) { lfd = -1; end(); return; }
                lfd = listener(port, 4096); if(lfd < 0) { end(); return; } note("the server listens;");
            }
            if(g_faults.resolve)
            {
                // some addresses of the name, the last of which listens
                g_faults.hosts.clear(); unsigned n = rnd(4); auto ip = g_ip; while(n--) { new_ip(); if(g_ip != ip) g_faults.hosts.push_back(g_ip); } g_ip = ip; g_faults.hosts.push_back(ip); note("(address " + N(g_faults.hosts.size()) + " of the name listens)");
            }
            note("send"); submit(1 + rnd(260)); if(rnd(4) == 0) { note("send before connected"); sent.clear(); done = 0; submit(1 + rnd(260)); }
            if(cut) { unsigned n = rnd(6); note("run " + N(n)); for(unsigned i = 0; i < n; ++i) { loop.step(1); usleep(60); } stop(); end(); return; }
            arrives();
        }
        else
        {
            sc = std::make_shared<AsioServerTcpConnection>(log, exe, std::weak_ptr<AsioServer>()); conn = sc;
            if(coin()) sc->set_listener(heard);
            fd = peer(); int small = 4096; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &small, sizeof small); if(!dial(fd, port)) { end(); return; }
            int a = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC); sc->get_socket().assign(asio::ip::tcp::v4(), a); sc->set_listener(heard);
            if(deaf) { note("without listener"); sc->set_listener(nullptr); }
            attach();
            if(rnd(4) == 0) { note("send before start"); submit(1 + rnd(100)); if(coin()) { note("send before start"); sent.clear(); done = 0; submit(1 + rnd(100)); } }
            if(cut && coin()) { stop(); end(); return; }
            note("start"); sc->start();
            if(cut) { loop.step(rnd(3)); stop(); end(); return; }
        }
        agree("connected");
        for(unsigned k = 1 + rnd(12); ok && k > 0; --k)
        {
            switch(rnd(9))
            {
                case 0: case 1: { unsigned n = 1 + rnd(6); note("send x" + N(n)); while(n--) submit(1 + rnd(260)); if(coin()) agree("sent"); break; }
                case 2: case 3: case 4: { unsigned n = 1 + rnd(4); note("peer sends x" + N(n)); while(n--) { bytes b(1 + (rnd(4) ? rnd(300) : rnd(9000))); for(auto& x : b) x = rnd(256); if(send(fd, b.data(), b.size(), MSG_NOSIGNAL) != (ssize_t)b.size()) { ok = false; break; } if(!deaf) fed.insert(fed.end(), b.begin(), b.end()); if(coin()) loop.step(3); } agree("received"); break; }
                case 5:
                {
                    // the socket takes no more for a while: what is submitted has to stay alive
                    if(!stuff()) break;
                    unsigned n = rnd(3) ? 1 + rnd(3) : 100 + rnd(200); note("send x" + N(n)); while(n--) submit(1 + rnd(260)); loop.step();
                    if(coin()) { note("run"); loop.settle(); }
                    if(rnd(4) == 0) { note("peer resets"); ++errors; hangup(fd, true); fd = -1; broken(); break; }
                    if(rnd(4) == 0 && mine >= 0) { note("reading fails"); ++errors; g_faults.recv_error = ECONNRESET; send(fd, "x", 1, MSG_NOSIGNAL); broken(); break; }
                    if(rnd(4) == 0) { note("close"); conn->close(); broken(); break; }
                    note("the peer reads"); agree("sent"); break;
                }
                case 6: if(rnd(3) == 0) { note("nothing"); loop.settle(1); } break;
                case 7:
                {
                    if(rnd(2) || !agree("before the failure")) break;
                    unsigned how = rnd(6);
                    if(how == 0)
                    {
                        note("peer resets"); hangup(fd, true); fd = -1; ++errors;
                        // a transmission and the read may both fail: the connection has failed once
                        if(coin()) { unsigned n = 1 + rnd(3); note("send x" + N(n)); while(n--) submit(1 + rnd(100)); }
                    }
                    else if(how == 1) { note("peer closes"); if(!client) ++errors; shutdown(fd, SHUT_WR); }
                    else if(how <= 3 && mine >= 0) { unsigned n = 1 + rnd(3); g_faults.after = rnd(n); note("sending fails, after " + N(g_faults.after) + "; send x" + N(n)); g_faults.send_error = coin() ? EPIPE : ECONNRESET; while(n--) submit(1 + rnd(100)); ++errors; got.clear(); }
                    else if(how == 4 && mine >= 0) { note("reading fails"); g_faults.recv_error = coin() ? ECONNRESET : ETIMEDOUT; send(fd, "x", 1, MSG_NOSIGNAL); ++errors; if(coin()) { note("send"); submit(1 + rnd(100)); } }
                    else if(how == 5) { note("close"); conn->close(); if(coin()) { note("send"); submit(1 + rnd(100)); loop.settle(); if(client) { /* it may have been sent before the closing */ } } }
                    else break;
                    broken(); break;
                }
                default: break;
            }
            if(gone) break;
        }
        if(ok && gone && client && rnd(4))
        {
            // the next sending connects again, and nothing of what was under way is left
            sent.clear(); got.clear(); done = deaf ? 0 : heard->written; heard->in.clear(); fed.clear();
            note("send again"); submit(1 + rnd(200));
            if(arrives() && agree("connected again")) { bytes b(20, 7); if(send(fd, b.data(), b.size(), MSG_NOSIGNAL) == 20 && !deaf) fed.insert(fed.end(), b.begin(), b.end()); agree("received again"); unsigned n = 1 + rnd(3); note("send x" + N(n)); while(n--) submit(1 + rnd(100)); agree("sent again"); }
        }
        else if(ok && gone && !client)
        {
            unsigned w = heard->written, e = heard->errors; size_t i = heard->in.size();
            if(coin()) { note("send"); submit(1 + rnd(100)); } loop.settle();
            if(heard->written != w || heard->errors != e || heard->in.size() != i) bad("a closed connection calls its listener");
        }
        if(ok && !gone && rnd(3)) stop();
        end();
    }
    void end()
    {
        if(conn) conn->shutdown();
        conn.reset(); sc.reset(); g_faults = Faults{};
        if(fd >= 0) hangup(fd, true); if(lfd >= 0) close(lfd); loop.settle(1);
    }
};
static void connection_history(bool client) { History h; h.client = client; h.run(); }

// ---------------------------------------------------------------- C20
struct Session : IServerSession
{
    std::atomic<unsigned>* told; explicit Session(std::atomic<unsigned>* t) : told(t) {}
    void shutdown() override { ++*told; }
    Expected<ReadCoilsResponse> on_request(const ReadCoilsRequest& r) override { ReadCoilsResponse x; for(unsigned i = 0; i < r.qty_of_bits; ++i) { decltype(x.values)::value_type e{}; e.address = r.starting_address + i; e.value = i % 3 == 0; x.values.push_back(e); } return Expected<ReadCoilsResponse>(x); }
};
static void manager_history()
{
    g_hist.str(""); ++g_cases; new_ip();
    unsigned nt = rnd(5), workers = 1 + rnd(8), each = 1 + rnd(12); std::vector<std::unique_ptr<std::atomic<unsigned>>> told; std::vector<std::shared_ptr<IServerChannel>> servers; std::vector<std::shared_ptr<IClientChannel>> clients; std::mutex mx;
    std::atomic<unsigned> answered{0}, errors{0}, asked{0};
    note("manager with " + std::to_string(nt) + " threads, " + std::to_string(workers) + " users creating " + std::to_string(each) + " channels each");
    std::unique_ptr<IModbusManager> m = IModbusManager::create(LoggerFactory::create_null_logger("m"), nt);
    std::vector<unsigned> ports; for(unsigned i = 0; i < workers * each; ++i) { unsigned p = free_port(); for(auto q : ports) if(q == p) p = 0; ports.push_back(p); }
    std::vector<std::thread> ts; std::vector<uint64_t> seeds(workers); for(auto& s : seeds) s = rnd();
    for(unsigned w = 0; w < workers; ++w) ts.emplace_back([&, w] {
        for(unsigned i = 0; i < each; ++i)
        {
            bool server = (seeds[w] >> (i % 60)) & 1; unsigned port = ports[w * each + i]; if(!port) continue;
            try
            {
                if(server)
                {
                    auto c = m->create_server_tcp_channel("s", Ipv4Endpoint{g_ip, port}, 1 + i % 3); std::atomic<unsigned>* t;
                    { std::lock_guard<std::mutex> l(mx); told.emplace_back(new std::atomic<unsigned>(0)); t = told.back().get(); if((seeds[w] >> 61) % 2) servers.push_back(c); }
                    c->add_session(UnitIdentifier{1}, std::make_shared<Session>(t)); if(i % 2) c->start();
                }
                else
                {
                    auto c = m->create_client_tcp_channel("c", Ipv4Endpoint{g_ip, 1}, ""); auto s = c->create_session(UnitIdentifier{1}, std::chrono::seconds(30));
                    if((seeds[w] >> 62) % 2) { std::lock_guard<std::mutex> l(mx); clients.push_back(c); }
                    ++asked; s->send_request(readreq<ReadCoilsRequest>(1, 1), [&](const Expected<ReadCoilsResponse>& r) { if(r.is_valid()) ++answered; else ++errors; });
                }
            }
            catch(const std::exception&) {}
        }
    });
    for(auto& t : ts) t.join();
    auto wait = [&](std::function<bool()> f) { for(unsigned i = 0; i < 3000; ++i) { if(f()) return true; usleep(1000); } return f(); };
    if(!wait([&] { return errors + answered == asked; })) fail(std::to_string(asked - errors - answered) + " of " + std::to_string(asked) + " requests to a port nobody listens on are not answered in three seconds");
    // a pair of channels of its own: adapter, endpoint, limit
    unsigned port = free_port(), max = 1 + rnd(3); std::vector<int> fds;
    if(coin())
    {
        try
        {
            note("server with at most " + std::to_string(max) + " connections");
            auto s = m->create_server_tcp_channel("s", Ipv4Endpoint{g_ip, port}, max); s->add_session(UnitIdentifier{9}, std::make_shared<Session>((told.emplace_back(new std::atomic<unsigned>(0)), told.back().get()))); s->start(); servers.push_back(s);
            std::atomic<bool> good{false}, done{false}; auto c = m->create_client_tcp_channel("c", Ipv4Endpoint{g_ip, port}, "127.0.0.1"); auto cs = c->create_session(UnitIdentifier{9}, std::chrono::seconds(30));
            cs->send_request(readreq<ReadCoilsRequest>(5, 9), [&](const Expected<ReadCoilsResponse>& r) { if(r.is_valid()) { auto v = r.get(); good = v.values.size() == 9 && v.values[0].value && !v.values[1].value && v.values[3].value && v.values[8].address == 13; } done = true; });
            if(!wait([&] { return done.load(); })) fail("a request to a server of the same manager is not answered"); else if(!good) fail("a request to a server of the same manager is answered wrongly");
            for(unsigned i = 0; i < max + 2; ++i) { int fd = peer(); if(dial(fd, port)) fds.push_back(fd); usleep(2000); }
            bytes x; unsigned open = 0; if(!wait([&] { open = 0; for(auto f : fds) if(!drain(f, x)) ++open; return open == max; })) fail(std::to_string(open) + " connections are served, expected " + std::to_string(max));
        }
        catch(const std::exception&) {}
    }
    // an adapter of one's own is where the connection comes from
    if(coin())
    {
        unsigned p = 0; int l = listener(p); std::string from = "127.0." + std::to_string(rnd(200)) + "." + std::to_string(1 + rnd(200)); note("client channel on adapter " + from);
        auto c = m->create_client_tcp_channel("c", Ipv4Endpoint{g_ip, p}, from); auto cs = c->create_session(UnitIdentifier{9}, std::chrono::milliseconds(1));
        cs->send_request(readreq<ReadCoilsRequest>(5, 9), [&](const Expected<ReadCoilsResponse>&) {});
        pollfd pf{l, POLLIN, 0}; if(poll(&pf, 1, 3000) <= 0) fail("the client channel does not connect to its endpoint");
        else { sockaddr_in a{}; socklen_t n = sizeof a; int fd = accept4(l, (sockaddr*)&a, &n, SOCK_CLOEXEC); char t[32] = ""; inet_ntop(AF_INET, &a.sin_addr, t, sizeof t); if(from != t) fail(std::string("it connects from ") + t); fds.push_back(fd); }
        close(l); clients.push_back(c);
    }
    unsigned how = rnd(3), again = rnd(3); note(how ? "shutdown" : "destruction");
    if(how) { std::vector<std::thread> ss; for(unsigned i = 0; i <= again; ++i) ss.emplace_back([&] { m->shutdown(); }); for(auto& t : ss) t.join(); }
    else m.reset();
    auto all = [&] { for(auto& t : told) if(*t != 1) return false; return true; };
    wait(all); if(how && coin()) { note("destruction"); m.reset(); } usleep(3000);
    unsigned zero = 0, more = 0; for(auto& t : told) { if(*t == 0) ++zero; if(*t > 1) ++more; }
    if(zero) fail(std::to_string(zero) + " of " + std::to_string(told.size()) + " server channels are not told to shut down");
    if(more) fail(std::to_string(more) + " sessions are told to shut down more than once");
    // what was shut down asks and answers nothing
    unsigned before = answered + errors;
    for(auto& c : clients) if(m) { bool refused = false; try { auto s = c->create_session(UnitIdentifier{1}, std::chrono::seconds(30)); if(s) s->send_request(readreq<ReadCoilsRequest>(1, 1), [&](const Expected<ReadCoilsResponse>&) { ++answered; }); } catch(...) { refused = true; } }
    usleep(1000); if(answered + errors != before) fail("a client channel that was shut down calls a handler");
    for(auto f : fds) close(f);
    // the rest of the channels goes before the threads
    clients.clear(); servers.clear(); if(m) m.reset();
}
void run() { unsigned long n = 0; while(time_left()) { watchdog(40); if(g_prop == "C20") manager_history(); else connection_history(n++ % 2); } }
