// Server channel and listening server in random histories, against models run in lockstep: C15, C16, C24.
#include "tr.h"
#include <deque>
#include <list>
#include <sys/resource.h>
#include "exe4cpp/MockExecutor.h"
#include "IConnectionListener.h"
#include "ITcpConnection.h"
#include "logging/Logger.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/server/IServerSession.h"
#include "server/channel/AsioServer.h"
#include "server/channel/AsioServerTcpConnection.h"
#include "server/channel/IServer.h"
#include "server/channel/IServerConnectionListenerBuilder.h"
#include "server/channel/ServerChannelTcp.h"
#include "net.h"
static std::ostringstream g_hist;
static void note(const std::string& s) { g_hist << " " << s; g_case = "history:" + g_hist.str(); if(g_case.size() > 6000) g_case = "history: ..." + g_case.substr(g_case.size() - 6000); }

// ---------------------------------------------------------------- C15, C24: the channel
static uint64_t g_salt;
static std::vector<std::string> g_log;   // what the sessions, the connections and the server are told, in order
static unsigned g_asks;
static ServerChannelTcp* g_channel;
struct Answer { int what; Values v; ExceptionType t; uint8_t code; };   // what: 0 response, 1 Modbus exception, 2 another error
// the answer of the n-th call of a session
template <typename T> Answer answer(unsigned n, const Values& q)
{
    auto keep = g_rng; g_rng = (g_salt + n * 0x9E3779B97F4A7C15ULL) | 1; rnd(); rnd();
    Answer a{}; a.what = rnd(4) ? 0 : 1 + (int)rnd(2); auto& c = CODES[rnd(9)]; a.t = c.t; a.code = c.code; a.v = respvalues<T>(rnd(4) ? &q : nullptr);
    g_rng = keep; return a;
}
static bool calls_back(unsigned n) { return ((g_salt >> 7) + n * 37) % 29 == 0; }
struct Session : IServerSession
{
    unsigned id; explicit Session(unsigned i) : id(i) {}
    void shutdown() override { g_log.push_back("session " + std::to_string(id) + " told to shut down"); }
    template <typename T> Expected<typename T::Resp> ask(const typename T::Req& r)
    {
        Values q = T::rd(r); unsigned n = g_asks++;
        g_log.push_back("session " + std::to_string(id) + " asked " + T::name() + " " + show(q));
        if(calls_back(n) && g_channel) g_channel->shutdown();
        auto a = answer<T>(n, q);
        if(a.what == 1) return Expected<typename T::Resp>::from_exception(ModbusException{a.t});
        if(a.what == 2) return n % 2 ? Expected<typename T::Resp>::from_exception(TimeoutException{}) : Expected<typename T::Resp>::from_exception(ConnectionException{"x"});
        return Expected<typename T::Resp>(T::resp(a.v));
    }
#define ON(T) Expected<T::Resp> on_request(const T::Req& r) override { return ask<T>(r); }
    ON(TReadCoils) ON(TReadDiscreteInputs) ON(TReadHoldingRegisters) ON(TReadInputRegisters) ON(TWriteSingleCoil) ON(TWriteSingleRegister) ON(TWriteMultipleCoils) ON(TWriteMultipleRegisters)
};
struct Plain : IServerSession   // answers nothing itself
{
    unsigned id; explicit Plain(unsigned i) : id(i) {}
    void shutdown() override { g_log.push_back("session " + std::to_string(id) + " told to shut down"); }
};
struct FakeConn : ITcpConnection
{
    unsigned id; explicit FakeConn(unsigned i) : id(i) {}
    void set_listener(std::shared_ptr<IConnectionListener>) override {}
    void send(const ser4cpp::rseq_t& d) override { g_log.push_back("connection " + std::to_string(id) + " sends " + hex((const uint8_t*)d, d.length())); }
    void close() override { g_log.push_back("connection " + std::to_string(id) + " closed"); }
    void shutdown() override { g_log.push_back("connection " + std::to_string(id) + " shut down"); }
};
struct FakeServer : IServer
{
    std::shared_ptr<IServerConnectionListenerBuilder> builder;
    void start(std::shared_ptr<IServerConnectionListenerBuilder> b) override { builder = b; g_log.push_back("server started"); }
    void shutdown() override { g_log.push_back("server shut down"); }
};
struct Model
{
    struct Act { char k; unsigned unit, sid; };
    std::deque<Act> fifo; bool shut = false, started = false; std::map<unsigned, unsigned> sessions; std::map<unsigned, bool> plain;
    std::vector<std::string> log; std::vector<bool> maybe; unsigned asks = 0;
    void say(const std::string& s, bool m = false) { log.push_back(s); maybe.push_back(m); }
    bool one()
    {
        if(fifo.empty()) return false;
        auto a = fifo.front(); fifo.pop_front();
        if(a.k == 'S')
        {
            shut = true; if(started) say("server shut down"); started = false;
            for(auto& s : sessions) say("session " + std::to_string(s.second) + " told to shut down");
            sessions.clear();
        }
        else if(shut) return true;
        else if(a.k == 'a') sessions[a.unit] = a.sid;
        else if(!started) { started = true; say("server started"); }
        return true;
    }
    template <typename T> void handle(unsigned c, unsigned sid, unsigned unit, unsigned tid, const bytes& pdu)
    {
        Values x; std::string alt, r = decoded<T>(pdu, x, alt);
        if(r == "malformed request") return;
        if(r != "valid") { reply(c, unit, tid, bytes{(uint8_t)(T::fc | 0x80), 3}, !alt.empty()); return; }
        if(plain[sid]) { reply(c, unit, tid, bytes{(uint8_t)(T::fc | 0x80), 1}); return; }
        unsigned n = asks++; say("session " + std::to_string(sid) + " asked " + T::name() + " " + show(x));
        if(calls_back(n)) fifo.push_back({'S', 0, 0});
        auto a = answer<T>(n, x);
        if(a.what == 0) reply(c, unit, tid, encresp<T>(a.v)); else if(a.what == 1) reply(c, unit, tid, bytes{(uint8_t)(T::fc | 0x80), a.code});
    }
    void reply(unsigned c, unsigned unit, unsigned tid, const bytes& pdu, bool m = false)
    {
        bytes f; put16(f, tid); put16(f, 0); put16(f, pdu.size() + 1); f.push_back(unit); f.insert(f.end(), pdu.begin(), pdu.end());
        say("connection " + std::to_string(c) + " sends " + hex(f), m);
    }
    void frame(unsigned c, unsigned unit, unsigned tid, const bytes& pdu)
    {
        if(shut || !sessions.count(unit) || pdu.empty()) return;
        unsigned s = sessions[unit];
        switch(pdu[0])
        {
            case 1: handle<TReadCoils>(c, s, unit, tid, pdu); break; case 2: handle<TReadDiscreteInputs>(c, s, unit, tid, pdu); break;
            case 3: handle<TReadHoldingRegisters>(c, s, unit, tid, pdu); break; case 4: handle<TReadInputRegisters>(c, s, unit, tid, pdu); break;
            case 5: handle<TWriteSingleCoil>(c, s, unit, tid, pdu); break; case 6: handle<TWriteSingleRegister>(c, s, unit, tid, pdu); break;
            case 15: handle<TWriteMultipleCoils>(c, s, unit, tid, pdu); break; case 16: handle<TWriteMultipleRegisters>(c, s, unit, tid, pdu); break;
            default: reply(c, unit, tid, bytes{(uint8_t)(pdu[0] | 0x80), 1});
        }
    }
};
template <typename T> bytes some_request() { bytes b = encreq<T>(reqvalues<T>(rnd(6) == 0)); return rnd(3) ? b : mutate(b, T::fc); }
static bytes some_pdu()
{
    bytes b;
    if(rnd(12) == 0) { b.resize(rnd(7)); for(auto& x : b) x = rnd(256); }
    else {
#define SR(T) b = some_request<T>()
        ALL(SR)
    }
    if(rnd(14) == 0 && !b.empty()) b[0] = rnd(256);
    if(b.size() > 253) b.resize(253);
    return b;
}
static void channel_history()
{
    g_hist.str(""); g_salt = rnd(); g_asks = 0; g_log.clear(); ++g_cases;
    auto exe = std::make_shared<exe4cpp::MockExecutor>(); auto server = std::make_shared<FakeServer>();
    auto ch = std::make_shared<ServerChannelTcp>(LoggerFactory::create_null_logger("x"), exe, server); g_channel = ch.get();
    Model m; size_t seen = 0, mseen = 0; unsigned sids = 0, cids = 0; uint8_t unit[3] = {(uint8_t)rnd(256), (uint8_t)rnd(256), (uint8_t)rnd(256)};
    struct Conn { unsigned id; std::shared_ptr<FakeConn> c; std::shared_ptr<IConnectionListener> l; bytes stream, rest; };
    std::vector<std::unique_ptr<Conn>> conns; std::shared_ptr<IServerConnectionListenerBuilder> builder;
    auto compare = [&]() {
        auto& log = g_log;
        auto isdown = [](const std::string& s) { return s.find("told to shut down") != std::string::npos; };
        while(seen < log.size() || mseen < m.log.size())
        {
            // the sessions are told in any order
            if(mseen < m.log.size() && isdown(m.log[mseen]))
            {
                size_t e = mseen; while(e < m.log.size() && isdown(m.log[e])) ++e;
                size_t f = seen; while(f < log.size() && isdown(log[f])) ++f;
                std::sort(m.log.begin() + mseen, m.log.begin() + e); std::sort(log.begin() + seen, log.begin() + f);
            }
            if(seen < log.size() && mseen < m.log.size() && log[seen] == m.log[mseen]) { ++seen; ++mseen; continue; }
            if(mseen < m.log.size() && m.maybe[mseen]) { ++mseen; continue; }
            fail("expected: " + (mseen < m.log.size() ? m.log[mseen] : std::string("nothing")) + "; got: " + (seen < log.size() ? log[seen] : std::string("nothing"))); return false;
        }
        return true;
    };
    auto run = [&]() { for(size_t n = 0; exe->run_one(); ++n) if(n > 10000) { fail("actions are posted without end"); return false; } while(m.one()) {} return compare(); };
    auto add = [&](int which = -1) {
        UnitIdentifier u{which < 0 ? unit[rnd(3)] : (uint8_t)which}; unsigned id = sids++; bool p = rnd(6) == 0; m.plain[id] = p;
        note("add_session(unit " + std::to_string(u.get_value()) + ", " + (p ? "default " : "") + "session " + std::to_string(id) + ")");
        std::shared_ptr<IServerSession> s; if(p) s = std::make_shared<Plain>(id); else s = std::make_shared<Session>(id);
        ch->add_session(u, s); if(!m.shut) m.fifo.push_back({'a', u.get_value(), id}); u = UnitIdentifier{77};
    };
    if(rnd(25) == 0) for(int u = 0; u < 256; ++u) add((u * 37) & 255);
    for(unsigned k = rnd(4); k > 0; --k) add();
    if(rnd(8)) { note("start"); ch->start(); m.fifo.push_back({'s', 0, 0}); note("run"); if(!run()) return; }
    for(unsigned k = 3 + rnd(40); k > 0; --k)
    {
        if(server->builder) builder = server->builder;
        switch(rnd(16))
        {
            case 0: add(); break;
            case 1: if(rnd(3) == 0) { note("start"); ch->start(); if(!m.shut) m.fifo.push_back({'s', 0, 0}); } break;
            case 2: case 3: note("run"); if(!run()) return; break;
            case 4: if(rnd(8) == 0) { note("shutdown"); ch->shutdown(); m.fifo.push_back({'S', 0, 0}); } break;
            case 5: case 6:
                if(builder && conns.size() < 4)
                {
                    auto c = std::unique_ptr<Conn>(new Conn); c->id = cids++; c->c = std::make_shared<FakeConn>(c->id); c->l = builder->build(c->c);
                    note("connection " + std::to_string(c->id) + " accepted"); CHECK(c->l, "no listener is built"); if(!c->l) return; conns.push_back(std::move(c));
                }
                break;
            case 7:
                if(conns.size() && rnd(3) == 0)
                {
                    auto& c = *conns[rnd(conns.size())];
                    if(coin()) { note("error on connection " + std::to_string(c.id)); c.l->on_error("e"); c.stream.clear(); c.rest.clear(); }
                    else if(rnd(3) == 0) { note("connection " + std::to_string(c.id) + " gone"); c.c.reset(); }
                    else { note("write done on connection " + std::to_string(c.id)); c.l->on_write_done(); }
                }
                break;
            default:
                if(conns.size())
                {
                    auto& c = *conns[rnd(conns.size())]; bytes d;
                    if(c.rest.size() && rnd(4)) { d.swap(c.rest); }
                    for(unsigned n = d.empty() ? (rnd(30) ? 1 + rnd(3) : 100) : rnd(2); n > 0; --n)
                    {
                        auto pdu = some_pdu(); bytes f; put16(f, rnd16()); put16(f, rnd(15) ? 0 : rnd16()); put16(f, rnd(40) ? pdu.size() + 1 : 0); f.push_back(rnd(6) ? unit[rnd(3)] : rnd(256));
                        if(f[4] || f[5]) f.insert(f.end(), pdu.begin(), pdu.end()); d.insert(d.end(), f.begin(), f.end());
                    }
                    if(rnd(3) == 0 && d.size() > 1) { size_t cut = 1 + rnd(d.size() - 1); c.rest.assign(d.begin() + cut, d.end()); d.resize(cut); }
                    note("connection " + std::to_string(c.id) + " receives " + hex(d));
                    std::unique_ptr<uint8_t[]> p(new uint8_t[d.size()]); memcpy(p.get(), d.data(), d.size());
                    c.l->on_receive(ser4cpp::rseq_t(p.get(), d.size())); p.reset();
                    for(auto b : d)
                    {
                        c.stream.push_back(b); if(c.stream.size() < 7) continue;
                        unsigned len = c.stream[4] * 256 + c.stream[5]; if(len == 0) { c.stream.clear(); continue; }
                        if(c.stream.size() < len + 6u) continue;
                        bytes f; f.swap(c.stream);
                        if(!f[2] && !f[3] && c.c) m.frame(c.id, f[6], f[0] * 256 + f[1], bytes(f.begin() + 7, f.begin() + std::min<size_t>(260, f.size())));
                    }
                    if(!compare()) return;
                }
        }
        if(!compare()) return;
    }
    note("run"); if(!run()) return;
    if(coin()) { note("shutdown"); ch->shutdown(); m.fifo.push_back({'S', 0, 0}); note("run"); if(!run()) return; }
    // the channel is gone: nothing answers
    std::weak_ptr<ServerChannelTcp> w = ch; g_channel = nullptr; ch.reset();
    if(w.expired()) for(auto& c : conns) if(c->c) { auto pdu = encreq<TReadCoils>(reqvalues<TReadCoils>()); bytes f{0, 1, 0, 0, 0, (uint8_t)(pdu.size() + 1), unit[0]}; f.insert(f.end(), pdu.begin(), pdu.end()); note("channel gone, connection " + std::to_string(c->id) + " receives " + hex(f)); c->l->on_receive(ser4cpp::rseq_t(f.data(), f.size())); if(!compare()) return; }
}

// ---------------------------------------------------------------- C16: the listening server
struct Nop : IConnectionListener { bool* alive; explicit Nop(bool* a) : alive(a) {} void on_receive(const ser4cpp::rseq_t&) override {} };
struct Builder : IServerConnectionListenerBuilder
{
    std::vector<std::weak_ptr<ITcpConnection>> made;
    std::unique_ptr<IConnectionListener> build(std::weak_ptr<ITcpConnection> c) override { made.push_back(c); return std::unique_ptr<IConnectionListener>(new Nop(nullptr)); }
};
static void server_history(unsigned many = 0)
{
    g_hist.str(""); ++g_cases; new_ip();
    Loop loop; auto exe = std::make_shared<exe4cpp::StrandExecutor>(loop.io); unsigned port = free_port(), max = many ? many : rnd(8) ? 1 + rnd(4) : rnd(8) ? 0 : 16;
    std::shared_ptr<AsioServer> server;
    try { server = std::make_shared<AsioServer>(LoggerFactory::create_null_logger("x"), exe, Ipv4Endpoint{g_ip, port}, max); } catch(const std::exception&) { return; }
    note("server with at most " + std::to_string(max) + " connections");
    auto b = std::make_shared<Builder>(); server->start(b);
    struct Peer { int fd; size_t no; bool eof = false; bytes in; };
    std::vector<Peer> peers; std::vector<size_t> served; size_t accepted = 0; bool bad = false; bool down = false;
    loop.each = [&] { if(!bad && !down && server->get_num_connections() > max) { bad = true; fail(std::to_string(server->get_num_connections()) + " connections served"); } };
    auto alive = [&](size_t p) { for(auto s : served) if(s == p) return true; return false; };
    auto look = [&]() { for(auto& p : peers) if(p.fd >= 0 && !p.eof) p.eof = drain(p.fd, p.in); };
    auto check = [&]() {
        auto ok = [&] { look(); if(b->made.size() != accepted || server->get_num_connections() != served.size()) return false; for(auto& p : peers) if(p.fd >= 0 && p.eof == alive(p.no)) return false; return true; };
        loop.settle();
        if(bad) return false;
        if(loop.until(ok)) return true;
        std::ostringstream o;
        if(b->made.size() != accepted) o << b->made.size() << " connections were accepted, expected " << accepted << "; ";
        if(server->get_num_connections() != served.size()) o << "the server counts " << server->get_num_connections() << " connections, expected " << served.size() << "; ";
        for(auto& p : peers) if(p.fd >= 0 && p.eof == alive(p.no)) o << "peer " << p.no << (p.eof ? " was closed by the server; " : " is still served; ");
        fail(o.str()); return false;
    };
    auto accept = [&](int fd) { Peer p; p.fd = fd; p.no = peers.size(); peers.push_back(p); ++accepted; served.push_back(p.no); if(served.size() > max) served.erase(served.begin()); };
    auto gone = [&](size_t no) { for(size_t i = 0; i < served.size(); ++i) if(served[i] == no) { served.erase(served.begin() + i); return; } };
    auto conn = [&](size_t no) { return no < b->made.size() ? b->made[no].lock() : nullptr; };
    bool ok = true;
    if(many) { note(std::to_string(many + 3) + " connect"); for(unsigned n = many + 3; ok && n--;) { int fd = peer(); if(!dial(fd, port)) { fail("the server does not accept"); ok = false; break; } accept(fd); loop.step(1); } ok = ok && check(); }
    for(unsigned k = 3 + rnd(14); ok && k > 0; --k)
    {
        switch(rnd(10))
        {
            case 0: case 1: case 2: case 3: { unsigned n = rnd(4) ? 1 : 1 + rnd(4); note(n == 1 ? "connect" : std::to_string(n) + " connect"); while(n--) { int fd = peer(); if(!dial(fd, port)) { fail("the server does not accept"); ok = false; break; } accept(fd); } ok = ok && check(); break; }
            case 4: case 5: if(served.size()) { auto no = served[rnd(served.size())]; bool r = coin(); note("peer " + std::to_string(no) + (r ? " resets" : " hangs up")); hangup(peers[no].fd, r); peers[no].fd = -1; gone(no); ok = check(); } break;
            case 6: if(served.size()) { auto no = served[rnd(served.size())]; auto c = conn(no); if(c) { unsigned n = 1 + rnd(3); note("connection " + std::to_string(no) + " closed " + std::to_string(n) + " times"); while(n--) c->close(); c.reset(); gone(no); ok = check(); } } break;
            case 7: if(served.size()) { auto no = served[rnd(served.size())]; auto c = std::dynamic_pointer_cast<AsioServerTcpConnection>(conn(no)); if(c) { unsigned n = 1 + rnd(3); note("close notification of connection " + std::to_string(no) + ", " + std::to_string(n) + " times"); while(n--) server->remove_connection(c); c.reset(); gone(no); ok = check(); } } break;
            case 8: if(served.size()) { auto no = served[rnd(served.size())]; note("peer " + std::to_string(no) + " sends"); uint8_t x[9] = {1, 2, 3}; send(peers[no].fd, x, sizeof x, MSG_NOSIGNAL); ok = check(); } break;
            default:
                if(rnd(2) == 0)
                {
                    // no descriptors left: accepting fails
                    note("connect while accepting fails"); int fd = peer(); rlimit was, low; getrlimit(RLIMIT_NOFILE, &was); low = was; low.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &low);
                    bool d = dial(fd, port); loop.step(20); setrlimit(RLIMIT_NOFILE, &was);
                    if(!d) { close(fd); fail("the server does not accept"); ok = false; break; }
                    accept(fd); ok = check();
                }
        }
    }
    if(ok && rnd(4))
    {
        unsigned n = rnd(3) == 0; note(n ? "connect, shutdown" : "shutdown"); int late = -1; if(n) { late = peer(); dial(late, port); }
        server->shutdown(); down = true; loop.settle(); auto before = b->made.size();
        bool all = loop.until([&] { look(); for(auto& p : peers) if(p.fd >= 0 && !p.eof) return false; bytes x; return late < 0 || drain(late, x); });
        CHECK(all, "a connection is still open after shutdown");
        int fd = peer(); dial(fd, port); loop.settle(); CHECK(b->made.size() == before, "a connection is accepted after shutdown"); close(fd); if(late >= 0) close(late);
    }
    for(auto& p : peers) if(p.fd >= 0) hangup(p.fd, true);
    if(!down) { down = true; server->shutdown(); }
    server.reset(); loop.settle();
}
void run()
{
    rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = std::min<rlim_t>(r.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &r);
    if(g_prop == "C16" && r.rlim_cur > 700) { watchdog(60); server_history(260); }
    while(time_left()) { watchdog(30); if(g_prop == "C16") server_history(); else channel_history(); }
}
