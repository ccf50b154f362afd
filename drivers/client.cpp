// Client channel, sessions and scheduled requests in random histories, against models run in lockstep: C12-C14, C18, C19.
#include "common.h"
#include <deque>
#include <set>
#include "exe4cpp/MockExecutor.h"
#include "ITcpConnection.h"
#include "IConnectionListener.h"
#include "client/channel/ClientChannelTcp.h"
#include "client/channel/IClientChannelImpl.h"
#include "client/session/ClientSessionImpl.h"
#include "logging/Logger.h"
#include "messages/ReadCoilsRequestImpl.h"
#include "messages/ReadCoilsResponseImpl.h"
#include "messages/ReadDiscreteInputsRequestImpl.h"
#include "messages/ReadDiscreteInputsResponseImpl.h"
#include "messages/ReadHoldingRegistersRequestImpl.h"
#include "messages/ReadHoldingRegistersResponseImpl.h"
#include "messages/ReadInputRegistersRequestImpl.h"
#include "messages/ReadInputRegistersResponseImpl.h"
#include "messages/WriteSingleCoilRequestImpl.h"
#include "messages/WriteSingleCoilResponseImpl.h"
#include "messages/WriteSingleRegisterRequestImpl.h"
#include "messages/WriteSingleRegisterResponseImpl.h"
#include "messages/WriteMultipleCoilsRequestImpl.h"
#include "messages/WriteMultipleCoilsResponseImpl.h"
#include "messages/WriteMultipleRegistersRequestImpl.h"
#include "messages/WriteMultipleRegistersResponseImpl.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/logging/LoggerFactory.h"
#include "msgs.h"
using namespace modbus;
using bytes = std::vector<uint8_t>;
using ms = std::chrono::milliseconds;
static std::shared_ptr<exe4cpp::MockExecutor> g_exe;
static std::ostringstream g_hist;
static void note(const std::string& s) { g_hist << " " << s; g_case = "history:" + g_hist.str(); }

// ---------------------------------------------------------------- C12-C14: the channel
struct Rq { unsigned id, unit; bytes body; ms timeout; bool valid, child, child_valid; };
static uint64_t g_salt;
static Rq rq(unsigned id)
{
    uint64_t z = (id + 1) * 0x9E3779B97F4A7C15ULL ^ g_salt; auto r = [&]() { z ^= z << 13; z ^= z >> 7; z ^= z << 17; return (unsigned)((z * 0x2545F4914F6CDD1DULL) >> 40); };
    Rq q; q.id = id; q.unit = r() % 4 ? 1 + r() % 2 : r() % 256;
    q.body.resize(r() % 20 ? 1 + r() % 6 : r() % 4 ? 1 + r() % 253 : 253); for(auto& b : q.body) b = r();
    static const int t[] = {10, 10, 20, 25, 50, 0}; q.timeout = ms(t[r() % 6]);
    q.valid = r() % 8; q.child = id < (1u << 20) && r() % 9 == 0; q.child_valid = false;
    return q;
}
struct FakeMessage : IMessage
{
    bytes body; bool valid;
    FakeMessage(bytes b, bool v) : body(b), valid(v) {}
    ~FakeMessage() { valid = false; for(auto& b : body) b = 0xEE; }
    std::unique_ptr<IMessage> clone() const override { return std::unique_ptr<IMessage>(new FakeMessage(body, valid)); }
    bool is_valid() const override { return valid; }
    size_t get_message_length() const override { return body.size(); }
    void build_message(ser4cpp::wseq_t& w) const override { w.copy_from(ser4cpp::rseq_t(body.data(), body.size())); }
};
struct FakeConn : ITcpConnection
{
    std::shared_ptr<IConnectionListener> listener; std::vector<bytes> frames; unsigned shutdowns = 0;
    void set_listener(std::shared_ptr<IConnectionListener> l) override { listener = l; }
    void send(const ser4cpp::rseq_t& d) override { CHECK(listener, "sends without a listener"); frames.push_back(bytes((const uint8_t*)d, (const uint8_t*)d + d.length())); }
    void close() override {}
    void shutdown() override { ++shutdowns; listener.reset(); }
};
struct Model
{
    struct Item { char k; unsigned x; };
    std::deque<Item> fifo; std::vector<std::pair<ms, unsigned>> timers; std::deque<std::pair<Rq, uint16_t>> q;
    bool shut = false; uint16_t tid = 0; bytes stream; ms now{0};
    std::vector<bytes> frames; std::map<unsigned, std::vector<std::string>> out; std::set<unsigned> free;
    bool sent = false;
    void submit(unsigned id) { if(shut) { free.insert(id); return; } fifo.push_back({rq(id).valid ? 's' : 'i', id}); }
    void arm()
    {
        if(q.empty()) return;
        auto& r = q[0]; bytes f{(uint8_t)(r.second >> 8), (uint8_t)r.second, 0, 0, (uint8_t)((r.first.body.size() + 1) >> 8), (uint8_t)(r.first.body.size() + 1), (uint8_t)r.first.unit};
        f.insert(f.end(), r.first.body.begin(), r.first.body.end()); frames.push_back(f);
        timers.push_back({now + r.first.timeout, r.first.id});
    }
    void complete(const std::string& how)
    {
        auto r = q[0].first; q.pop_front();
        for(size_t i = 0; i < timers.size(); ++i) if(timers[i].second == r.id) { timers.erase(timers.begin() + i); break; }
        out[r.id].push_back(how);
        if(r.child && how[0] != 'c') submit(r.id | 1u << 20);
    }
    void check()
    {
        for(;;)
        {
            size_t b = timers.size();
            for(size_t i = 0; i < timers.size(); ++i) if(timers[i].first <= now && (b == timers.size() || timers[i].first < timers[b].first)) b = i;
            if(b == timers.size()) return;
            fifo.push_back({'t', timers[b].second}); timers.erase(timers.begin() + b);
        }
    }
    bool one()
    {
        check();
        if(fifo.empty()) return false;
        auto x = fifo.front(); fifo.pop_front();
        if(x.k == 's') { if(shut) { free.insert(x.x); return true; } auto r = rq(x.x); q.push_back({r, tid++}); if(q.size() == 1) arm(); }
        else if(x.k == 'i') { if(shut) free.insert(x.x); else out[x.x].push_back("malformed request error"); }
        else if(x.k == 'S') { shut = true; for(auto& r : q) out[r.first.id]; q.clear(); timers.clear(); }
        else if(x.k == 't') { if(!q.empty() && q[0].first.id == x.x) { complete("timeout"); arm(); } }
        return true;
    }
    void receive(const bytes& d)
    {
        for(auto b : d)
        {
            stream.push_back(b);
            if(stream.size() < 7) continue;
            unsigned len = stream[4] * 256 + stream[5];
            if(len == 0) { stream.clear(); continue; }
            if(stream.size() < len + 6u) continue;
            bytes f; f.swap(stream);
            if(f[2] || f[3] || q.empty() || shut) continue;
            if(f[0] * 256 + f[1] != q[0].second || f[6] != q[0].first.unit) continue;
            complete("response " + hex(bytes(f.begin() + 7, f.begin() + std::min<size_t>(260, f.size())))); arm();
        }
    }
    void error() { if(shut) return; stream.clear(); while(q.size()) complete("connection error"); timers.clear(); }
};
template <typename T> std::string outcome(const Expected<T>& e);
static std::string kind(std::exception_ptr p)
{
    try { std::rethrow_exception(p); }
    catch(const TimeoutException&) { return "timeout"; } catch(const ConnectionException&) { return "connection error"; }
    catch(const MalformedModbusRequestException&) { return "malformed request error"; } catch(const MalformedModbusResponseException&) { return "malformed response error"; }
    catch(const ModbusException& x) { return "modbus exception " + std::to_string((int)x.get_exception_type()); }
    catch(const std::exception& x) { return std::string("exception ") + x.what(); } catch(...) { return "unknown exception"; }
}
static void channel_history(bool longrun, unsigned burst = 0)
{
    g_hist.str(""); g_salt = rnd(); ++g_cases;
    g_exe = std::make_shared<exe4cpp::MockExecutor>();
    auto conn = std::make_shared<FakeConn>();
    auto ch = std::make_shared<ClientChannelTcp>(g_exe, LoggerFactory::create_null_logger("x"), conn);
    Model m; std::map<unsigned, std::vector<std::string>> out; unsigned next = 0; bool down = false;
    std::function<void(unsigned)> submit = [&](unsigned id) {
        auto r = rq(id); bool child = r.child;
        std::unique_ptr<FakeMessage> msg(new FakeMessage(r.body, r.valid)); UnitIdentifier u{(uint8_t)r.unit}; exe4cpp::duration_t t = r.timeout;
        ch->send_request(u, *msg, t, [&out, &submit, id, child](const Expected<ser4cpp::rseq_t>& e) {
            std::string o;
            if(e.is_valid()) { auto d = e.get(); o = "response " + hex(bytes((const uint8_t*)d, (const uint8_t*)d + d.length())); } else o = kind(e.get_exception());
            out[id].push_back(o);
            if(child && (o[0] == 'r' || o[0] == 't')) submit(id | 1u << 20);
        });
        msg.reset(); t = ms(7777); u = UnitIdentifier{99};
    };
    auto compare = [&]() {
        for(auto& f : m.free) { m.out.erase(f); out.erase(f); }
        for(auto& o : m.out) if(out[o.first] != o.second)
        {
            auto show = [](const std::vector<std::string>& v) { std::string s; for(auto& x : v) s += x + "; "; return v.empty() ? std::string("no call") : s; };
            fail("handler of request " + std::to_string(o.first) + ": expected " + show(o.second) + ", got " + show(out[o.first])); return false;
        }
        for(auto& o : out) if(!o.second.empty() && !m.out.count(o.first)) { fail("handler of request " + std::to_string(o.first) + " called (" + o.second[0] + ") before it can be"); return false; }
        if(conn->frames != m.frames)
        {
            size_t d = 0; while(d < conn->frames.size() && d < m.frames.size() && conn->frames[d] == m.frames[d]) ++d;
            fail("frame " + std::to_string(d) + " sent: expected " + (d < m.frames.size() ? hex(m.frames[d]) : "none") + ", got " + (d < conn->frames.size() ? hex(conn->frames[d]) : "none")); return false;
        }
        return true;
    };
    auto drain = [&]() { size_t g = 0; while(g_exe->run_one()) if(++g > 100000) { fail("actions are posted without end"); return false; } while(m.one()) {} return compare(); };
    auto receive = [&](const bytes& d) {
        if(down) { note("connected"); ch->on_connected(); m.stream.clear(); down = false; }
        std::unique_ptr<uint8_t[]> p(new uint8_t[d.size() ? d.size() : 1]); memcpy(p.get(), d.data(), d.size());
        ch->on_receive(ser4cpp::rseq_t(p.get(), d.size())); p.reset(); m.receive(d);
    };
    auto frame = [&](unsigned t, unsigned u, unsigned n) { bytes f{(uint8_t)(t >> 8), (uint8_t)t, 0, 0, (uint8_t)((n + 1) >> 8), (uint8_t)(n + 1), (uint8_t)u}; while(n--) f.push_back(rnd(256)); return f; };
    if(longrun)
    {
        note("(65600 requests answered one after the other)");
        for(unsigned i = 0; i < 65600; ++i)
        {
            while(!rq(next).valid) ++next;
            submit(next); m.submit(next); ++next; while(g_exe->run_one()) {} while(m.one()) {}
            if(m.q.size()) receive(frame(m.q[0].second, m.q[0].first.unit, 1));
            if(i % 4096 == 0) { if(!compare()) return; conn->frames.clear(); m.frames.clear(); out.clear(); m.out.clear(); }
        }
    }
    if(burst)
    {
        note("(" + std::to_string(burst) + " requests submitted, then answered one after the other)");
        for(unsigned i = 0; i < burst; ++i) { while(!rq(next).valid || rq(next).child) ++next; submit(next); m.submit(next); ++next; }
        while(g_exe->run_one()) {}
        while(m.one()) {}
        for(unsigned i = 0; i < burst && m.q.size(); ++i) receive(frame(m.q[0].second, m.q[0].first.unit, 1));
        if(!compare()) return;
        conn->frames.clear(); m.frames.clear(); out.clear(); m.out.clear();
    }
    bytes rest;
    for(unsigned k = 2 + rnd(50); k > 0; --k)
    {
        switch(rnd(14))
        {
            case 0: case 1: case 2: case 3: { auto r = rq(next); std::ostringstream o; o << "send#" << next << "(unit " << r.unit << "," << r.timeout.count() << "ms," << (r.valid ? "" : "invalid,") << hex(r.body) << (r.child ? ",handler sends another" : "") << ")"; note(o.str()); submit(next); m.submit(next); ++next; break; }
            case 4: case 5: note("run"); if(!drain()) return; break;
            case 6: case 7: case 8:
            {
                bytes d; if(coin()) d.swap(rest);
                for(unsigned f = 1 + rnd(3); f > 0; --f)
                {
                    unsigned t = m.tid - 1, u = 1; if(!m.q.empty()) { t = m.q[0].second; u = m.q[0].first.unit; if(f > 1 && m.q.size() > 1 && coin()) { t = m.q[1].second; u = m.q[1].first.unit; } }
                    switch(rnd(9)) { case 0: t += 1; break; case 1: t -= 1; break; case 2: u = 3 - u; break; case 3: t ^= 0x100; break; case 4: if(m.q.size() > 1) { t = m.q[1].second; u = m.q[1].first.unit; } break; default: break; }
                    auto x = frame((uint16_t)t, (uint8_t)u, rnd(5) ? rnd(5) : rnd(254)); if(rnd(12) == 0) x[2 + rnd(2)] = 1 << rnd(8);
                    d.insert(d.end(), x.begin(), x.end());
                }
                if(rnd(3) == 0) { size_t c = 1 + rnd(d.size() - 1); rest.assign(d.begin() + c, d.end()); d.resize(c); }
                note("receive(" + hex(d) + ")"); receive(d); break;
            }
            case 9: if(rest.size()) { bytes d; d.swap(rest); note("receive(" + hex(d) + ")"); receive(d); } break;
            case 10: { int t[] = {1, 5, 10, 10, 20, 25, 50, 60}; int x = t[rnd(8)]; note("+" + std::to_string(x) + "ms"); g_exe->add_time(ms(x)); m.now += ms(x); if(coin()) { note("due"); g_exe->check_timers(); m.check(); } break; }
            case 11: if(rnd(2)) { note("error"); ch->on_error("x"); m.error(); down = coin(); if(coin()) rest.clear(); } break;
            case 12: if(rnd(2)) { note("closed-by-peer"); down = true; } break;
            case 13: if(rnd(8) == 0) { note("shutdown"); ch->shutdown(); m.fifo.push_back({'S', 0}); } break;
        }
    }
    note("run"); if(!drain()) return;
    for(int i = 0; i < 400 && (m.q.size() || m.fifo.size()); ++i) { if(i == 0) note("+60ms run (till nothing is left)"); g_exe->add_time(ms(60)); m.now += ms(60); if(!drain()) return; }
    if(m.shut) CHECK(conn->shutdowns >= 1, "the connection is not shut down");
    conn->listener.reset();
}

// ---------------------------------------------------------------- C19 and C18: the session on a channel that records
// Any duration may be given as a timeout
exe4cpp::duration_t anytime(unsigned most)
{
    switch(rnd(8)) { case 0: return exe4cpp::duration_t::zero(); case 1: return exe4cpp::duration_t(1 + (long)rnd(1000000)); case 2: return exe4cpp::duration_t::max(); case 3: return ms(-(int)rnd(100)); case 4: return std::chrono::hours(24 * 25 + (int)rnd(100)); default: return ms(1 + rnd(most)); }
}
struct Sent { unsigned unit; bytes body; exe4cpp::duration_t timeout; ResponseHandler<ser4cpp::rseq_t> answer; bool valid; };
struct FakeChannel : IClientChannelImpl
{
    std::vector<Sent> sent;
    void send_request(const UnitIdentifier& u, const IMessage& r, const exe4cpp::duration_t& t, ResponseHandler<ser4cpp::rseq_t> h) override
    {
        bytes b(r.get_message_length()); ser4cpp::wseq_t w(b.data(), b.size()); r.build_message(w);
        sent.push_back({u.get_value(), b, t, h, r.is_valid()});
    }
    std::shared_ptr<IClientSession> create_session(const UnitIdentifier&, const duration_t&) override { return nullptr; }
    void shutdown() override {}
};
template <typename RespI, typename Resp> std::string show(const Expected<Resp>& e)
{
    if(!e.is_valid()) return kind(e.get_exception());
    RespI i(e.get()); bytes b(i.get_message_length()); ser4cpp::wseq_t w(b.data(), b.size()); i.build_message(w);
    return "response " + hex(b);
}
// reading responses keep the addresses too
template <typename R> auto addresses(const R& r, int) -> decltype(r.values[0].address, std::string()) { std::ostringstream o; o << " from " << (r.values.size() ? r.values[0].address : 0) << " count " << r.values.size(); return o.str(); }
template <typename R> std::string addresses(const R&, long) { return ""; }
template <typename RespI, typename Resp> std::string full(const Expected<Resp>& e) { auto s = show<RespI>(e); if(e.is_valid()) s += addresses(e.get(), 0); return s; }

static bytes answer_bytes(const bytes& q)
{
    bytes o{q[0]};
    unsigned n = q[3] * 256 + q[4];
    switch(q[0])
    {
        case 1: case 2: { unsigned k = (n + 7) / 8; o.push_back(k); while(k--) o.push_back(rnd(256)); break; }
        case 3: case 4: { unsigned k = 2 * n; o.push_back(k); while(k--) o.push_back(rnd(256)); break; }
        default: o.insert(o.end(), q.begin() + 1, q.begin() + 5);
    }
    switch(rnd(6)) { case 0: if(o.size() > 1) o[rnd(o.size())] ^= 1 << rnd(8); break; case 1: o.resize(rnd(o.size())); break; case 2: o = {(uint8_t)(q[0] | 0x80), (uint8_t)rnd(12)}; break; case 3: o.push_back(0); break; default: break; }
    return o;
}
static Expected<ser4cpp::rseq_t> some_error()
{
    switch(rnd(3)) { case 0: return Expected<ser4cpp::rseq_t>::from_exception(TimeoutException{}); case 1: return Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{"x"});
      default: return Expected<ser4cpp::rseq_t>::from_exception(MalformedModbusRequestException("x")); }
}
template <typename ReqI, typename RespI, typename Req, typename Resp> void one_request(const Req& given)
{
    ++g_cases; g_hist.str("");
    g_exe = std::make_shared<exe4cpp::MockExecutor>();
    auto ch = std::make_shared<FakeChannel>();
    unsigned unit = rnd(256); exe4cpp::duration_t def = anytime(10000), exp = anytime(10000);
    auto s = std::make_shared<ClientSessionImpl>(g_exe, LoggerFactory::create_null_logger("x"), ch, UnitIdentifier{(uint8_t)unit}, def);
    bytes body; { ReqI i(given); body.resize(i.get_message_length()); ser4cpp::wseq_t w(body.data(), body.size()); i.build_message(w); }
    std::vector<std::string> got; bool expl = coin();
    { std::ostringstream o; o << "request " << hex(body) << " unit " << unit << (expl ? " own timeout" : " default timeout"); note(o.str()); }
    {
        std::unique_ptr<Req> r(new Req(given)); auto h = [&got](const Expected<Resp>& e) { got.push_back(full<RespI, Resp>(e)); };
        auto t = exp;
        if(expl) s->send_request(*r, t, h); else s->send_request(*r, h);
        t = ms(0);
    }
    g_exe->run_many();
    if(ch->sent.size() != 1) { fail("submitted " + std::to_string(ch->sent.size()) + " times to the channel"); return; }
    auto& x = ch->sent[0];
    CHECK(x.unit == unit, "submitted for unit " << x.unit); CHECK(x.body == body, "submitted " << hex(x.body)); CHECK(x.timeout == (expl ? exp : def), "submitted with another timeout");
    CHECK(got.empty(), "handler called before the answer");
    std::string want;
    if(rnd(3) == 0) { auto e = some_error(); want = kind(e.get_exception()); note("answered: " + want); x.answer(e); }
    else
    {
        auto b = answer_bytes(body); note("answered: " + hex(b));
        std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() ? b.size() : 1]); memcpy(p.get(), b.data(), b.size());
        { ReqI i(given); want = full<RespI, Resp>(RespI::parse(i, ser4cpp::rseq_t(b.data(), b.size()))); }
        x.answer(Expected<ser4cpp::rseq_t>(ser4cpp::rseq_t(p.get(), b.size()))); p.reset();
    }
    g_exe->run_many();
    if(got.size() != 1) fail("handler called " + std::to_string(got.size()) + " times");
    else CHECK(got[0] == want, "handler gets " << got[0] << ", expected " << want);
    CHECK(ch->sent.size() == 1, "submitted again");
}

// the polling of one scheduled request
template <typename ReqI, typename RespI, typename Req, typename Resp> void polling(const Req& given)
{
    ++g_cases; g_hist.str("");
    g_exe = std::make_shared<exe4cpp::MockExecutor>();
    auto ch = std::make_shared<FakeChannel>();
    unsigned unit = rnd(256); exe4cpp::duration_t def = anytime(100), exp = anytime(300);
    auto s = std::make_shared<ClientSessionImpl>(g_exe, LoggerFactory::create_null_logger("x"), ch, UnitIdentifier{(uint8_t)unit}, def);
    bytes body; { ReqI i(given); body.resize(i.get_message_length()); ser4cpp::wseq_t w(body.data(), body.size()); i.build_message(w); }
    int periods[] = {10, 15, 20, 40, 7, 0}; ms period{periods[rnd(6)]}; bool expl = coin();
    std::vector<std::string> got, want; unsigned sends = 0, answered = 0;
    struct Item { char k; long x; }; std::deque<Item> fifo; std::vector<std::pair<ms, long>> timers; bool running = false; long run = 0; ms now{0}; std::vector<long> runof; std::vector<bool> open;
    note("schedule every " + std::to_string(period.count()) + "ms");
    std::shared_ptr<IScheduledRequest> sr;
    {
        std::unique_ptr<Req> r(new Req(given)); duration_t t = exp, f = period; ResponseHandler<Resp> h = [&got](const Expected<Resp>& e) { got.push_back(full<RespI, Resp>(e)); };
        sr = expl ? s->schedule_request(*r, t, f, h) : s->schedule_request(*r, f, h); t = f = ms(3);
    }
    fifo.push_back({'+', 0});
    auto check = [&]() { for(;;) { size_t b = timers.size(); for(size_t i = 0; i < timers.size(); ++i) if(timers[i].first <= now && (b == timers.size() || timers[i].first < timers[b].first)) b = i;
        if(b == timers.size()) return; fifo.push_back({'t', timers[b].second}); timers.erase(timers.begin() + b); } };
    auto send = [&]() { ++sends; runof.push_back(run); open.push_back(true); };
    bool over = false;
    auto drain = [&]() {
        size_t g = 0; while(g_exe->run_one()) if(++g > 400000) { fail("actions are posted without end"); return false; }
        for(;;)
        {
            check(); if(fifo.empty()) break;
            auto x = fifo.front(); fifo.pop_front();
            if(x.k == '+' && !running) { running = true; ++run; send(); }
            else if(x.k == '-' || x.k == 'S') { if(running) { running = false; timers.clear(); } }
            else if(x.k == 'p') period = ms(x.x);
            else if(x.k == 't' && running && x.x == run) send();
        }
        if(ch->sent.size() != sends) { fail("sent " + std::to_string(ch->sent.size()) + " times, expected " + std::to_string(sends)); return false; }
        for(auto& x : ch->sent) if(x.body != body || x.unit != unit || x.timeout != (expl ? exp : def)) { fail("sends another request: " + hex(x.body)); return false; }
        if(got != want) { fail("responses delivered: " + std::to_string(got.size()) + ", expected " + std::to_string(want.size()) + (got.size() == want.size() && got.size() ? ": " + got.back() + " instead of " + want.back() : "")); return false; }
        CHECK(sr->is_running() == running, "is_running " << sr->is_running()); CHECK(sr->get_frequency() == duration_t(period), "another period than the one set");
        return true;
    };
    for(unsigned k = 4 + rnd(40); k > 0; --k)
    {
        switch(rnd(11))
        {
            case 0: note("start"); sr->start(); fifo.push_back({'+', 0}); break;
            case 1:
                if(rnd(40) == 0)
                {
                    unsigned n = rnd(60) ? 255 + rnd(3) : 65536; note("(stop start) x" + std::to_string(n));
                    while(n--) { sr->stop(); fifo.push_back({'-', 0}); sr->start(); fifo.push_back({'+', 0}); }
                    break;
                }
                note("stop"); sr->stop(); fifo.push_back({'-', 0}); break;
            case 2: if(!drain()) return; note("run"); break;
            case 3: { int p = periods[rnd(6)]; note("period " + std::to_string(p)); duration_t d = ms(p); sr->set_frequency(d); d = ms(1); fifo.push_back({'p', p}); break; }
            case 4: case 5: case 6: case 7:
            {
                if(!drain()) return; note("run");
                std::vector<size_t> w; for(size_t i = 0; i < open.size(); ++i) if(open[i]) w.push_back(i);
                if(w.empty()) break;
                size_t i = w[rnd(w.size())]; open[i] = false;
                if(rnd(4) == 0) { note("stop"); sr->stop(); fifo.push_back({'-', 0}); if(coin()) { note("start"); sr->start(); fifo.push_back({'+', 0}); } }
                auto answer = ch->sent[i].answer;
                if(rnd(3) == 0) { auto e = some_error(); want.push_back(kind(e.get_exception())); note("answer #" + std::to_string(i) + " " + want.back()); answer(e); }
                else
                {
                    auto b = answer_bytes(body); note("answer #" + std::to_string(i) + " " + hex(b));
                    { ReqI q(given); want.push_back(full<RespI, Resp>(RespI::parse(q, ser4cpp::rseq_t(b.data(), b.size())))); }
                    answer(Expected<ser4cpp::rseq_t>(ser4cpp::rseq_t(b.data(), b.size())));
                }
                if(running && runof[i] == run) timers.push_back({now + period, run});
                break;
            }
            case 8: case 9: { int t[] = {1, 5, 7, 10, 15, 20, 40}; int x = t[rnd(7)]; note("+" + std::to_string(x) + "ms"); g_exe->add_time(ms(x)); now += ms(x); if(coin()) { note("due"); g_exe->check_timers(); check(); } break; }
            case 10: if(rnd(6) == 0 && !over) { if(!drain()) return; note("run session shutdown"); s->shutdown(); over = true; fifo.push_back({'S', 0}); if(!drain()) return; } break;
        }
    }
    if(!drain()) return; note("+50ms run");
    g_exe->add_time(ms(50)); now += ms(50); drain();
}
template <bool P> void anyread()
{
    uint16_t a = rnd16(), n = 1 + (rnd(4) ? rnd(20) : rnd(125));
#define GO(N, X) do { if(P) polling<N##RequestImpl, N##ResponseImpl, N##Request, N##Response>(X); else one_request<N##RequestImpl, N##ResponseImpl, N##Request, N##Response>(X); } while(0)
    switch(rnd(4))
    {
        case 0: GO(ReadCoils, readreq<ReadCoilsRequest>(a, n)); break;
        case 1: GO(ReadDiscreteInputs, readreq<ReadDiscreteInputsRequest>(a, n)); break;
        case 2: GO(ReadHoldingRegisters, readreq<ReadHoldingRegistersRequest>(a, n)); break;
        case 3: GO(ReadInputRegisters, readreq<ReadInputRegistersRequest>(a, n)); break;
    }
}
static void anywrite()
{
    switch(rnd(4))
    {
        case 0: one_request<WriteSingleCoilRequestImpl, WriteSingleCoilResponseImpl, WriteSingleCoilRequest, WriteSingleCoilResponse>(wcoil(rnd16(), coin())); break;
        case 1: one_request<WriteSingleRegisterRequestImpl, WriteSingleRegisterResponseImpl, WriteSingleRegisterRequest, WriteSingleRegisterResponse>(wreg(rnd16(), rnd16())); break;
        case 2: { auto r = wcoils(rnd16()); for(unsigned i = 1 + rnd(30); i > 0; --i) r.values.push_back(coin()); one_request<WriteMultipleCoilsRequestImpl, WriteMultipleCoilsResponseImpl, WriteMultipleCoilsRequest, WriteMultipleCoilsResponse>(r); break; }
        case 3: { auto r = wregs(rnd16()); for(unsigned i = 1 + rnd(30); i > 0; --i) r.values.push_back(rnd16()); one_request<WriteMultipleRegistersRequestImpl, WriteMultipleRegistersResponseImpl, WriteMultipleRegistersRequest, WriteMultipleRegistersResponse>(r); break; }
    }
}
// a session with several scheduled requests is shut down
static void session_shutdown()
{
    ++g_cases; g_hist.str("");
    g_exe = std::make_shared<exe4cpp::MockExecutor>();
    auto ch = std::make_shared<FakeChannel>();
    auto s = std::make_shared<ClientSessionImpl>(g_exe, LoggerFactory::create_null_logger("x"), ch, UnitIdentifier{1}, ms(5));
    unsigned n = rnd(6); std::vector<std::shared_ptr<IScheduledRequest>> v;
    for(unsigned i = 0; i < n; ++i)
        switch(rnd(4))
        {
            case 0: v.push_back(s->schedule_request(readreq<ReadCoilsRequest>(i, 1), ms(10), [](const Expected<ReadCoilsResponse>&) {})); break;
            case 1: v.push_back(s->schedule_request(readreq<ReadDiscreteInputsRequest>(i, 1), ms(10), [](const Expected<ReadDiscreteInputsResponse>&) {})); break;
            case 2: v.push_back(s->schedule_request(readreq<ReadHoldingRegistersRequest>(i, 1), ms(10), [](const Expected<ReadHoldingRegistersResponse>&) {})); break;
            default: v.push_back(s->schedule_request(readreq<ReadInputRegistersRequest>(i, 1), ms(10), [](const Expected<ReadInputRegistersResponse>&) {})); break;
        }
    if(coin()) g_exe->run_many();
    for(auto& r : v) if(rnd(4) == 0) r->stop();
    if(coin()) g_exe->run_many();
    note(std::to_string(n) + " requests scheduled, some stopped, session shutdown");
    s->shutdown(); bool any = rnd(3) == 0; for(auto& r : v) { bool a = any && !r->is_running() && coin(); if(a) { r->start(); note("one started before the shutdown takes place"); } }
    g_exe->run_many();
    for(auto& r : v) CHECK(!r->is_running(), "a scheduled request still runs after the session shutdown");
    size_t before = ch->sent.size(); CHECK(any ? before >= n : before == n, "sent " << before << " of " << n << " scheduled requests");
    auto sent = ch->sent; for(auto& x : sent) x.answer(some_error());
    for(int i = 0; i < 5; ++i) { g_exe->add_time(ms(20)); g_exe->run_many(); }
    CHECK(ch->sent.size() == before, "polls after the session shutdown");
}
void run()
{
    watchdog(60);
    if(g_prop == "C12" || g_prop == "C13" || g_prop == "C14") { channel_history(false, 300); channel_history(false, 66000); }
    if(g_prop == "C13" || g_prop == "C14") channel_history(true);
    while(time_left())
    {
        watchdog(20);
        if(g_prop == "C18") anyread<true>();
        else if(g_prop == "C19") { unsigned k = rnd(10); if(k < 3) anyread<false>(); else if(k < 6) anywrite(); else if(k < 9) anyread<true>(); else session_shutdown(); }
        else channel_history(false);
    }
}
