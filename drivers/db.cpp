// Databases against a map kept by hand: C08, C09 (single-type), C10 (in-memory server), C11 (mutual exclusion).
#include "common.h"
#include <atomic>
#include <stdexcept>
#include <thread>
#include "modbus/server/db/InMemoryDatabase.h"
#include "modbus/server/db/SingleTypeDatabase.h"
#include "modbus/exceptions/ModbusException.h"
#include "msgs.h"
using namespace modbus;
static IServerSession& session(InMemoryDatabase& d) { return d; }

template <typename T> T val() { return (T)(std::is_same<T, bool>::value ? rnd(2) : rnd16()); }

static uint16_t base_;  // addresses cluster here
static uint16_t addr()
{
    switch(rnd(6)) { case 0: return rnd16(); case 1: return 0xFFFF - rnd(12); case 2: return rnd(12); default: return base_ + rnd(16); }
}

template <typename T> bool rangeok(const std::map<uint16_t, T>& m, uint16_t s, size_t n)
{
    if(n == 0 || n > 65536) return false;
    for(size_t i = 0; i < n; ++i) { if(s + i > 65535) return false; if(!m.count((uint16_t)(s + i))) return false; }
    return true;
}

template <typename T> void same(const SingleTypeDatabase<T>& db, const std::map<uint16_t, T>& m)
{
    for(unsigned a = 0; a < 65536; ++a)
    {
        T v = T(1), w = T(0);
        bool has = m.count(a);
        bool got = db.get_value(a, v), got2 = db.get_value(a, w);
        if(got != has || got2 != has) { CHECK(false, "address " << a << " present: expected " << has); return; }
        if(db.is_valid(a) != has) { CHECK(false, "is_valid(" << a << ") is not " << has); return; }
        if(has && (v != m.at(a) || w != m.at(a))) { CHECK(false, "value at " << a << " is " << v << ", expected " << m.at(a)); return; }
        if(!has && (v != T(1) || w != T(0))) { CHECK(false, "failed get of " << a << " changed the output"); return; }
    }
}

template <typename T> void single()
{
    SingleTypeDatabase<T> db; std::map<uint16_t, T> m;
    std::ostringstream h; h << (std::is_same<T, bool>::value ? "bool db:" : "register db:");
    base_ = rnd16();
    auto step = [&](const std::string& s) { h << " " << s; g_case = h.str(); ++g_cases; };
    if(rnd(12) == 0)
    {
        step("fill");
        for(unsigned a = 0; a < 65536; ++a) { T v = val<T>(); db.add_value(a, v); m[a] = v; }
        if(coin()) { step("all 65536"); std::vector<T> o(65536); CHECK(db.is_valid_range(0, 65536), "whole range invalid"); CHECK(db.get_values(0, o), "get of everything fails"); for(unsigned a = 0; a < 65536; ++a) if(o[a] != m[a]) { CHECK(false, "value " << a); break; } }
        for(size_t n : {65537u, 65536u + 5u}) { uint16_t s = rnd(3); step("range " + std::to_string(s) + "+" + std::to_string(n)); CHECK(!db.is_valid_range(s, n), "is_valid_range true"); std::vector<T> o(n); CHECK(!db.get_values(s, o), "get_values succeeds"); }
        for(int k = 0; k < 20; ++k) { uint16_t s = 0xFFFF - rnd(20); size_t n = 1 + rnd(40); step("range " + std::to_string(s) + "+" + std::to_string(n)); CHECK(db.is_valid_range(s, n) == rangeok(m, s, n), "is_valid_range wrong"); std::vector<T> o(n, val<T>()); bool r = db.set_values(s, o); CHECK(r == rangeok(m, s, n), "set_values returned " << r); if(rangeok(m, s, n)) for(size_t i = 0; i < n; ++i) m[s + i] = o[i]; }
        same(db, m); return;
    }
    unsigned steps = 5 + rnd(60);
    for(unsigned k = 0; k < steps; ++k)
    {
        uint16_t a = addr(); T v = val<T>();
        std::ostringstream d;
        switch(rnd(8))
        {
        case 0: case 1: { // a run of addresses
            unsigned n = 1 + rnd(12);
            d << "add " << a << ".." << a + n - 1; step(d.str());
            for(unsigned i = 0; i < n && a + i < 65536; ++i) { v = val<T>(); bool r = db.add_value(a + i, v); bool e = !m.count(a + i); CHECK(r == e, "add returned " << r); if(e) m[a + i] = v; }
            break; }
        case 2: { d << "add " << a << "=" << v; step(d.str()); bool r = db.add_value(a, v), e = !m.count(a); CHECK(r == e, "add returned " << r); if(e) m[a] = v; break; }
        case 3: { d << "set " << a << "=" << v; step(d.str()); bool r = db.set_value(a, v), e = m.count(a); CHECK(r == e, "set returned " << r); if(e) m[a] = v; break; }
        case 4: { d << "get " << a; step(d.str()); T w = v; bool r = db.get_value(a, w), e = m.count(a); CHECK(r == e, "get returned " << r); CHECK(w == (e ? m[a] : v), "get gave " << w); CHECK(db.is_valid(a) == e, "is_valid wrong"); break; }
        case 5: { size_t n = rnd(9); d << "range " << a << "+" << n; step(d.str()); CHECK(db.is_valid_range(a, n) == rangeok(m, a, n), "is_valid_range is not " << rangeok(m, a, n)); break; }
        case 6: { size_t n = rnd(9); std::vector<T> o; for(size_t i = 0; i < n; ++i) o.push_back(val<T>()); auto was = o; d << "getrange " << a << "+" << n; step(d.str());
            bool r = db.get_values(a, o), e = rangeok(m, a, n); CHECK(r == e, "get_values returned " << r);
            for(size_t i = 0; i < n; ++i) CHECK(o.size() == n && o[i] == (e ? m[a + i] : was[i]), "element " << i << " is " << o[i]); break; }
        case 7: { size_t n = rnd(9); std::vector<T> o; for(size_t i = 0; i < n; ++i) o.push_back(val<T>()); d << "setrange " << a << "+" << n; step(d.str());
            bool r = db.set_values(a, o), e = rangeok(m, a, n); CHECK(r == e, "set_values returned " << r); if(e) for(size_t i = 0; i < n; ++i) m[a + i] = o[i]; break; }
        }
        if(g_fails) return;
    }
    for(auto& kv : m) { T w = T(); if(!db.get_value(kv.first, w) || w != kv.second) { CHECK(false, "final value at " << kv.first << " is " << w); break; } }
    if(rnd(4) == 0) same(db, m);
}

struct Model { std::map<uint16_t, bool> co, di; std::map<uint16_t, uint16_t> ho, in; };

template <typename F> int outcome(F f)  // 0 value, 1 illegal data address, 2 anything else
{
    try { f(); return 0; }
    catch(const ModbusException& e) { return e.get_exception_type() == ExceptionType::IllegalDataAddress ? 1 : 2; }
    catch(...) { return 2; }
}

template <typename Req, typename M> void askread(InMemoryDatabase& db, M& m, uint16_t a, uint16_t n, const char* what)
{
    auto r = session(db).on_request(readreq<Req>(a, n));
    bool e = rangeok(m, a, n);
    CHECK(r.is_valid() == e, what << " read valid: " << r.is_valid() << ", expected " << e);
    if(r.is_valid() && e)
    {
        auto v = r.get();
        CHECK(v.values.size() == n, what << " read gave " << v.values.size() << " values");
        for(size_t i = 0; i < v.values.size() && i < n; ++i) CHECK(v.values[i].address == (uint16_t)(a + i) && v.values[i].value == m[a + i], what << " read: value " << i << " is " << v.values[i].address << "=" << v.values[i].value);
    }
    else CHECK(outcome([&]() { r.get(); }) == 1, what << " read does not fail with illegal data address");
}

static void transaction_ops(IDatabase& t, Model& m, std::function<void(const std::string&)> step)
{
    for(int i = 0, n = 1 + rnd(6); i < n; ++i)
    {
        uint16_t a = addr(), v = rnd16(); bool b = coin();
        std::ostringstream d; int k = rnd(8); d << "t" << k << " " << a << "=" << v << "/" << b; step(d.str());
        uint16_t w = v; bool c = b;
        switch(k)
        {
        case 0: CHECK(t.get_coil(a, c) == (m.co.count(a) > 0) && c == (m.co.count(a) ? m.co[a] : b), "get_coil"); break;
        case 1: CHECK(t.get_discrete_input(a, c) == (m.di.count(a) > 0) && c == (m.di.count(a) ? m.di[a] : b), "get_discrete_input"); break;
        case 2: CHECK(t.get_holding_register(a, w) == (m.ho.count(a) > 0) && w == (m.ho.count(a) ? m.ho[a] : v), "get_holding_register"); break;
        case 3: CHECK(t.get_input_register(a, w) == (m.in.count(a) > 0) && w == (m.in.count(a) ? m.in[a] : v), "get_input_register"); break;
        case 4: CHECK(t.set_coil(a, b) == (m.co.count(a) > 0), "set_coil"); if(m.co.count(a)) m.co[a] = b; break;
        case 5: CHECK(t.set_discrete_input(a, b) == (m.di.count(a) > 0), "set_discrete_input"); if(m.di.count(a)) m.di[a] = b; break;
        case 6: CHECK(t.set_holding_register(a, v) == (m.ho.count(a) > 0), "set_holding_register"); if(m.ho.count(a)) m.ho[a] = v; break;
        case 7: CHECK(t.set_input_register(a, v) == (m.in.count(a) > 0), "set_input_register"); if(m.in.count(a)) m.in[a] = v; break;
        }
    }
}

static void memory()
{
    InMemoryDatabase db; Model m;
    std::ostringstream h; h << "in-memory db:"; base_ = rnd16();
    auto step = [&](const std::string& s) { h << " " << s; g_case = h.str(); ++g_cases; };
    auto all = [&]() {
        db.execute_transaction([&](IDatabase& t) {
            for(int k = 0; k < 200; ++k)
            {
                uint16_t a = k < 40 ? base_ - 10 + k : k < 60 ? k - 40 : k < 80 ? 65535 - (k - 60) : rnd16();
                bool c = false, d = false; uint16_t v = 0, w = 0;
                CHECK(t.get_coil(a, c) == (m.co.count(a) > 0) && c == (m.co.count(a) ? m.co[a] : false), "coil " << a);
                CHECK(t.get_discrete_input(a, d) == (m.di.count(a) > 0) && d == (m.di.count(a) ? m.di[a] : false), "discrete input " << a);
                CHECK(t.get_holding_register(a, v) == (m.ho.count(a) > 0) && v == (m.ho.count(a) ? m.ho[a] : 0), "holding register " << a);
                CHECK(t.get_input_register(a, w) == (m.in.count(a) > 0) && w == (m.in.count(a) ? m.in[a] : 0), "input register " << a);
                if(g_fails) return;
            }
        });
    };
    unsigned steps = 5 + rnd(40);
    for(unsigned k = 0; k < steps && !g_fails; ++k)
    {
        uint16_t a = addr(); std::ostringstream d; uint16_t n = 1 + rnd(9), v = rnd16(); bool b = coin();
        switch(rnd(12))
        {
        case 0: case 1: case 2: case 3: {
            n = rnd(3) ? n + 6 : n; int which = rnd(5); d << "add" << which << " " << a << "+" << n; step(d.str());
            for(unsigned i = 0; i < n && a + i < 65536; ++i)
            {
                uint16_t x = a + i; v = rnd16(); b = coin();
                if(which == 0 || which == 4) { bool e = !m.co.count(x); CHECK(db.add_coil(x, b) == e, "add_coil " << x); if(e) m.co[x] = b; }
                b = coin();
                if(which == 1 || which == 4) { bool e = !m.di.count(x); CHECK(db.add_discrete_input(x, b) == e, "add_discrete_input " << x); if(e) m.di[x] = b; }
                if(which == 2 || which == 4) { bool e = !m.ho.count(x); CHECK(db.add_holding_register(x, v) == e, "add_holding_register " << x); if(e) m.ho[x] = v; }
                v = rnd16();
                if(which == 3 || which == 4) { bool e = !m.in.count(x); CHECK(db.add_input_register(x, v) == e, "add_input_register " << x); if(e) m.in[x] = v; }
            }
            break; }
        case 4: d << "read coils " << a << "+" << n; step(d.str()); askread<ReadCoilsRequest>(db, m.co, a, n, "coils"); break;
        case 5: d << "read discrete " << a << "+" << n; step(d.str()); askread<ReadDiscreteInputsRequest>(db, m.di, a, n, "discrete inputs"); break;
        case 6: d << "read holding " << a << "+" << n; step(d.str()); askread<ReadHoldingRegistersRequest>(db, m.ho, a, n, "holding registers"); break;
        case 7: d << "read input " << a << "+" << n; step(d.str()); askread<ReadInputRegistersRequest>(db, m.in, a, n, "input registers"); break;
        case 8: { d << "write coil " << a << "=" << b; step(d.str()); auto r = session(db).on_request(wcoil(a, b)); bool e = m.co.count(a);
            CHECK(r.is_valid() == e, "valid: " << r.is_valid()); if(e) m.co[a] = b;
            if(e && r.is_valid()) CHECK(r.get().value.address == a && r.get().value.value == b, "echo"); else CHECK(outcome([&]() { r.get(); }) == 1, "not illegal data address"); break; }
        case 9: { d << "write register " << a << "=" << v; step(d.str()); auto r = session(db).on_request(wreg(a, v)); bool e = m.ho.count(a);
            CHECK(r.is_valid() == e, "valid: " << r.is_valid()); if(e) m.ho[a] = v;
            if(e && r.is_valid()) CHECK(r.get().value.address == a && r.get().value.value == v, "echo"); else CHECK(outcome([&]() { r.get(); }) == 1, "not illegal data address"); break; }
        case 10: { if(coin()) {
                auto q = wcoils(a); for(unsigned i = 0; i < n; ++i) q.values.push_back(coin()); d << "write coils " << a << "+" << n; step(d.str());
                auto r = session(db).on_request(q); bool e = rangeok(m.co, a, n); CHECK(r.is_valid() == e, "valid: " << r.is_valid()); if(e) for(unsigned i = 0; i < n; ++i) m.co[a + i] = q.values[i];
                if(e && r.is_valid()) CHECK(r.get().starting_address == a && r.get().qty_of_coils == n, "echo"); else CHECK(outcome([&]() { r.get(); }) == 1, "not illegal data address");
            } else {
                auto q = wregs(a); for(unsigned i = 0; i < n; ++i) q.values.push_back(rnd16()); d << "write registers " << a << "+" << n; step(d.str());
                auto r = session(db).on_request(q); bool e = rangeok(m.ho, a, n); CHECK(r.is_valid() == e, "valid: " << r.is_valid()); if(e) for(unsigned i = 0; i < n; ++i) m.ho[a + i] = q.values[i];
                if(e && r.is_valid()) CHECK(r.get().starting_address == a && r.get().qty_of_registers == n, "echo"); else CHECK(outcome([&]() { r.get(); }) == 1, "not illegal data address");
            } break; }
        case 11: { int ran = 0; step("transaction"); db.execute_transaction([&](IDatabase& t) { ++ran; CHECK(&t == static_cast<IDatabase*>(&db), "another database"); transaction_ops(t, m, step); }); CHECK(ran == 1, "the transaction ran " << ran << " times"); break; }
        }
    }
    if(!g_fails) all();
    if(rnd(20) == 0 && !g_fails)
    {   // large requests
        step("large"); unsigned n = 1 + rnd(2000); base_ = rnd16() % 60000;
        for(unsigned i = 0; i < n; ++i) { bool b = coin(); uint16_t v = rnd16(); if(db.add_coil(base_ + i, b)) m.co[base_ + i] = b; if(db.add_discrete_input(base_ + i, !b)) m.di[base_ + i] = !b; if(db.add_holding_register(base_ + i, v)) m.ho[base_ + i] = v; if(db.add_input_register(base_ + i, ~v)) m.in[base_ + i] = ~v; }
        askread<ReadCoilsRequest>(db, m.co, base_, n, "coils"); askread<ReadDiscreteInputsRequest>(db, m.di, base_, n, "discrete inputs");
        askread<ReadHoldingRegistersRequest>(db, m.ho, base_, n, "holding registers"); askread<ReadInputRegistersRequest>(db, m.in, base_, n, "input registers");
    }
}

// ---- C11: whatever runs beside a transaction waits for it
static std::vector<std::pair<std::string, std::function<void(InMemoryDatabase&)>>> ops()
{
    std::vector<std::pair<std::string, std::function<void(InMemoryDatabase&)>>> r;
    for(int present = 0; present < 2; ++present)
    {
        uint16_t a = present ? 10 : 500; std::string s = present ? " (present)" : " (absent)";
        r.push_back({"read coils" + s, [a](InMemoryDatabase& d) { session(d).on_request(readreq<ReadCoilsRequest>(a, 2)); }});
        r.push_back({"read discrete inputs" + s, [a](InMemoryDatabase& d) { session(d).on_request(readreq<ReadDiscreteInputsRequest>(a, 2)); }});
        r.push_back({"read holding registers" + s, [a](InMemoryDatabase& d) { session(d).on_request(readreq<ReadHoldingRegistersRequest>(a, 2)); }});
        r.push_back({"read input registers" + s, [a](InMemoryDatabase& d) { session(d).on_request(readreq<ReadInputRegistersRequest>(a, 2)); }});
        r.push_back({"write coil" + s, [a](InMemoryDatabase& d) { session(d).on_request(wcoil(a, true)); }});
        r.push_back({"write register" + s, [a](InMemoryDatabase& d) { session(d).on_request(wreg(a, 5)); }});
        r.push_back({"write coils" + s, [a](InMemoryDatabase& d) { auto q = wcoils(a); q.values = {true, false}; session(d).on_request(q); }});
        r.push_back({"write registers" + s, [a](InMemoryDatabase& d) { auto q = wregs(a); q.values = {1, 2}; session(d).on_request(q); }});
        r.push_back({"add coil" + s, [a](InMemoryDatabase& d) { d.add_coil(a, true); }});
        r.push_back({"add discrete input" + s, [a](InMemoryDatabase& d) { d.add_discrete_input(a, true); }});
        r.push_back({"add holding register" + s, [a](InMemoryDatabase& d) { d.add_holding_register(a, 3); }});
        r.push_back({"add input register" + s, [a](InMemoryDatabase& d) { d.add_input_register(a, 3); }});
    }
    for(int thr = 0; thr < 2; ++thr) r.push_back({thr ? "throwing transaction" : "transaction", [thr](InMemoryDatabase& d) { try { d.execute_transaction([thr](IDatabase&) { if(thr) throw std::runtime_error("x"); }); } catch(const std::runtime_error&) {} }});
    return r;
}

static std::shared_ptr<InMemoryDatabase> filled()
{
    auto db = std::make_shared<InMemoryDatabase>();
    for(int i = 10; i < 20; ++i) { db->add_coil(i, false); db->add_discrete_input(i, false); db->add_holding_register(i, 0); db->add_input_register(i, 0); }
    return db;
}

struct Async { std::shared_ptr<std::atomic<bool>> done = std::make_shared<std::atomic<bool>>(false); };
static Async start(std::shared_ptr<InMemoryDatabase> db, std::function<void(InMemoryDatabase&)> op)
{
    Async a; auto d = a.done;
    std::thread([db, op, d]() { op(*db); *d = true; }).detach();
    return a;
}
static bool wait(const Async& a, int ms) { for(int i = 0; i < ms && !*a.done; ++i) usleep(1000); return *a.done; }

static void exclusion()
{
    auto os = ops();
    for(auto& o : os)
    {
        auto db = filled(); ++g_cases;
        g_case = o.first + " during a transaction";
        Async a; bool inside = false;
        db->execute_transaction([&](IDatabase&) { a = start(db, o.second); inside = wait(a, 60); });
        CHECK(!inside, "is not kept waiting");
        g_case = o.first + " after a transaction";
        CHECK(wait(a, 5000), "does not complete");
        if(g_fails) return;
        for(auto& p : os)
        {
            g_case = p.first + " after " + o.first; ++g_cases;
            auto db2 = filled();
            Async x = start(db2, o.second);
            CHECK(wait(x, 5000), "first does not complete"); if(g_fails) return;
            Async y = start(db2, p.second);
            CHECK(wait(y, 5000), "does not complete: the mutex is still held"); if(g_fails) return;
        }
    }
    {   // a transaction can use all of the database
        g_case = "get and set inside a transaction"; ++g_cases;
        auto db = filled();
        Async a = start(db, [](InMemoryDatabase& d) { d.execute_transaction([](IDatabase& t) { bool b; uint16_t v; t.get_coil(10, b); t.set_coil(10, b); t.get_discrete_input(10, b); t.set_discrete_input(10, b); t.get_holding_register(10, v); t.set_holding_register(10, v); t.get_input_register(10, v); t.set_input_register(10, v);
            t.get_coil(99, b); t.set_coil(99, b); t.get_discrete_input(99, b); t.set_discrete_input(99, b); t.get_holding_register(99, v); t.set_holding_register(99, v); t.get_input_register(99, v); t.set_input_register(99, v); }); });
        CHECK(wait(a, 5000), "does not complete");
        g_case = "after the accessors of a transaction";
        Async b = start(db, [](InMemoryDatabase& d) { d.add_coil(1, true); });
        CHECK(wait(b, 5000), "does not complete");
    }
    if(g_fails) return;
    for(int i = 0; i < 20; ++i)
    {   // in the transaction nothing changes between two looks; requests are atomic
        g_case = "two writers of a block of registers and a reader"; ++g_cases;
        auto db = std::make_shared<InMemoryDatabase>();
        for(int k = 0; k < 100; ++k) { db->add_holding_register(k, 0); db->add_coil(k, false); }
        std::atomic<bool> stop{false}; std::atomic<int> torn{0};
        auto w = [&](uint16_t v) { while(!stop) { auto q = wregs(0); q.values.assign(100, v); session(*db).on_request(q); auto c = wcoils(0); c.values.assign(100, v & 1); session(*db).on_request(c);
            db->execute_transaction([&](IDatabase& t) { for(int k = 0; k < 100; ++k) t.set_holding_register(k, v + 10); }); } };
        std::thread t1(w, 1), t2(w, 2);
        auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(50);
        while(std::chrono::steady_clock::now() < until)
        {
            auto r = session(*db).on_request(readreq<ReadHoldingRegistersRequest>(0, 100)).get(); for(auto& x : r.values) if(x.value != r.values[0].value) torn = 1;
            auto c = session(*db).on_request(readreq<ReadCoilsRequest>(0, 100)).get(); for(auto& x : c.values) if(x.value != c.values[0].value) torn = 2;
        }
        stop = true; t1.join(); t2.join();
        CHECK(!torn, "the reader saw half of a write");
        if(g_fails) return;
    }
}

void run()
{
    watchdog(150);
    if(g_prop == "C11") { exclusion(); return; }
    while(time_left() && !g_fails)
    {
        if(g_prop == "C10") memory();
        else if(coin()) single<bool>(); else single<uint16_t>();
    }
}
