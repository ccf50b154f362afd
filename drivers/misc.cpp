// Identifiers, endpoints and Expected against what was put in: C17, C22.
#include "common.h"
#include "messages/mbap/MbapMessage.h"
#include "modbus/Expected.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/UnitIdentifier.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
using namespace modbus;

static void ids()
{
    for(unsigned i = 0; i < 256; ++i)
    {
        g_case = "unit identifier " + std::to_string(i); ++g_cases;
        UnitIdentifier x(i);
        CHECK(x.get_value() == i, "value is " << (int)x.get_value());
        std::ostringstream o, w; o << x; w << "0x" << std::uppercase << std::hex << std::setw(2) << std::setfill('0') << i;
        CHECK(o.str() == w.str(), "prints as " << o.str());
        for(unsigned j = 0; j < 256; ++j)
        {
            UnitIdentifier y(j);
            CHECK((x == y) == (i == j) && (x != y) == (i != j), "compared with " << j);
            if(i == j) CHECK(std::hash<UnitIdentifier>()(x) == std::hash<UnitIdentifier>()(y), "hash differs");
        }
    }
    g_case = "default unit identifier"; CHECK(UnitIdentifier::default_unit_identifier().get_value() == 0xFF, "is not 0xFF");
    for(unsigned i = 0; i < 65536; ++i)
    {
        g_case = "transaction identifier " + std::to_string(i); ++g_cases;
        TransactionIdentifier x((uint16_t)i), p(x), q(x);
        CHECK(x.get_value() == i, "value is " << x.get_value());
        uint16_t n = i + 1;
        TransactionIdentifier& r = ++p; CHECK(&r == &p && p.get_value() == n, "++x gives " << p.get_value());
        TransactionIdentifier s = q++; CHECK(s.get_value() == i && q.get_value() == n, "x++ gives " << s.get_value() << " leaves " << q.get_value());
        for(unsigned j : {i, i ^ 1, i ^ 0x100, i ^ 0x8000, (unsigned)rnd16()}) { TransactionIdentifier y((uint16_t)j); CHECK((x == y) == (i == j) && (x != y) == (i != j), "compared with " << j); }
        std::ostringstream o, w; o << x; w << "0x" << std::uppercase << std::hex << std::setw(4) << std::setfill('0') << i;
        CHECK(o.str() == w.str(), "prints as " << o.str());
    }
    const std::string hosts[] = {"", "a", "127.0.0.1", "127.0.0.2", "127.0.0.10", "localhost", "LOCALHOST", "a-very-long-host-name.example.com", "a-very-long-host-name.example.org"};
    const uint32_t ports[] = {0, 1, 502, 503, 65535, 65536, 65536 + 502, 0x80000000u, 0xFFFFFFFFu};
    for(auto& h : hosts) for(auto p : ports) for(auto& g : hosts) for(auto q : ports)
    {
        g_case = "endpoints " + h + ":" + std::to_string(p) + " " + g + ":" + std::to_string(q); ++g_cases;
        Ipv4Endpoint x(h, p), y(g, q);
        CHECK(x.get_hostname() == h && x.get_port() == p, "reports " << x.get_hostname() << ":" << x.get_port());
        bool same = h == g && p == q;
        CHECK((x == y) == same && (x != y) == !same, "comparison is wrong");
    }
}

// a value that knows how many of it are alive, and which ones
static std::map<const void*, int> g_alive;
struct Tracked
{
    std::string s;
    explicit Tracked(const std::string& x = "") : s(x) { born(); }
    Tracked(const Tracked& o) : s(o.s) { used(o); born(); }
    Tracked(Tracked&& o) : s(std::move(o.s)) { used(o); o.s = "moved"; born(); }
    ~Tracked() { if(!g_alive.erase(this)) fail("a value that does not exist is destroyed"); }
    bool operator==(const Tracked& o) const { return s == o.s; }
    void born() { if(!g_alive.emplace(this, 1).second) fail("a value is built over a living one"); }
    static void used(const Tracked& o) { if(!g_alive.count(&o)) fail("a value that does not exist is copied"); }
};
static std::ostream& operator<<(std::ostream& o, const Tracked& t) { return o << t.s; }

template <typename T> T mk(); 
template <> int mk<int>() { return (int)rnd(); }
template <> bool mk<bool>() { return coin(); }
template <> std::string mk<std::string>() { return std::string(rnd(60), 'a' + rnd(26)); }
template <> Tracked mk<Tracked>() { return Tracked(mk<std::string>()); }
struct Regs : ReadHoldingRegistersResponse { bool operator==(const Regs& o) const { if(values.size() != o.values.size()) return false; for(size_t i = 0; i < values.size(); ++i) if(values[i].address != o.values[i].address || values[i].value != o.values[i].value) return false; return true; } };
template <> Regs mk<Regs>() { Regs r; r.values.resize(rnd(20)); for(auto& v : r.values) { v.address = rnd(); v.value = rnd(); } return r; }

struct Other : std::runtime_error { Other() : std::runtime_error("other") {} };
static const char* EXC[] = {"connection", "malformed request", "malformed response", "modbus", "timeout", "other"};
static ExceptionType g_type;
template <typename T, typename E> Expected<T> viaptr(const E& e) { return Expected<T>::from_exception(std::make_exception_ptr(e)); }
template <typename T> Expected<T> mkexc(unsigned k, bool ptr)
{
    switch(k)
    {
        case 0: { ConnectionException e{"x"}; return ptr ? viaptr<T>(e) : Expected<T>::from_exception(e); }
        case 1: { MalformedModbusRequestException e{"x"}; return ptr ? viaptr<T>(e) : Expected<T>::from_exception(e); }
        case 2: { MalformedModbusResponseException e{"x"}; return ptr ? viaptr<T>(e) : Expected<T>::from_exception(e); }
        case 3: { ModbusException e{g_type}; return ptr ? viaptr<T>(e) : Expected<T>::from_exception(e); }
        case 4: { TimeoutException e; return ptr ? viaptr<T>(e) : Expected<T>::from_exception(e); }
        default: { Other e; return ptr ? viaptr<T>(e) : Expected<T>::from_exception(e); }
    }
}
template <typename E, typename X> void typed(const X& x, bool has, const char* n)
{
    CHECK(x.template has_exception<E>() == has, "has_exception<" << n << "> is " << !has);
    bool threw = false, ok = false;
    try { E e = x.template get_exception<E>(); ok = true; } catch(const std::invalid_argument&) { threw = true; } catch(...) {}
    CHECK(has ? ok : threw, "get_exception<" << n << "> " << (ok ? "returns" : threw ? "throws invalid_argument" : "throws something else"));
}
template <typename T> void seen(Expected<T>& x, const T* v, unsigned k, const char* when)
{
    std::string c0 = g_case; g_case += std::string(" ") + when;
    const Expected<T>& cx = x;
    CHECK(x.is_valid() == (v != nullptr), "is_valid is " << x.is_valid());
    for(int c = 0; c < 2; ++c)
    {
        int got = -1;
        try { const T& g = c ? cx.get() : x.get(); got = 9; CHECK(v && g == *v, "get returns another value"); }
        catch(const ConnectionException&) { got = 0; } catch(const MalformedModbusRequestException&) { got = 1; } catch(const MalformedModbusResponseException&) { got = 2; }
        catch(const ModbusException& e) { got = 3; CHECK(e.get_exception_type() == g_type, "the exception thrown has another type"); } catch(const TimeoutException&) { got = 4; } catch(const Other&) { got = 5; } catch(...) { got = 8; }
        CHECK(got == (v ? 9 : (int)k), "get gives " << got);
    }
    typed<ConnectionException>(cx, !v && k == 0, EXC[0]); typed<MalformedModbusRequestException>(cx, !v && k == 1, EXC[1]); typed<MalformedModbusResponseException>(cx, !v && k == 2, EXC[2]);
    typed<ModbusException>(cx, !v && k == 3, EXC[3]); typed<TimeoutException>(cx, !v && k == 4, EXC[4]); typed<Other>(cx, !v && k == 5, EXC[5]);
    if(!v && k == 3 && cx.template has_exception<ModbusException>()) CHECK(cx.template get_exception<ModbusException>().get_exception_type() == g_type, "get_exception<ModbusException> has another type");
    CHECK(cx.template has_exception<IException>() == (!v && k < 5), "has_exception<IException>");
    bool threw = false; std::exception_ptr p;
    try { p = cx.get_exception(); } catch(const std::invalid_argument&) { threw = true; }
    CHECK(threw == (v != nullptr), "get_exception " << (threw ? "throws" : "returns"));
    if(!v) { CHECK(!!p, "get_exception is null"); Expected<T> again = p ? Expected<T>::from_exception(p) : mkexc<T>(5, false); CHECK(!again.is_valid(), "rebuilt from its pointer is valid"); }
    g_case = c0;
}
template <typename T> void expected(const char* tn)
{
    T v = mk<T>(); g_type = (ExceptionType)rnd(14);
    bool good = rnd(3) == 0, ptr = coin(); unsigned k = rnd(6);
    g_case = std::string("Expected<") + tn + "> from " + (good ? (ptr ? "copied value" : "moved value") : std::string(ptr ? "pointer to " : "") + EXC[k] + " exception"); ++g_cases;
    T w = v;
    {
        Expected<T> x = good ? (ptr ? Expected<T>(v) : Expected<T>(std::move(w))) : mkexc<T>(k, ptr);
        const T* e = good ? &v : nullptr;
        seen(x, e, k, "built");
        Expected<T> c(x); seen(c, e, k, "copied"); seen(x, e, k, "after being copied");
        { Expected<T> d(c); } seen(c, e, k, "after a copy is gone");
        Expected<T> m(std::move(x)); seen(m, e, k, "moved"); seen(c, e, k, "after the original was moved");
        std::vector<Expected<T>> many; for(int i = 0; i < 5; ++i) many.push_back(c); for(auto& q : many) seen(q, e, k, "in a vector");
    }
}
void run()
{
    while(time_left())
    {
        watchdog(30);
        if(g_prop == "C17") ids();
        else for(int i = 0; i < 200; ++i)
        {
            expected<int>("int"); expected<bool>("bool"); expected<std::string>("string"); expected<Regs>("registers"); expected<Tracked>("tracked");
            g_case = "all gone"; CHECK(g_alive.empty(), g_alive.size() << " values were never destroyed"); g_alive.clear();
        }
    }
}
