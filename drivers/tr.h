// The messages field by field and the Modbus application protocol written by hand.
#ifndef VERIF_DRIVER_TR_H
#define VERIF_DRIVER_TR_H
#include "common.h"
#include <algorithm>
#include "ser4cpp/serialization/BigEndian.h"
#include "messages/ExceptionResponse.h"
#include "messages/ReadCoilsRequestImpl.h"
#include "messages/ReadCoilsResponseImpl.h"
#include "messages/ReadDiscreteInputsRequestImpl.h"
#include "messages/ReadDiscreteInputsResponseImpl.h"
#include "messages/ReadHoldingRegistersRequestImpl.h"
#include "messages/ReadHoldingRegistersResponseImpl.h"
#include "messages/ReadInputRegistersRequestImpl.h"
#include "messages/ReadInputRegistersResponseImpl.h"
#include "messages/WriteSingleCoilRequestImpl.h"
#include "messages/WriteSingleCoilResponseImpl.h"
#include "messages/WriteSingleRegisterRequestImpl.h"
#include "messages/WriteSingleRegisterResponseImpl.h"
#include "messages/WriteMultipleCoilsRequestImpl.h"
#include "messages/WriteMultipleCoilsResponseImpl.h"
#include "messages/WriteMultipleRegistersRequestImpl.h"
#include "messages/WriteMultipleRegistersResponseImpl.h"
#include "messages/mbap/MbapMessage.h"
#include "messages/mbap/MbapParser.h"
#include "messages/mbap/IMbapSink.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "msgs.h"
using namespace modbus;
using bytes = std::vector<uint8_t>;
struct Values { uint16_t a = 0, q = 0; std::vector<uint16_t> v; };   // address, quantity, values (a single write: one value)
enum Kind { RB, RR, WC, WR, WCS, WRS };

static void put16(bytes& o, unsigned x) { o.push_back(x >> 8); o.push_back(x); }
static void putvalues(bytes& o, bool bits, const std::vector<uint16_t>& v)
{
    if(!bits) { for(auto x : v) put16(o, x); return; }
    for(size_t i = 0; i < v.size(); i += 8) { unsigned b = 0; for(size_t k = 0; k < 8 && i + k < v.size(); ++k) if(v[i + k]) b |= 1u << k; o.push_back(b); }
}
static unsigned nbytes(bool bits, unsigned n) { return bits ? (n + 7) / 8 : 2 * n; }

// what each message is, field by field
template <typename I> struct Tr;
#define READ(N, FC, K, QF) \
  struct T##N { static constexpr uint8_t fc = FC; static constexpr Kind kind = K; using Req = N##Request; using Resp = N##Response; using ReqI = N##RequestImpl; using RespI = N##ResponseImpl; \
    static const char* name() { return #N; } \
    static Req req(const Values& x) { Req r; r.starting_address = x.a; r.QF = x.q; return r; } \
    static Values rd(const Req& r) { Values x; x.a = r.starting_address; x.q = r.QF; return x; } \
    static Resp resp(const Values& x) { Resp r; for(size_t i = 0; i < x.v.size(); ++i) { typename decltype(r.values)::value_type e{}; e.address = (uint16_t)(x.a + i); e.value = x.v[i]; r.values.push_back(e); } return r; } \
    static bool same(const Resp& r, const Values& x) { if(r.values.size() != x.v.size()) return false; for(size_t i = 0; i < x.v.size(); ++i) if(r.values[i].address != (uint16_t)(x.a + i) || r.values[i].value != x.v[i]) return false; return true; } };
READ(ReadCoils, 1, RB, qty_of_bits)
READ(ReadDiscreteInputs, 2, RB, qty_of_bits)
READ(ReadHoldingRegisters, 3, RR, qty_of_registers)
READ(ReadInputRegisters, 4, RR, qty_of_registers)
#define ONE(N, FC, K) \
  struct T##N { static constexpr uint8_t fc = FC; static constexpr Kind kind = K; using Req = N##Request; using Resp = N##Response; using ReqI = N##RequestImpl; using RespI = N##ResponseImpl; \
    static const char* name() { return #N; } \
    static Req req(const Values& x) { Req r; r.value.address = x.a; r.value.value = x.v.at(0); return r; } \
    static Values rd(const Req& r) { Values x; x.a = r.value.address; x.v.push_back(r.value.value); return x; } \
    static Resp resp(const Values& x) { Resp r; r.value.address = x.a; r.value.value = x.v.at(0); return r; } \
    static bool same(const Resp& r, const Values& x) { return r.value.address == x.a && r.value.value == x.v.at(0); } };
ONE(WriteSingleCoil, 5, WC)
ONE(WriteSingleRegister, 6, WR)
#define MANY(N, FC, K, QF) \
  struct T##N { static constexpr uint8_t fc = FC; static constexpr Kind kind = K; using Req = N##Request; using Resp = N##Response; using ReqI = N##RequestImpl; using RespI = N##ResponseImpl; \
    static const char* name() { return #N; } \
    static Req req(const Values& x) { Req r; r.starting_address = x.a; for(auto e : x.v) r.values.push_back(e); return r; } \
    static Values rd(const Req& r) { Values x; x.a = r.starting_address; for(auto e : r.values) x.v.push_back(e); return x; } \
    static Resp resp(const Values& x) { Resp r; r.starting_address = x.a; r.QF = x.q; return r; } \
    static bool same(const Resp& r, const Values& x) { return r.starting_address == x.a && r.QF == x.q; } };
MANY(WriteMultipleCoils, 15, WCS, qty_of_coils)
MANY(WriteMultipleRegisters, 16, WRS, qty_of_registers)

template <typename T> constexpr bool bits() { return T::kind == RB || T::kind == WC || T::kind == WCS; }
template <typename T> unsigned maxq() { switch(T::kind) { case RB: return 2000; case RR: return 125; case WCS: return 1968; default: return 123; } }

template <typename T> bytes encreq(const Values& x)
{
    bytes o{T::fc}; put16(o, x.a);
    switch(T::kind)
    {
        case RB: case RR: put16(o, x.q); break;
        case WC: put16(o, x.v[0] ? 0xFF00 : 0); break;
        case WR: put16(o, x.v[0]); break;
        default: put16(o, x.v.size()); o.push_back(nbytes(bits<T>(), x.v.size())); putvalues(o, bits<T>(), x.v);
    }
    return o;
}
template <typename T> bytes encresp(const Values& x)
{
    bytes o{T::fc};
    switch(T::kind)
    {
        case RB: case RR: o.push_back(nbytes(bits<T>(), x.v.size())); putvalues(o, bits<T>(), x.v); break;
        case WC: put16(o, x.a); put16(o, x.v[0] ? 0xFF00 : 0); break;
        case WR: put16(o, x.a); put16(o, x.v[0]); break;
        default: put16(o, x.a); put16(o, x.q);
    }
    return o;
}
template <typename T> bool validreq(const Values& x)
{
    if(T::kind == RB || T::kind == RR) return x.q >= 1 && x.q <= maxq<T>();
    if(T::kind == WCS || T::kind == WRS) return x.v.size() >= 1 && x.v.size() <= maxq<T>();
    return true;
}

static unsigned count(unsigned max, bool over = false)
{
    switch(rnd(8))
    {
        case 0: return 1 + rnd(17) < max ? 1 + rnd(17) : max;
        case 1: return max - rnd(18 < max ? 18 : max - 1);
        case 2: return 8 * (1 + rnd(max / 8));
        case 3: return over ? max + 1 + rnd(300) : max;
        case 4: return over ? 0 : 1;
        default: return 1 + rnd(max);
    }
}
template <typename T> Values reqvalues(bool over = false)
{
    Values x; x.a = rnd16();
    switch(T::kind)
    {
        case RB: case RR: x.q = over ? rnd16() : count(maxq<T>()); if(over && coin()) x.q = count(maxq<T>(), true); break;
        case WC: x.v = {(uint16_t)rnd(2)}; break;
        case WR: x.v = {rnd16()}; break;
        default: x.v.resize(count(maxq<T>(), over)); for(auto& e : x.v) e = bits<T>() ? rnd(2) : rnd16();
    }
    return x;
}
template <typename T> Values respvalues(const Values* q = nullptr)
{
    Values x; x.a = q ? q->a : rnd16();
    switch(T::kind)
    {
        case RB: case RR: x.v.resize(q ? q->q : count(maxq<T>())); for(auto& e : x.v) e = bits<T>() ? rnd(2) : rnd16(); break;
        case WC: x.v = {(uint16_t)rnd(2)}; if(q) x.v = q->v; break;
        case WR: x.v = {rnd16()}; if(q) x.v = q->v; break;
        default: x.q = q ? q->v.size() : rnd16();
    }
    return x;
}
static std::string show(const Values& x)
{
    std::ostringstream o; o << "address " << x.a << " quantity " << x.q << " values[" << x.v.size() << "]";
    for(size_t i = 0; i < x.v.size() && i < 40; ++i) o << " " << x.v[i];
    return o.str();
}
static const struct { ExceptionType t; uint8_t code; } CODES[] = {
    {ExceptionType::IllegalFunction, 1}, {ExceptionType::IllegalDataAddress, 2}, {ExceptionType::IllegalDataValue, 3}, {ExceptionType::ServerDeviceFailure, 4}, {ExceptionType::Acknowledge, 5},
    {ExceptionType::ServerDeviceBusy, 6}, {ExceptionType::MemoryParityError, 8}, {ExceptionType::GatewayPathUnavailable, 10}, {ExceptionType::GatewayTargetDeviceFailedToRespond, 11}};
static ExceptionType typeof_(uint8_t b) { for(auto& c : CODES) if(c.code == b) return c.t; return ExceptionType::Unknown; }

template <typename X> std::string kind_(const X& e)
{
    if(e.is_valid()) return "valid";
    if(e.template has_exception<ModbusException>()) { std::ostringstream o; o << "exception " << e.template get_exception<ModbusException>().get_exception_type(); return o.str(); }
    if(e.template has_exception<MalformedModbusRequestException>()) return "malformed request";
    if(e.template has_exception<MalformedModbusResponseException>()) return "malformed response";
    return "another error";
}

static bytes mutate(bytes b, uint8_t fc)
{
    for(unsigned k = rnd(4); k > 0; --k)
    {
        switch(rnd(9))
        {
            case 0: if(!b.empty()) b.pop_back(); break;
            case 1: b.push_back(rnd(256)); break;
            case 2: if(!b.empty()) b[rnd(b.size())] = rnd(256); break;
            case 3: if(b.size() > 5) b[5] += (int)rnd(3) - 1; break;
            case 4: if(b.size() > 4) b[3 + rnd(2)] += (int)rnd(3) - 1; break;
            case 5: if(b.size() > 1) b[1] += (int)rnd(3) - 1; break;
            case 6: if(!b.empty()) b[0] ^= 1u << rnd(8); break;
            case 7: if(b.size() > 4) { uint16_t x = rnd16(); b[3] = x >> 8; b[4] = x; } break;
            default: b.resize(rnd(b.size() + 3)); break;
        }
    }
    if(rnd(30) == 0) { b.assign(2, 0); b[0] = fc | 0x80; b[1] = rnd(14); if(rnd(6) == 0) b.resize(1 + rnd(4)); }
    return b;
}
struct Exact { std::unique_ptr<uint8_t[]> p; size_t n; explicit Exact(const bytes& b) : p(new uint8_t[b.size() ? b.size() : 1]), n(b.size()) { if(n) memcpy(p.get(), b.data(), n); else p.reset(new uint8_t[0]); } ser4cpp::rseq_t view() const { return ser4cpp::rseq_t(p.get(), n); } };

// what decoding a string as a request of that type must give; alt: the other answer allowed
template <typename T> std::string decoded(const bytes& b, Values& x, std::string& alt)
{
    std::string idv = "exception Illegal data value", want;
    x = Values(); size_t L = b.size();
    unsigned q = L >= 5 ? b[3] * 256 + b[4] : 0;
    x.a = L >= 3 ? b[1] * 256 + b[2] : 0;
    if(L == 0 || b[0] != T::fc) want = "malformed request";
    else if(T::kind != WCS && T::kind != WRS)
    {
        if(L != 5) want = "malformed request";
        else if(T::kind == RB || T::kind == RR) { x.q = q; want = q >= 1 && q <= maxq<T>() ? "valid" : idv; }
        else if(T::kind == WC) { x.v = {(uint16_t)(q == 0xFF00)}; want = q == 0 || q == 0xFF00 ? "valid" : idv; }
        else { x.v = {(uint16_t)q}; want = "valid"; }
    }
    else if(L < 6) want = "malformed request";
    else
    {
        unsigned bc = b[5];
        if(q == 0 || q > maxq<T>() || bc != nbytes(bits<T>(), q)) { want = idv; if(L != bc + 6) alt = "malformed request"; }
        else if(L != bc + 6) want = "malformed request";
        else { want = "valid"; for(unsigned i = 0; i < q; ++i) x.v.push_back(bits<T>() ? (b[6 + i / 8] >> (i % 8)) & 1 : b[6 + 2 * i] * 256 + b[7 + 2 * i]); }
    }
    return want;
}

#define ALL(X) switch(rnd(8)) { case 0: X(TReadCoils); break; case 1: X(TReadDiscreteInputs); break; case 2: X(TReadHoldingRegisters); break; case 3: X(TReadInputRegisters); break; \
    case 4: X(TWriteSingleCoil); break; case 5: X(TWriteSingleRegister); break; case 6: X(TWriteMultipleCoils); break; default: X(TWriteMultipleRegisters); }
#endif
