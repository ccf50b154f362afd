// Encoders, decoders and framing against the Modbus application protocol written by hand: C01, C03-C07, C23.
#include "common.h"
#include <set>
#include "tr.h"
static std::string diffat(const bytes& a, const bytes& b)
{
    std::ostringstream o; size_t i = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    o << "expected " << a.size() << " bytes, got " << b.size() << "; first difference at " << i << ": expected " << hex(bytes(a.begin() + i, a.begin() + std::min(a.size(), i + 6))) << " got " << hex(bytes(b.begin() + i, b.begin() + std::min(b.size(), i + 6)));
    return o.str();
}

static void encodes(const IMessage& m, const bytes& want, const char* what)
{
    size_t L = m.get_message_length();
    CHECK(L == want.size(), what << ": announced length " << L << ", expected " << want.size());
    size_t slack = coin() ? 0 : rnd(20);
    size_t cap = want.size() + slack;
    std::unique_ptr<uint8_t[]> b(new uint8_t[cap ? cap : 1]);
    memset(b.get(), 0xA5, cap);
    ser4cpp::wseq_t w(b.get(), cap);
    m.build_message(w);
    bytes got(b.get(), b.get() + (cap - w.length()));
    CHECK(got == want, what << ": " << diffat(want, got));
    for(size_t i = want.size(); i < cap; ++i) if(b[i] != 0xA5) { CHECK(false, what << ": writes behind its bytes"); break; }
}

template <typename T> void encode_request(bool validity)
{
    Values x = reqvalues<T>(true);
    g_case = std::string("request ") + T::name() + " " + show(x); ++g_cases;
    auto r = T::req(x);
    std::unique_ptr<IMessage> c;
    {
        typename T::ReqI m(r);
        CHECK(m.is_valid() == validreq<T>(x), "is_valid is " << m.is_valid());
        bool within = validreq<T>(x) || T::kind == RB || T::kind == RR || ((T::kind == WCS || T::kind == WRS) && x.v.empty());
        if(within) encodes(m, encreq<T>(x), "encoding");
        c = m.clone();
        if(within) encodes(*c, encreq<T>(x), "encoding of the clone");
        CHECK(c->is_valid() == validreq<T>(x), "is_valid of the clone is " << c->is_valid());
    }
    if(validreq<T>(x)) encodes(*c, encreq<T>(x), "encoding of the clone after the original is gone");
}
template <typename T> void encode_response()
{
    Values x = respvalues<T>();
    g_case = std::string("response ") + T::name() + " " + show(x); ++g_cases;
    auto r = T::resp(x);
    std::unique_ptr<IMessage> c;
    {
        typename T::RespI m(r);
        encodes(m, encresp<T>(x), "encoding");
        c = m.clone();
        encodes(*c, encresp<T>(x), "encoding of the clone");
    }
    encodes(*c, encresp<T>(x), "encoding of the clone after the original is gone");
}

static void encode_exception()
{
    auto& c = CODES[rnd(9)]; uint8_t fc = rnd(3) ? 1 + rnd(16) : rnd(256);
    std::ostringstream o; o << "exception response function " << (int)fc << " code " << (int)c.code; g_case = o.str(); ++g_cases;
    bytes want{(uint8_t)(fc | 0x80), c.code};
    ExceptionResponse m(fc, c.t);
    encodes(m, want, "encoding"); encodes(*m.clone(), want, "encoding of the clone");
}

template <typename T> void decode_request()
{
    bytes b = mutate(encreq<T>(reqvalues<T>(rnd(3) == 0)), T::fc);
    if(b.size() > 700) b.resize(700);
    g_case = std::string("decoding as ") + T::name() + " request " + hex(b); ++g_cases;
    Exact d(b);
    auto r = T::ReqI::parse(d.view());
    std::string got = kind_(r);
    std::string alt; Values x; std::string want = decoded<T>(b, x, alt);
    CHECK(got == want || (!alt.empty() && got == alt), "result is " << got << ", expected " << want);
    if(got == "valid" && want == "valid")
    {
        Values g = T::rd(r.get());
        CHECK(g.a == x.a && g.q == x.q && g.v == x.v, "decoded " << show(g) << ", expected " << show(x));
    }
}
template <typename T> void decode_response()
{
    Values q = reqvalues<T>(false), rv;
    if(rnd(4) == 0) { Values o = reqvalues<T>(rnd(2)); rv = respvalues<T>(&o); if(rv.v.size() > 3000) rv.v.resize(3000); } else rv = respvalues<T>(&q);
    bytes b = encresp<T>(rv);
    if(coin()) b = mutate(b, T::fc);
    g_case = std::string("decoding as ") + T::name() + " response to " + show(q) + ": " + hex(b); ++g_cases;
    Exact d(b);
    typename T::ReqI req(T::req(q));
    auto r = T::RespI::parse(req, d.view());
    std::string got = kind_(r), want = "malformed response";
    Values x; x.a = q.a; size_t L = b.size();
    if(L == 2 && b[0] == (T::fc | 0x80)) { std::ostringstream o; o << "exception " << typeof_(b[1]); want = o.str(); }
    else if(L == 0 || b[0] != T::fc) {}
    else if(T::kind == RB || T::kind == RR)
    {
        unsigned nb = nbytes(bits<T>(), q.q);
        if(L == nb + 2 && b[1] == nb) { want = "valid"; for(unsigned i = 0; i < q.q; ++i) x.v.push_back(bits<T>() ? (b[2 + i / 8] >> (i % 8)) & 1 : b[2 + 2 * i] * 256 + b[3 + 2 * i]); }
    }
    else if(L == 5)
    {
        x.a = b[1] * 256 + b[2]; unsigned y = b[3] * 256 + b[4];
        if(T::kind == WC) { if(y == 0 || y == 0xFF00) { want = "valid"; x.v = {(uint16_t)(y != 0)}; } }
        else if(T::kind == WR) { want = "valid"; x.v = {(uint16_t)y}; }
        else { want = "valid"; x.q = y; }
    }
    CHECK(got == want, "result is " << got << ", expected " << want);
    if(got == "valid" && want == "valid") CHECK(T::same(r.get(), x), "the decoded values are not those received");
}

// ---- framing
struct Fake : IMessage
{
    bytes pdu; mutable int built = 0;
    std::unique_ptr<IMessage> clone() const override { return nullptr; }
    bool is_valid() const override { return true; }
    size_t get_message_length() const override { return pdu.size(); }
    void build_message(ser4cpp::wseq_t& w) const override { ++built; for(auto x : pdu) ser4cpp::UInt8::write_to(w, x); }
};
struct Sink : IMbapSink { std::vector<std::string> got; void on_mbap_message(const MbapMessage& m) override { std::ostringstream o; o << (int)m.unit_id.get_value() << "/" << m.transaction_id.get_value() << "/" << hex(bytes((const uint8_t*)m.data, (const uint8_t*)m.data + m.data.length())); got.push_back(o.str()); } };
static bytes frame(uint8_t u, uint16_t t, const bytes& pdu) { bytes o; put16(o, t); put16(o, 0); put16(o, pdu.size() + 1); o.push_back(u); o.insert(o.end(), pdu.begin(), pdu.end()); return o; }
static bytes framed(const IMessage& m, uint8_t u, uint16_t t, const bytes* pdu, size_t over)
{
    size_t n = pdu ? pdu->size() : over;
    size_t cap = pdu ? n + 7 + (coin() ? 0 : rnd(30)) : (coin() ? 260 : coin() ? rnd(400) : n + 7 + rnd(3));
    size_t before = rnd(3), alloc = before + cap;
    std::unique_ptr<uint8_t[]> b(new uint8_t[alloc ? alloc : 1]); memset(b.get(), 0x5A, alloc);
    ser4cpp::wseq_t w(b.get() + before, cap);
    auto r = MbapMessage::build_message(UnitIdentifier(u), TransactionIdentifier(t), m, w);
    bytes got((const uint8_t*)r, (const uint8_t*)r + r.length());
    if(pdu)
    {
        bytes want = frame(u, t, *pdu);
        CHECK(got == want, "frame: " << diffat(want, got));
        for(size_t i = before + want.size(); i < alloc; ++i) if(b[i] != 0x5A) { CHECK(false, "writes behind the frame"); break; }
    }
    else CHECK(r.length() <= 260, "a PDU of " << n << " bytes gives a frame of " << r.length() << " bytes");
    for(size_t i = 0; i < before; ++i) CHECK(b[i] == 0x5A, "writes before the buffer");
    return got;
}
static void framing()
{
    Fake f; uint8_t u = rnd(256); uint16_t t = rnd16();
    size_t n = rnd(5) == 0 ? 248 + rnd(16) : rnd(6) == 0 ? 254 + rnd(500) : rnd(6) == 0 ? rnd(70000) : rnd(254);
    f.pdu.resize(n); for(auto& x : f.pdu) x = rnd(256);
    std::ostringstream o; o << "framing unit " << (int)u << " transaction " << t << " PDU of " << n << " bytes"; g_case = o.str(); ++g_cases;
    framed(f, u, t, n <= 253 ? &f.pdu : nullptr, n);
}
static void feed(MbapParser& p, const bytes& b) { size_t i = 0; while(i < b.size()) { size_t k = std::min(b.size() - i, (size_t)1 + (coin() ? rnd(4) : rnd(300))); Exact e(bytes(b.begin() + i, b.begin() + i + k)); p.parse(e.view()); i += k; } }
static void unframe(const IMessage& m, const bytes& pdu)
{
    uint8_t u = rnd(256); uint16_t t = rnd16();
    bytes fr = framed(m, u, t, &pdu, 0);
    Sink s; MbapParser p(&s);
    feed(p, fr);
    std::ostringstream o; o << (int)u << "/" << t << "/" << hex(pdu);
    CHECK(s.got.size() == 1 && s.got[0] == o.str(), "the framed message is not received as sent: " << s.got.size() << " messages");
}

template <typename T> void roundtrip()
{
    Values q = reqvalues<T>(false); while(!validreq<T>(q)) q = reqvalues<T>(false);
    g_case = std::string("round trip ") + T::name() + " " + show(q); ++g_cases;
    typename T::ReqI req(T::req(q));
    bytes b(300); ser4cpp::wseq_t w(b.data(), b.size()); req.build_message(w); b.resize(300 - w.length());
    { Exact e(b); auto r = T::ReqI::parse(e.view()); CHECK(r.is_valid(), "the encoded request is rejected: " << kind_(r)); if(r.is_valid()) { Values g = T::rd(r.get()); CHECK(g.a == q.a && g.q == q.q && g.v == q.v, "decoded " << show(g)); } }
    unframe(req, b);
    Values x = respvalues<T>(&q);
    if(T::kind == WC || T::kind == WR) { x.v = q.v; x.a = q.a; }
    typename T::RespI resp(T::resp(x));
    bytes c(300); ser4cpp::wseq_t v(c.data(), c.size()); resp.build_message(v); c.resize(300 - v.length());
    { Exact e(c); auto r = T::RespI::parse(req, e.view()); CHECK(r.is_valid(), "the encoded response is rejected: " << kind_(r)); if(r.is_valid()) CHECK(T::same(r.get(), x), "the decoded response differs from " << show(x)); }
    unframe(resp, c);
    auto& k = CODES[rnd(9)];
    ExceptionResponse er(T::fc, k.t);
    bytes d(10); ser4cpp::wseq_t y(d.data(), d.size()); er.build_message(y); d.resize(10 - y.length());
    { Exact e(d); auto r = T::RespI::parse(req, e.view()); bool ok = !r.is_valid() && r.template has_exception<ModbusException>() && r.template get_exception<ModbusException>().get_exception_type() == k.t; CHECK(ok, "exception response with code " << (int)k.code << " decodes to " << kind_(r)); }
}

static void exceptions()
{
    std::set<std::string> texts;
    for(int i = 0; i < 10; ++i)
    {
        ExceptionType t = i < 9 ? CODES[i].t : ExceptionType::Unknown;
        if(i < 9) { g_case = "exception type with code " + std::to_string(CODES[i].code); CHECK((int)t == CODES[i].code, "its number is " << (int)t); }
        std::ostringstream o; o << t; g_case = "description " + o.str(); ++g_cases;
        CHECK(!o.str().empty() && texts.insert(o.str()).second, "the description is not its own");
        try { throw ModbusException(t); } catch(const ModbusException& e) { CHECK(e.get_exception_type() == t, "the exception carries type " << (int)e.get_exception_type()); CHECK(static_cast<const IException&>(e).get_message() == o.str(), "its message is " << static_cast<const IException&>(e).get_message()); }
    }
    std::ostringstream u; u << ExceptionType::Unknown;
    for(int i = -5; i < 70000; i += i < 600 ? 1 : 97)
    {
        bool known = i == (int)ExceptionType::Unknown; for(auto& c : CODES) if(c.code == i) known = true;
        if(known) continue;
        std::ostringstream o; o << (ExceptionType)i; g_case = "exception type value " + std::to_string(i); ++g_cases;
        CHECK(o.str() == u.str(), "described as " << o.str());
    }
    for(int b = 0; b < 256; ++b) { g_case = "code " + std::to_string(b); ++g_cases; auto t = parse_exception_type(b); CHECK(t == typeof_(b), "parses to " << (int)t); }
    for(int i = 0; i < 50; ++i) encode_exception();
}

#define E_REQ(T) encode_request<T>(true)
#define E_RESP(T) encode_response<T>()
#define D_REQ(T) decode_request<T>()
#define D_RESP(T) decode_response<T>()
#define RT(T) roundtrip<T>()
template <typename T> void clone_framing()
{
    Values x = reqvalues<T>(true); g_case = std::string("framing request ") + T::name() + " " + show(x); ++g_cases;
    typename T::ReqI m(T::req(x)); bytes b = encreq<T>(x);
    if(!validreq<T>(x) && (T::kind == WCS || T::kind == WRS)) { if(m.get_message_length() > 253) framed(m, 1, 2, nullptr, m.get_message_length()); return; }
    framed(m, rnd(256), rnd16(), &b, 0);
}
#define CF(T) clone_framing<T>()

void run()
{
    unsigned long n = 0;
    while(time_left())
    {
        watchdog(20);
        if(g_prop == "C01") { framing(); ALL(CF) }
        else if(g_prop == "C03") { ALL(E_REQ) }
        else if(g_prop == "C04") { ALL(D_REQ) }
        else if(g_prop == "C05") { ALL(E_RESP) if(n % 8 == 0) encode_exception(); }
        else if(g_prop == "C06") { ALL(D_RESP) }
        else if(g_prop == "C07") { exceptions(); }
        else { ALL(RT) }
        ++n;
    }
}
