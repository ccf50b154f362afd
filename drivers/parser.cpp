// The stream parser against a byte-by-byte reading of the stream: C02.
#include "common.h"
#include "messages/mbap/MbapMessage.h"
#include "messages/mbap/MbapParser.h"
#include "messages/mbap/IMbapSink.h"
using namespace modbus;
using bytes = std::vector<uint8_t>;
static std::string msg(unsigned u, unsigned t, const bytes& b) { std::ostringstream o; o << "unit " << u << " transaction " << t << " body " << hex(b) << "/" << b.size(); return o.str(); }
struct Sink : IMbapSink
{
    std::vector<std::string> got; MbapParser* p = nullptr; bool reset = false;
    void on_mbap_message(const MbapMessage& m) override
    {
        got.push_back(msg(m.unit_id.get_value(), m.transaction_id.get_value(), bytes((const uint8_t*)m.data, (const uint8_t*)m.data + m.data.length())));
    }
};
// one byte at a time
struct Ref
{
    bytes f; std::vector<std::string> got;
    void byte(uint8_t b)
    {
        f.push_back(b);
        if(f.size() < 7) return;
        unsigned len = f[4] * 256 + f[5];
        if(len == 0) { f.clear(); return; }
        if(f.size() < len + 6u) return;
        if(f[2] == 0 && f[3] == 0) got.push_back(msg(f[6], f[0] * 256 + f[1], bytes(f.begin() + 7, f.begin() + 7 + std::min<size_t>(253, f.size() - 7))));
        f.clear();
    }
};
static bytes frame()
{
    bytes o; uint16_t t = rnd16(), p = rnd(6) == 0 ? rnd16() : rnd(12) == 0 ? 1u << rnd(16) : 0;
    unsigned len;
    switch(rnd(12)) { case 0: len = 0; break; case 1: len = 1; break; case 2: len = 2; break; case 3: len = 250 + rnd(10); break; case 4: len = rnd(4) ? 253 + rnd(300) : rnd(65536); break; case 5: len = 256 * (1 + rnd(3)) + rnd(3); break; default: len = 1 + rnd(30); }
    o = {(uint8_t)(t >> 8), (uint8_t)t, (uint8_t)(p >> 8), (uint8_t)p, (uint8_t)(len >> 8), (uint8_t)len, (uint8_t)rnd(256)};
    for(unsigned i = 1; i < len; ++i) o.push_back(rnd(256));
    return o;
}
void run()
{
    while(time_left())
    {
        watchdog(20); ++g_cases;
        std::unique_ptr<Sink> s(new Sink); std::unique_ptr<MbapParser> p(new MbapParser(s.get())); Ref r;
        std::ostringstream h; bytes stream;
        for(unsigned k = 1 + rnd(8); k > 0; --k) { auto f = frame(); stream.insert(stream.end(), f.begin(), f.end()); }
        if(rnd(10) == 0) for(auto& b : stream) b = rnd(256);
        if(coin()) stream.resize(rnd(stream.size() + 1));
        unsigned mode = rnd(5);
        size_t i = 0, pieces = 0;
        while(i < stream.size())
        {
            size_t k = mode == 0 ? 1 : mode == 1 ? 1 + rnd(9) : mode == 2 ? 1 + rnd(600) : mode == 3 ? stream.size() - i : (i % 11 ? 7 : 4);
            k = std::min(k, stream.size() - i);
            if(pieces++ < 60) h << " " << hex(bytes(stream.begin() + i, stream.begin() + i + k)) << (k > 300 ? "...(" + std::to_string(k) + ")" : "");
            g_case = "stream cut as:" + h.str();
            std::unique_ptr<uint8_t[]> piece(new uint8_t[k]); memcpy(piece.get(), stream.data() + i, k);
            p->parse(ser4cpp::rseq_t(piece.get(), k));
            piece.reset();
            for(size_t j = 0; j < k; ++j) r.byte(stream[i + j]);
            i += k;
            if(s->got != r.got)
            {
                std::ostringstream o; size_t d = 0; while(d < s->got.size() && d < r.got.size() && s->got[d] == r.got[d]) ++d;
                o << "message " << d + 1 << ": expected " << (d < r.got.size() ? r.got[d] : "none") << ", got " << (d < s->got.size() ? s->got[d] : "none");
                fail(o.str()); break;
            }
            if(rnd(25) == 0) { p->reset(); r.f.clear(); h << " (reset)"; }
            if(rnd(30) == 0) { p->parse(ser4cpp::rseq_t(nullptr, 0)); h << " (nothing)"; }
        }
    }
}
