// P05: bytes fields and standard base64 (RFC 4648).
#include "rt.hh"

typedef std::vector<uint8_t> B;
static const char *AB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S enc( const B &v )
{
    S o;
    for (size_t i = 0; i < v.size(); i += 3)
    {
        uint32_t x = v[i] << 16 | (i + 1 < v.size() ? v[i + 1] << 8 : 0) | (i + 2 < v.size() ? v[i + 2] : 0);
        o += AB[x >> 18]; o += AB[x >> 12 & 63];
        o += i + 1 < v.size() ? AB[x >> 6 & 63] : '=';
        o += i + 2 < v.size() ? AB[x & 63] : '=';
    }
    return o;
}
static S hex( const B &v ) { return show(S(v.begin(), v.end())); }
static void good( const B &v, bool lists )
{
    note(S(v.begin(), v.end()));
    vf::Scalars m, r;
    m.f_bytes = v;
    S doc;
    if (!m.serialize(doc)) { fail("bytes not written: " + hex(v)); return; }
    S want = v.empty() ? S("{}") : "{\"f_bytes\":\"" + enc(v) + "\"}";
    if (doc != want) fail("bytes " + hex(v) + " written as " + show(doc));
    if (!r.deserialize(want) || r.f_bytes != v) fail("base64 " + show(want) + " read as " + hex(r.f_bytes));
    if (lists)
    {
        vf::Lists a, b;
        a.blobs.push_back(v); a.blobs.push_back(B{1, 2}); a.blobs.push_back(v);
        S d;
        if (!a.serialize(d) || d != "{\"blobs\":[\"" + enc(v) + "\",\"AQI=\",\"" + enc(v) + "\"]}") fail("list of bytes written as " + show(d));
        if (!b.deserialize(d) || b.blobs != a.blobs) fail("list of bytes not read back: " + show(d));
    }
}
static bool well( const S &t )
{
    if (t.size() % 4) return false;
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (t[i] == '=') { if (!(i + 1 == t.size() || (i + 2 == t.size() && t[i + 1] == '='))) return false; }
        else if (!t[i] || !strchr(AB, t[i])) return false;
    }
    return true;
}
static void text( const S &t )
{
    note(t);
    pg::Parameters p;
    vf::Scalars m;
    S doc = "{\"f_bytes\":" + json_lit(t) + ",\"f_int32\":5}";
    bool ok = m.deserialize(doc, &p), w = well(t);
    if (ok != w) { fail((ok ? "malformed base64 accepted: " : "base64 refused: ") + show(doc)); return; }
    if (ok != (p.error.code == pg::PGERR_OK)) fail("error code " + std::to_string(p.error.code) + " for " + show(doc));
    if (ok)
    {
        B v;
        for (size_t i = 0; i < t.size(); i += 4)
        {
            uint32_t x = 0; int n = 3;
            for (int j = 0; j < 4; ++j) { if (t[i + j] == '=') --n; x = x << 6 | (t[i + j] == '=' ? 0 : (uint32_t) (strchr(AB, t[i + j]) - AB)); }
            for (int j = 0; j < n; ++j) v.push_back((uint8_t) (x >> (16 - 8 * j)));
        }
        if (m.f_bytes != v) fail("base64 " + show(t) + " read as " + hex(m.f_bytes) + " instead of " + hex(v));
        if (m.f_int32.empty() || (int32_t) m.f_int32 != 5) fail("the member after " + show(t) + " was lost");
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    good(B(), true);
    for (int a = 0; a < 256; ++a) { good(B{(uint8_t) a}, true); for (int b = 0; b < 256; ++b) good(B{(uint8_t) a, (uint8_t) b}, b % 16 == a % 16); }
    for (int k = 0; k < 3; ++k) for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += 5) { B v{0x5A, 0xA5, 0x3C}; v[k] = (uint8_t) a; v[(k + 1) % 3] = (uint8_t) b; good(v, false); }
    for (int n = 0; n < 300; ++n) { B v; for (int i = 0; i < n; ++i) v.push_back((uint8_t) rnd(256)); good(v, true); }
    for (long i = 0; i < budget(5000, 100000); ++i) { B v; for (size_t n = rnd(40); n; --n) v.push_back(coin(3) ? (coin() ? 255 : 0) : (uint8_t) rnd(256)); good(v, coin(4)); }
    // every character at every place of one and two groups
    for (int len : {4, 8}) for (int k = 0; k < len; ++k) for (int c = 0; c < 256; ++c) { S t(len, 'Q'); t[k] = (char) c; text(t); }
    // every padding pattern
    for (int len = 0; len <= 9; ++len) for (int m = 0; m < 1 << len; ++m) { S t(len, 'B'); for (int i = 0; i < len; ++i) if (m >> i & 1) t[i] = '='; text(t); }
    for (long i = 0; i < budget(20000, 400000); ++i)
    {
        S t;
        for (size_t n = rnd(5) * 4; n; --n) t += AB[rnd(64)];
        switch (rnd(6))
        {
            case 0: break;
            case 1: if (t.size() > 1) { t[t.size() - 1] = '='; if (coin()) t[t.size() - 2] = '='; } break;
            case 2: if (!t.empty()) t[rnd(t.size())] = '='; break;
            case 3: t.resize(rnd(t.size() + 1)); break;
            case 4: { static const char X[] = "-_. \t!@[`{:\x7f\xc0\xff"; t.insert(rnd(t.size() + 1), 1, X[rnd(sizeof(X) - 1)]); break; }
            case 5: t += S(rnd(5), '='); break;
        }
        text(t);
    }
    return finish();
}
