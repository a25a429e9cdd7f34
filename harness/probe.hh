// Common parts of the probes: bounded checks of a property against an oracle written from its
// statement.  A probe prints FAIL lines with the input that fails and CASES/DISTINCT/SAMPLE lines.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <utility>
#include <cmath>
#include <limits>

typedef std::string S;

static uint64_t g_rng = 88172645463325252ull;
static inline uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static inline uint64_t rnd( uint64_t n ) { return n ? (rnd() >> 11) % n : 0; }
static inline bool coin( unsigned n = 2 ) { return rnd(n) == 0; }

static long g_cases = 0, g_fails = 0;
static std::set<uint64_t> g_seen;
static std::vector<S> g_samples;
static int g_tier = 0;       // 0 quick, 1 thorough/deep

static S show( const S &s, size_t max = 400 )
{
    static const char *H = "0123456789abcdef";
    S r;
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        unsigned char c = (unsigned char) s[i];
        if (c == '\\') r += "\\\\";
        else if (c >= 32 && c < 127) r += (char) c;
        else { r += "\\x"; r += H[c >> 4]; r += H[c & 15]; }
    }
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}
static void note( const S &key )
{
    ++g_cases;
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : key) { h ^= c; h *= 1099511628211ull; }
    if (g_seen.size() < 3000000) g_seen.insert(h);
    if (g_samples.size() < 5 && (g_cases % 97 == 1)) g_samples.push_back(key.substr(0, 160));
}
static void fail( const S &what )
{
    if (g_fails < 20) { printf("FAIL %s\n", what.c_str()); fflush(stdout); }
    ++g_fails;
}
static void begin( int argc, char **argv )
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    g_tier = argc > 2 ? atoi(argv[2]) : 0;
    g_rng ^= (seed + 1) * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 16; ++i) rnd();
    setvbuf(stdout, nullptr, _IOLBF, 4096);
}
static int finish()
{
    printf("CASES %ld\nDISTINCT %zu\n", g_cases, g_seen.size());
    for (auto &s : g_samples) printf("SAMPLE %s\n", show(s, 200).c_str());
    return g_fails ? 1 : 0;
}
static inline long budget( long quick, long deep ) { return g_tier ? deep : quick; }

// ------------------------------------------------------------------ UTF-8
static void put_utf8( S &o, uint32_t c )
{
    if (c < 0x80) o += (char) c;
    else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
}
static bool valid_utf8( const S &s )
{
    size_t i = 0, n = s.size();
    auto u = [&]( size_t k ) { return k < n ? (unsigned) (unsigned char) s[k] : 0u; };
    auto t = []( unsigned c ) { return c >= 0x80 && c <= 0xBF; };
    while (i < n)
    {
        unsigned a = u(i), b = u(i + 1);
        if (a < 0x80) i += 1;
        else if (a >= 0xC2 && a <= 0xDF && t(b)) i += 2;
        else if (a == 0xE0 && b >= 0xA0 && b <= 0xBF && t(u(i + 2))) i += 3;
        else if (((a >= 0xE1 && a <= 0xEC) || a == 0xEE || a == 0xEF) && t(b) && t(u(i + 2))) i += 3;
        else if (a == 0xED && b >= 0x80 && b <= 0x9F && t(u(i + 2))) i += 3;
        else if (a == 0xF0 && b >= 0x90 && b <= 0xBF && t(u(i + 2)) && t(u(i + 3))) i += 4;
        else if (a >= 0xF1 && a <= 0xF3 && t(b) && t(u(i + 2)) && t(u(i + 3))) i += 4;
        else if (a == 0xF4 && b >= 0x80 && b <= 0x8F && t(u(i + 2)) && t(u(i + 3))) i += 4;
        else return false;
    }
    return true;
}

// ------------------------------------------------------------------ a strict JSON reader (RFC 8259)
struct JV
{
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
    bool b = false;
    S s;                       // number text or decoded string
    std::vector<JV> a;
    std::vector<std::pair<S, JV>> o;
    const JV *get( const S &n ) const { const JV *r = nullptr; for (auto &e : o) if (e.first == n) r = &e.second; return r; }
};
struct JR
{
    const S &t;
    size_t p = 0;
    bool ok = true;
    explicit JR( const S &t ) : t(t) {}
    int c() const { return p < t.size() ? (unsigned char) t[p] : -1; }
    void ws() { while (c() == ' ' || c() == '\t' || c() == '\n' || c() == '\r') ++p; }
    bool eat( char ch ) { if (c() == (unsigned char) ch) { ++p; return true; } return false; }
    bool lit( const char *w ) { size_t n = strlen(w); if (t.compare(p, n, w) == 0) { p += n; return true; } return false; }
    bool hex4( uint32_t &v )
    {
        v = 0;
        for (int i = 0; i < 4; ++i)
        {
            int h = c();
            if (h >= '0' && h <= '9') h -= '0'; else if (h >= 'a' && h <= 'f') h -= 'a' - 10; else if (h >= 'A' && h <= 'F') h -= 'A' - 10; else return false;
            v = v * 16 + (uint32_t) h;
            ++p;
        }
        return true;
    }
    bool str( S &o )
    {
        o.clear();
        if (!eat('"')) return false;
        while (true)
        {
            int ch = c();
            if (ch < 0x20) return false;
            ++p;
            if (ch == '"') return true;
            if (ch != '\\') { o += (char) ch; continue; }
            ch = c();
            ++p;
            switch (ch)
            {
                case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
                case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u':
                {
                    uint32_t v, w;
                    if (!hex4(v)) return false;
                    if (v >= 0xDC00 && v <= 0xDFFF) return false;
                    if (v >= 0xD800 && v <= 0xDBFF)
                    {
                        if (!eat('\\') || !eat('u') || !hex4(w) || w < 0xDC00 || w > 0xDFFF) return false;
                        v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                    }
                    put_utf8(o, v);
                    break;
                }
                default: return false;
            }
        }
    }
    bool num( S &o )
    {
        size_t b = p;
        eat('-');
        if (c() == '0') ++p; else if (c() >= '1' && c() <= '9') { while (c() >= '0' && c() <= '9') ++p; } else return false;
        if (eat('.')) { if (!(c() >= '0' && c() <= '9')) return false; while (c() >= '0' && c() <= '9') ++p; }
        if (c() == 'e' || c() == 'E') { ++p; if (c() == '+' || c() == '-') ++p; if (!(c() >= '0' && c() <= '9')) return false; while (c() >= '0' && c() <= '9') ++p; }
        o = t.substr(b, p - b);
        return true;
    }
    bool val( JV &v )
    {
        ws();
        int ch = c();
        if (ch == '"') { v.k = JV::STR; if (!str(v.s)) return false; }
        else if (ch == '{')
        {
            v.k = JV::OBJ; ++p; ws();
            if (!eat('}')) while (true)
            {
                ws(); S n; if (!str(n)) return false;
                ws(); if (!eat(':')) return false;
                v.o.emplace_back(n, JV());
                if (!val(v.o.back().second)) return false;
                if (eat(',')) continue;
                if (eat('}')) break;
                return false;
            }
        }
        else if (ch == '[')
        {
            v.k = JV::ARR; ++p; ws();
            if (!eat(']')) while (true)
            {
                v.a.emplace_back();
                if (!val(v.a.back())) return false;
                if (eat(',')) continue;
                if (eat(']')) break;
                return false;
            }
        }
        else if (ch == 't') { v.k = JV::BOOL; v.b = true; if (!lit("true")) return false; }
        else if (ch == 'f') { v.k = JV::BOOL; v.b = false; if (!lit("false")) return false; }
        else if (ch == 'n') { v.k = JV::NUL; if (!lit("null")) return false; }
        else { v.k = JV::NUM; if (!num(v.s)) return false; }
        ws();
        return true;
    }
};
static bool json_parse( const S &t, JV &v ) { JR r(t); return r.val(v) && r.p == t.size(); }

// a JSON literal for a value, choosing among the legal spellings
static S json_lit( const S &v, bool vary = false )
{
    S o = "\"";
    char b[16];
    for (size_t i = 0; i < v.size(); ++i)
    {
        unsigned char c = (unsigned char) v[i];
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
        else if (c < 0x20 || (vary && c < 0x80 && coin(5))) { snprintf(b, sizeof b, coin() ? "\\u%04x" : "\\u%04X", c); o += b; }
        else if (vary && c == '/' && coin()) o += "\\/";
        else o += (char) c;
    }
    return o + "\"";
}

// ------------------------------------------------------------------ random values
static S rnd_utf8( size_t maxlen )
{
    static const uint32_t E[] = {0, 1, 8, 9, 10, 12, 13, 0x1F, 0x20, '"', '/', '\\', '$', '{', '}', '[', ']', ',', ':', 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600};
    S o;
    size_t n = rnd(maxlen + 1);
    for (size_t i = 0; i < n; ++i)
    {
        uint32_t c;
        switch (rnd(6))
        {
            case 0: c = E[rnd(sizeof(E) / sizeof(*E))]; break;
            case 1: c = (uint32_t) rnd(0x110000); break;
            case 2: c = (uint32_t) rnd(0x800); break;
            default: c = (uint32_t) (32 + rnd(95));
        }
        if (c >= 0xD800 && c <= 0xDFFF) c = 0xE000;
        put_utf8(o, c);
    }
    return o;
}
static S rnd_bytes( size_t maxlen )
{
    S o;
    size_t n = rnd(maxlen + 1);
    for (size_t i = 0; i < n; ++i) o += (char) (coin(3) ? rnd(256) : 32 + rnd(95));
    return o;
}
static S rnd_plain( size_t maxlen )
{
    S o;
    size_t n = rnd(maxlen + 1);
    for (size_t i = 0; i < n; ++i) o += (char) ('a' + rnd(26));
    return o;
}
