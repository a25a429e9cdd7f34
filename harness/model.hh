// Random objects together with the JSON value they stand for, built independently of the code under test.
#pragma once
#include "rt.hh"

static JV jnum( const S &t ) { JV v; v.k = JV::NUM; v.s = t; return v; }
static JV jstr( const S &t ) { JV v; v.k = JV::STR; v.s = t; return v; }
static JV jbool( bool b ) { JV v; v.k = JV::BOOL; v.b = b; return v; }
static JV jnull() { return JV(); }
static JV jobj() { JV v; v.k = JV::OBJ; return v; }
static JV jarr() { JV v; v.k = JV::ARR; return v; }
static bool num_eq( const S &a, const S &b )
{
    if (a == b) return true;
    if (a.find_first_of(".eE") == S::npos && b.find_first_of(".eE") == S::npos) return false;
    return strtod(a.c_str(), nullptr) == strtod(b.c_str(), nullptr);
}
// equality of JSON values; members compared as a set, none may occur twice
static bool jeq( const JV &a, const JV &b )
{
    if (a.k != b.k) return false;
    switch (a.k)
    {
        case JV::NUL: return true;
        case JV::BOOL: return a.b == b.b;
        case JV::NUM: return num_eq(a.s, b.s);
        case JV::STR: return a.s == b.s;
        case JV::ARR: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!jeq(a.a[i], b.a[i])) return false; return true;
        case JV::OBJ:
            if (a.o.size() != b.o.size()) return false;
            for (auto &e : a.o) { int n = 0; for (auto &f : b.o) if (f.first == e.first) { ++n; if (!jeq(e.second, f.second)) return false; } if (n != 1) return false; }
            for (auto &e : b.o) { int n = 0; for (auto &f : a.o) if (f.first == e.first) ++n; for (auto &f : b.o) if (f.first == e.first) --n; if (n != 0) return false; }
            return true;
    }
    return false;
}
static S ws() { static const char *W[] = {"", "", "", "", " ", "\n", "\t", "\r\n", "  \n "}; return W[rnd(9)]; }
static S jtext( const JV &v, bool space = false, bool vary = false )
{
    auto w = [&]() { return space ? ws() : S(); };
    switch (v.k)
    {
        case JV::NUL: return "null";
        case JV::BOOL: return v.b ? "true" : "false";
        case JV::NUM: return v.s;
        case JV::STR: return json_lit(v.s, vary);
        case JV::ARR: { S o = "["; for (size_t i = 0; i < v.a.size(); ++i) o += (i ? "," : "") + w() + jtext(v.a[i], space, vary) + w(); return o + w() + "]"; }
        case JV::OBJ: { S o = "{"; for (size_t i = 0; i < v.o.size(); ++i) o += (i ? "," : "") + w() + json_lit(v.o[i].first, vary) + w() + ":" + w() + jtext(v.o[i].second, space, vary) + w(); return o + w() + "}"; }
    }
    return "";
}
static S b64( const S &v )
{
    static const char *AB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    S o;
    for (size_t i = 0; i < v.size(); i += 3)
    {
        auto u = [&]( size_t k ) { return k < v.size() ? (uint32_t) (uint8_t) v[k] : 0u; };
        uint32_t x = u(i) << 16 | u(i + 1) << 8 | u(i + 2);
        o += AB[x >> 18]; o += AB[x >> 12 & 63]; o += i + 1 < v.size() ? AB[x >> 6 & 63] : '='; o += i + 2 < v.size() ? AB[x & 63] : '=';
    }
    return o;
}

// how likely a field is set, in 1/8
struct Gen { int p = 4; bool nulls = false; bool utf8 = true; int depth = 0;
    bool hit() { return (int) rnd(8) < p; }
    S text() { if (coin(4)) return ""; return utf8 ? rnd_utf8(6) : rnd_bytes(8); }
    int64_t i64() { switch (rnd(4)) { case 0: return 0; case 1: return (int64_t) rnd(); case 2: return (int64_t) (rnd() >> rnd(64)); default: return (int64_t) rnd(200) - 100; } }
    double real() { switch (rnd(3)) { case 0: return 0; case 1: return (double) i64() / 8; default: return (double) (int64_t) rnd() / 3e7; } }
    template<class T, class F> void sc( JV &j, const char *n, F &f, T v, const JV &jv ) { if (hit()) { f = v; j.o.emplace_back(n, jv); } else if (nulls) j.o.emplace_back(n, jnull()); }
    template<class T> static S dec( T v ) { return std::to_string(v); }
    static S dbl( double v, int d ) { char b[64]; snprintf(b, sizeof b, "%.*g", d, v); return b; }
};
static JV fill( vf::Inner &m, Gen &g )
{
    JV j = jobj(); S t;
    t = g.text(); g.sc(j, "s", m.s, t, jstr(t));
    int32_t n = (int32_t) g.i64();
    g.sc(j, "n", m.n, n, jnum(g.dec(n)));
    return j;
}
static JV fill( vf::Pair &m, Gen &g )
{
    JV j = jobj(); S t;
    t = g.text(); g.sc(j, "x", m.x, t, jstr(t));
    int32_t n = (int32_t) g.i64();
    g.sc(j, "y", m.y, n, jnum(g.dec(n)));
    return j;
}
static JV fill( vf::Scalars &m, Gen &g )
{
    JV j = jobj(); S t;
    double d = g.real(); g.sc(j, "f_double", m.f_double, d, jnum(g.dbl(d, 17)));
    float f = (float) g.real(); g.sc(j, "f_float", m.f_float, f, jnum(g.dbl(f, 9)));
#define I(N, T) { T v = (T) g.i64(); g.sc(j, #N, m.N, v, jnum(g.dec(v))); }
    I(f_int32, int32_t) I(f_int64, int64_t) I(f_uint32, uint32_t) I(f_uint64, uint64_t) I(f_sint32, int32_t) I(f_sint64, int64_t)
    I(f_fixed32, uint32_t) I(f_fixed64, uint64_t) I(f_sfixed32, int32_t) I(f_sfixed64, int64_t)
#undef I
    bool b = coin(); g.sc(j, "f_bool", m.f_bool, b, jbool(b));
    t = g.text(); g.sc(j, "f_string", m.f_string, t, jstr(t));
    if (g.hit()) { S y = rnd_bytes(7); m.f_bytes.assign(y.begin(), y.end()); if (!y.empty()) j.o.emplace_back("f_bytes", jstr(b64(y))); else if (g.nulls) j.o.emplace_back("f_bytes", jstr("")); }
    else if (g.nulls) j.o.emplace_back("f_bytes", jstr(""));
    int p = g.p; if (!g.hit()) g.p = 0;
    JV in = fill(m.f_msg, g);
    g.p = p;
    if (!m.f_msg.empty() || g.nulls) j.o.emplace_back("f_msg", in);
    return j;
}
static JV fill( vf::Lists &m, Gen &g )
{
    JV j = jobj();
    auto add = [&]( const char *n, const JV &a ) { if (!a.a.empty() || g.nulls) j.o.emplace_back(n, a); };
    auto len = [&]() { return g.hit() ? rnd(5) : 0; };
    { JV a = jarr(); for (size_t n = len(); n; --n) { int32_t v = (int32_t) g.i64(); m.ints.push_back(v); a.a.push_back(jnum(g.dec(v))); } add("ints", a); }
    { JV a = jarr(); for (size_t n = len(); n; --n) { S v = g.text(); m.strs.push_back(v); a.a.push_back(jstr(v)); } add("strs", a); }
    { JV a = jarr(); for (size_t n = len(); n; --n) { bool v = coin(); m.bools.push_back(v); a.a.push_back(jbool(v)); } add("bools", a); }
    { JV a = jarr(); for (size_t n = len(); n; --n) { double v = g.real(); m.reals.push_back(v); a.a.push_back(jnum(g.dbl(v, 17))); } add("reals", a); }
    { JV a = jarr(); for (size_t n = len(); n; --n) { S v = rnd_bytes(5); m.blobs.push_back(std::vector<uint8_t>(v.begin(), v.end())); a.a.push_back(jstr(b64(v))); } add("blobs", a); }
    { JV a = jarr(); for (size_t n = len(); n; --n) { m.msgs.emplace_back(); a.a.push_back(fill(m.msgs.back(), g)); } add("msgs", a); }
    { JV a = jarr(); for (size_t n = len(); n; --n) { uint64_t v = (uint64_t) g.i64(); m.longs.push_back(v); a.a.push_back(jnum(g.dec(v))); } add("longs", a); }
    return j;
}
static JV fill( vf::Mixed &m, Gen &g )
{
    JV j = jobj(); S t;
    t = g.text(); g.sc(j, "alpha", m.a, t, jstr(t));
    if (g.hit()) m.hidden = (int32_t) g.i64();
    if (g.hit()) m.secret = g.text();
    int p = g.p;
    auto sub = [&]( const char *n, bool set, const JV &v ) { if (set || g.nulls) j.o.emplace_back(n, v); };
    if (!g.hit()) g.p = 0;
    JV a = fill(m.in, g); sub("in", !m.in.empty(), a); g.p = p;
    JV k = jarr(); if (g.hit()) for (size_t n = rnd(4); n; --n) { m.kids.emplace_back(); k.a.push_back(fill(m.kids.back(), g)); }
    sub("Kids-2", !m.kids.empty(), k);
    if (!g.hit()) g.p = 0;
    JV l = fill(m.lists, g); sub("lists", !m.lists.empty(), l); g.p = p;
    if (!g.hit()) g.p = 0;
    JV s = fill(m.scalars, g); sub("scalars", !m.scalars.empty(), s); g.p = p;
    return j;
}
// the state of an object, for comparison without the code under test
template<class T> static S st( const pg::field<T> &f ) { return f.empty() ? S("-") : "=" + Gen::dbl((double) (T) f, 17) + (sizeof(T) == 8 && !std::is_floating_point<T>::value ? std::to_string((T) f) : S()); }
static S st( const pg::string_field &f ) { return f.empty() ? S("-") : "='" + *f + "'"; }
static S st( const std::vector<uint8_t> &v ) { return "b'" + S(v.begin(), v.end()) + "'"; }
static S st( const vf::Inner_type &m ) { return "{" + st(m.s) + "," + st(m.n) + "}"; }
static S st( const vf::Pair_type &m ) { return "{" + st(m.x) + "," + st(m.y) + "}"; }
static S st( const vf::Scalars_type &m )
{
    return "{" + st(m.f_double) + "," + st(m.f_float) + "," + st(m.f_int32) + "," + st(m.f_int64) + "," + st(m.f_uint32) + "," + st(m.f_uint64) + "," + st(m.f_sint32) + "," + st(m.f_sint64) + "," +
        st(m.f_fixed32) + "," + st(m.f_fixed64) + "," + st(m.f_sfixed32) + "," + st(m.f_sfixed64) + "," + st(m.f_bool) + "," + st(m.f_string) + "," + st(m.f_bytes) + "," + st(m.f_msg) + "}";
}
static S st( const vf::Lists_type &m )
{
    S o = "{";
    for (auto &e : m.ints) o += std::to_string(e) + ","; o += ";";
    for (auto &e : m.strs) o += st(e) + ","; o += ";";
    for (bool e : m.bools) o += e ? "t," : "f,"; o += ";";
    for (auto &e : m.reals) o += Gen::dbl(e, 17) + ","; o += ";";
    for (auto &e : m.blobs) o += st(e) + ","; o += ";";
    for (auto &e : m.msgs) o += st(e) + ","; o += ";";
    for (auto &e : m.longs) o += std::to_string(e) + ",";
    return o + "}";
}
static S st( const vf::Mixed_type &m, bool transient = true )
{
    S o = "{" + st(m.a) + ",";
    if (transient) o += st(m.hidden) + "," + st(m.secret) + ",";
    o += st(m.in) + ",[";
    for (auto &e : m.kids) o += st(e) + ",";
    return o + "]," + st(m.lists) + "," + st(m.scalars) + "}";
}
