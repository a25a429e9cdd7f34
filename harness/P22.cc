// P22: clear, empty, equality and swap cover every field.
#include "model.hh"
#include "num.pg.hh"
#include "obf.pg.hh"
#include "wide.pg.hh"

static S st( const vf::Ghost_type &m ) { return "{" + st(m.only) + "}"; }
static S st( const vf::Void_type & ) { return "{}"; }
static S st( const vfobf::Inner_type &m ) { return "{" + st(m.s) + "," + st(m.n) + "}"; }
static S st( const vfobf::Mixed_type &m )
{
    S o = "{" + st(m.a) + st(m.ab) + st(m.abc) + st(m.abcd) + st(m.five5) + st(m.sixsix) + "[";
    for (auto &e : m.seven77) o += std::to_string(e) + ",";
    return o + "]" + st(m.eight888) + st(m.nine99999) + st(m.hidden) + "}";
}
static S st( const vfnum::Inner_type &m ) { return "{" + st(m.s) + "," + st(m.n) + "}"; }
static S st( const vfnum::Mixed_type &m )
{
    S o = "{" + st(m.a) + st(m.hidden) + "[";
    for (auto &e : m.kids) o += st(e) + ","; o += "][";
    for (auto &e : m.names) o += st(e) + ","; o += "][";
    for (auto &e : m.blobs) o += st(e) + ",";
    return o + "]}";
}
static S st( const vfwide::Part_type &m ) { return "{" + st(m.n) + "}"; }
static S st( const vfwide::Wide_type &m )
{
    S o = "{";
    o += st(m.w1);    o += st(m.w2);    o += st(m.w3);    o += st(m.w4);    o += st(m.w5);    o += st(m.w6);    o += st(m.w7);    o += st(m.w8);    o += st(m.w9);    o += st(m.w10);    o += st(m.w11);    o += st(m.w12);    o += st(m.w13);    o += st(m.w14);    o += st(m.w15);    o += st(m.w16);    o += st(m.w17);    o += st(m.w18);    o += st(m.w19);    o += st(m.w20);    o += st(m.w21);    o += st(m.w22);    o += st(m.w23);    o += st(m.w24);    o += st(m.w25);    o += st(m.w26);    o += st(m.w27);    o += st(m.w28);    o += st(m.w29);    o += st(m.w30);    o += st(m.w31);    o += st(m.w32);    o += st(m.w33);    o += st(m.w34);    o += st(m.w35);    o += st(m.w36);    o += st(m.w37);    o += st(m.w38);    o += st(m.w39);    o += st(m.w40);    o += st(m.w41);    o += st(m.w42);    o += st(m.w43);    o += st(m.w44);    o += st(m.w45);    o += st(m.w46);    o += st(m.w47);    o += st(m.w48);    o += st(m.w49);    o += st(m.w50);    o += st(m.w51);    o += st(m.w52);    o += st(m.w53);    o += st(m.w54);
    o += "["; for (auto &e : m.t_ints) o += std::to_string(e) + ",";
    o += "]["; for (auto &e : m.t_strs) o += st(e) + ",";
    o += "]" + st(m.t_bytes) + st(m.t_part) + "["; for (auto &e : m.t_parts) o += st(e) + ",";
    o += "]" + st(m.t_str) + st(m.t_bool) + "["; for (auto &e : m.parts) o += st(e) + ",";
    return o + "]" + st(m.o_str) + st(m.o_long) + "}";
}
static S word() { static int k = 0; return "w" + std::to_string(++k) + rnd_plain(3); }
template<class M> using Mut = std::vector<std::pair<const char*, std::function<void( M& )>>>;
static int g_k = 1;
template<class T> T num() { return (T) ++g_k; }
static Mut<vf::Inner> muts( vf::Inner* ) { return {{"s", []( vf::Inner &m ) { m.s = word(); }}, {"n", []( vf::Inner &m ) { m.n = num<int32_t>(); }}}; }
static Mut<vf::Pair> muts( vf::Pair* ) { return {{"x", []( vf::Pair &m ) { m.x = word(); }}, {"y", []( vf::Pair &m ) { m.y = num<int32_t>(); }}}; }
#define N(F, T) {#F, []( vf::Scalars &m ) { m.F = num<T>(); }}
static Mut<vf::Scalars> muts( vf::Scalars* )
{
    return {N(f_double, double), N(f_float, float), N(f_int32, int32_t), N(f_int64, int64_t), N(f_uint32, uint32_t), N(f_uint64, uint64_t), N(f_sint32, int32_t), N(f_sint64, int64_t), N(f_fixed32, uint32_t),
        N(f_fixed64, uint64_t), N(f_sfixed32, int32_t), N(f_sfixed64, int64_t), {"f_bool", []( vf::Scalars &m ) { if (m.f_bool.empty()) m.f_bool = coin(); else m.f_bool = !(bool) m.f_bool; }}, {"f_string", []( vf::Scalars &m ) { m.f_string = word(); }},
        {"f_bytes", []( vf::Scalars &m ) { m.f_bytes.push_back((uint8_t) rnd(256)); }}, {"f_msg.s", []( vf::Scalars &m ) { m.f_msg.s = word(); }}, {"f_msg.n", []( vf::Scalars &m ) { m.f_msg.n = num<int32_t>(); }}};
}
#undef N
static Mut<vf::Lists> muts( vf::Lists* )
{
    return {{"ints", []( vf::Lists &m ) { m.ints.push_back((int) rnd(3)); }}, {"strs", []( vf::Lists &m ) { m.strs.emplace_back(); }}, {"strs value", []( vf::Lists &m ) { m.strs.push_back(word()); }}, {"bools", []( vf::Lists &m ) { m.bools.push_back(coin()); }},
        {"reals", []( vf::Lists &m ) { m.reals.push_back(rnd(2)); }}, {"blobs", []( vf::Lists &m ) { m.blobs.emplace_back(); }}, {"msgs", []( vf::Lists &m ) { m.msgs.emplace_back(); }}, {"longs", []( vf::Lists &m ) { m.longs.push_back(0); }}};
}
static Mut<vf::Mixed> muts( vf::Mixed* )
{
    return {{"a", []( vf::Mixed &m ) { m.a = word(); }}, {"hidden", []( vf::Mixed &m ) { m.hidden = num<int32_t>(); }}, {"secret", []( vf::Mixed &m ) { m.secret = word(); }}, {"in.s", []( vf::Mixed &m ) { m.in.s = word(); }}, {"in.n", []( vf::Mixed &m ) { m.in.n = num<int32_t>(); }},
        {"kids", []( vf::Mixed &m ) { m.kids.emplace_back(); }}, {"lists.ints", []( vf::Mixed &m ) { m.lists.ints.push_back(0); }}, {"lists.msgs", []( vf::Mixed &m ) { m.lists.msgs.emplace_back(); m.lists.msgs.back().n = num<int32_t>(); }}, {"scalars.f_bool", []( vf::Mixed &m ) { m.scalars.f_bool = m.scalars.f_bool.empty() || !(bool) m.scalars.f_bool; }},
        {"scalars.f_msg", []( vf::Mixed &m ) { m.scalars.f_msg.n = num<int32_t>(); }}};
}
static Mut<vf::Ghost> muts( vf::Ghost* ) { return {{"only", []( vf::Ghost &m ) { m.only = num<int32_t>(); }}}; }
static Mut<vf::Void> muts( vf::Void* ) { return {}; }
static Mut<vfobf::Mixed> muts( vfobf::Mixed* )
{
    typedef vfobf::Mixed M;
    return {{"a", []( M &m ) { m.a = word(); }}, {"ab", []( M &m ) { m.ab = num<int32_t>(); }}, {"abc", []( M &m ) { m.abc = word(); }}, {"abcd", []( M &m ) { m.abcd = m.abcd.empty() || !(bool) m.abcd; }}, {"five5", []( M &m ) { m.five5 = num<int64_t>(); }},
        {"sixsix", []( M &m ) { m.sixsix.n = num<int32_t>(); }}, {"seven77", []( M &m ) { m.seven77.push_back(0); }}, {"eight888", []( M &m ) { m.eight888.push_back(0); }}, {"nine99999", []( M &m ) { m.nine99999 = word(); }}, {"hidden", []( M &m ) { m.hidden = num<int32_t>(); }}};
}
static Mut<vfnum::Mixed> muts( vfnum::Mixed* )
{
    typedef vfnum::Mixed M;
    return {{"a", []( M &m ) { m.a = word(); }}, {"hidden", []( M &m ) { m.hidden = num<int32_t>(); }}, {"kids", []( M &m ) { m.kids.emplace_back(); }}, {"names", []( M &m ) { m.names.push_back(word()); }}, {"blobs", []( M &m ) { m.blobs.emplace_back(); }}};
}
static Mut<vfwide::Wide> muts( vfwide::Wide* )
{
    typedef vfwide::Wide M;
    return {
        {"w1", []( M &m ) { m.w1 = num<int32_t>(); }},
        {"w2", []( M &m ) { m.w2 = num<int32_t>(); }},
        {"w3", []( M &m ) { m.w3 = num<int32_t>(); }},
        {"w4", []( M &m ) { m.w4 = num<int32_t>(); }},
        {"w5", []( M &m ) { m.w5 = num<int32_t>(); }},
        {"w6", []( M &m ) { m.w6 = num<int32_t>(); }},
        {"w7", []( M &m ) { m.w7 = num<int32_t>(); }},
        {"w8", []( M &m ) { m.w8 = num<int32_t>(); }},
        {"w9", []( M &m ) { m.w9 = num<int32_t>(); }},
        {"w10", []( M &m ) { m.w10 = num<int32_t>(); }},
        {"w11", []( M &m ) { m.w11 = num<int32_t>(); }},
        {"w12", []( M &m ) { m.w12 = num<int32_t>(); }},
        {"w13", []( M &m ) { m.w13 = num<int32_t>(); }},
        {"w14", []( M &m ) { m.w14 = num<int32_t>(); }},
        {"w15", []( M &m ) { m.w15 = num<int32_t>(); }},
        {"w16", []( M &m ) { m.w16 = num<int32_t>(); }},
        {"w17", []( M &m ) { m.w17 = num<int32_t>(); }},
        {"w18", []( M &m ) { m.w18 = num<int32_t>(); }},
        {"w19", []( M &m ) { m.w19 = num<int32_t>(); }},
        {"w20", []( M &m ) { m.w20 = num<int32_t>(); }},
        {"w21", []( M &m ) { m.w21 = num<int32_t>(); }},
        {"w22", []( M &m ) { m.w22 = num<int32_t>(); }},
        {"w23", []( M &m ) { m.w23 = num<int32_t>(); }},
        {"w24", []( M &m ) { m.w24 = num<int32_t>(); }},
        {"w25", []( M &m ) { m.w25 = num<int32_t>(); }},
        {"w26", []( M &m ) { m.w26 = num<int32_t>(); }},
        {"w27", []( M &m ) { m.w27 = num<int32_t>(); }},
        {"w28", []( M &m ) { m.w28 = num<int32_t>(); }},
        {"w29", []( M &m ) { m.w29 = num<int32_t>(); }},
        {"w30", []( M &m ) { m.w30 = num<int32_t>(); }},
        {"w31", []( M &m ) { m.w31 = num<int32_t>(); }},
        {"w32", []( M &m ) { m.w32 = num<int32_t>(); }},
        {"w33", []( M &m ) { m.w33 = num<int32_t>(); }},
        {"w34", []( M &m ) { m.w34 = num<int32_t>(); }},
        {"w35", []( M &m ) { m.w35 = num<int32_t>(); }},
        {"w36", []( M &m ) { m.w36 = num<int32_t>(); }},
        {"w37", []( M &m ) { m.w37 = num<int32_t>(); }},
        {"w38", []( M &m ) { m.w38 = num<int32_t>(); }},
        {"w39", []( M &m ) { m.w39 = num<int32_t>(); }},
        {"w40", []( M &m ) { m.w40 = num<int32_t>(); }},
        {"w41", []( M &m ) { m.w41 = num<int32_t>(); }},
        {"w42", []( M &m ) { m.w42 = num<int32_t>(); }},
        {"w43", []( M &m ) { m.w43 = num<int32_t>(); }},
        {"w44", []( M &m ) { m.w44 = num<int32_t>(); }},
        {"w45", []( M &m ) { m.w45 = num<int32_t>(); }},
        {"w46", []( M &m ) { m.w46 = num<int32_t>(); }},
        {"w47", []( M &m ) { m.w47 = num<int32_t>(); }},
        {"w48", []( M &m ) { m.w48 = num<int32_t>(); }},
        {"w49", []( M &m ) { m.w49 = num<int32_t>(); }},
        {"w50", []( M &m ) { m.w50 = num<int32_t>(); }},
        {"w51", []( M &m ) { m.w51 = num<int32_t>(); }},
        {"w52", []( M &m ) { m.w52 = num<int32_t>(); }},
        {"w53", []( M &m ) { m.w53 = num<int32_t>(); }},
        {"w54", []( M &m ) { m.w54 = num<int32_t>(); }},
        {"t_ints", []( M &m ) { m.t_ints.push_back(0); }}, {"t_strs", []( M &m ) { m.t_strs.emplace_back(); }}, {"t_bytes", []( M &m ) { m.t_bytes.push_back(0); }},
        {"t_part", []( M &m ) { m.t_part.n = num<int32_t>(); }}, {"t_parts", []( M &m ) { m.t_parts.emplace_back(); }}, {"t_str", []( M &m ) { m.t_str = word(); }},
        {"t_bool", []( M &m ) { if (m.t_bool.empty()) m.t_bool = coin(); else m.t_bool = !(bool) m.t_bool; }}, {"parts", []( M &m ) { m.parts.emplace_back(); }},
        {"o_str", []( M &m ) { m.o_str = word(); }}, {"o_long", []( M &m ) { m.o_long = num<uint64_t>(); }}};
}
template<class M> void all( const char *name, int rounds )
{
    Mut<M> u = muts((M*) nullptr);
    const M fresh;
    S zero = st(fresh);
    auto bad = [&]( const S &w, const M &a, const M &b ) { fail(S(name) + ": " + w + ": " + show(st(a), 700) + " / " + show(st(b), 700)); };
    if (!fresh.empty()) bad("a fresh object is not empty", fresh, fresh);
    if (!(fresh == fresh) || fresh != fresh) bad("a fresh object is not equal to itself", fresh, fresh);
    auto rndobj = [&]( M &m ) { for (size_t n = u.empty() ? 0 : rnd(2 * u.size()); n; --n) u[rnd(u.size())].second(m); };
    auto eq = [&]( const M &a, const M &b )
    {
        bool want = st(a) == st(b);
        if ((a == b) != want || (b == a) != want || (a != b) == want || a.equal(b) != want) bad(want ? "equal objects differ" : "different objects are equal", a, b);
    };
    for (int r = 0; r < rounds; ++r)
    {
        for (size_t i = 0; i < u.size(); ++i)
        {
            // one field alone
            M one; u[i].second(one);
            note(S(name) + "." + u[i].first + st(one));
            if (one.empty()) bad(S("empty although ") + u[i].first + " is set", one, fresh);
            eq(one, fresh);
            M c(one); eq(c, one);
            // one field changed
            M x; rndobj(x); M y(x); eq(x, y); u[i].second(y);
            if (st(x) == st(y)) bad("harness: no change", x, y);
            eq(x, y);
            if (x.empty() != (st(x) == zero)) bad("empty() is wrong", x, fresh);
            // exchange
            S sx = st(x), sy = st(y);
            x.swap(y);
            if (st(x) != sy || st(y) != sx) bad(S("swap after changing ") + u[i].first, x, y);
            y.swap(y); if (st(y) != sx) bad("swap with itself", y, y);
            x.clear();
            if (st(x) != zero || !x.empty() || !(x == fresh)) bad(S("clear leaves something (") + u[i].first + ")", x, fresh);
            y.swap(one); S so = st(y); (void) so; if (st(one) != sx) bad("swap", one, y);
            one.clear(); if (st(one) != zero || !one.empty() || one != fresh) bad("clear leaves something", one, fresh);
            // clearing and copying again
            M z; z = y; eq(z, y); z.clear(); eq(z, y); eq(z, fresh);
        }
        M a, b; rndobj(a); rndobj(b); eq(a, b);
        S sa = st(a), sb = st(b); a.swap(b); if (st(a) != sb || st(b) != sa) bad("swap", a, b);
        a.clear(); b.clear(); eq(a, b); if (!a.empty() || st(a) != zero) bad("clear leaves something", a, fresh);
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    int n = (int) budget(60, 1500);
    all<vf::Inner>("Inner", n); all<vf::Pair>("Pair", n); all<vf::Scalars>("Scalars", n); all<vf::Lists>("Lists", n); all<vf::Mixed>("Mixed", n); all<vf::Ghost>("Ghost", n); all<vf::Void>("Void", n);
    all<vfobf::Mixed>("vfobf.Mixed", n); all<vfnum::Mixed>("vfnum.Mixed", n); all<vfwide::Wide>("vfwide.Wide", n / 12 + 1);
    // set to zero or "" is not empty, and differs from unset
    { vf::Scalars m, f; m.f_int32 = 0; note("zero"); if (m.empty() || m == f) fail("a field set to 0 counts as unset"); m.clear(); if (!m.empty() || !(m == f)) fail("clear keeps a field set to 0"); }
    { vf::Scalars m, f; m.f_bool = false; if (m.empty() || m == f) fail("a field set to false counts as unset"); }
    { vf::Scalars m, f; m.f_double = 0.0; if (m.empty() || m == f) fail("a field set to 0.0 counts as unset"); }
    { vf::Pair m, f; m.x = ""; if (m.empty() || m == f) fail("a field set to the empty string counts as unset"); }
    { vf::Mixed m, f; m.lists.strs.emplace_back(); if (m.empty() || m == f) fail("a list with one unset element counts as empty"); }
    // close floating-point values
    { vf::Scalars a, b; a.f_double = 1.0; b.f_double = std::nextafter(1.0, 2.0); if (a == b) fail("neighbouring doubles are equal"); a.clear(); b.clear(); a.f_float = 1.0f; b.f_float = std::nextafter(1.0f, 2.0f); if (a == b) fail("neighbouring floats are equal"); }
    { vf::Lists a, b; a.reals.push_back(0.1); b.reals.push_back(std::nextafter(0.1, 1.0)); if (a == b) fail("neighbouring doubles in lists are equal"); }
    return finish();
}
