// P08: presence of fields.
#include "model.hh"
#include "wide.pg.hh"

static S sig( const vf::Mixed &m );
static S sig( const vf::Scalars &m );
static S sig( const vf::Lists &m );
static S sig( const vf::Pair &m );
template<class M> static void one( int p )
{
    Gen g; g.p = p;
    uint64_t keep = g_rng;
    M m;
    JV want = fill(m, g);
    S doc; JV got;
    note(st(m));
    if (!m.serialize(doc) || !json_parse(doc, got)) { fail("not written as JSON: " + show(doc) + " for " + show(st(m))); return; }
    if (!jeq(got, want)) fail("written " + show(doc) + " instead of " + show(jtext(want)));
    // the same object with serialize_null
    uint64_t after = g_rng;
    g_rng = keep;
    Gen h; h.p = p; h.nulls = true;
    M m2; JV want2 = fill(m2, h);
    g_rng = after;
    pg::Parameters prm; prm.serialize_null = true;
    S d2; JV got2;
    if (!m2.serialize(d2, &prm) || !json_parse(d2, got2)) { fail("serialize_null: not JSON: " + show(d2)); return; }
    if (!jeq(got2, want2)) fail("serialize_null: written " + show(d2) + " instead of " + show(jtext(want2)));
    // reading it back sets the same fields
    M r; S in = jtext(want, true, true);
    if (!r.deserialize(in)) { fail("not read: " + show(in)); return; }
    M r2;
    if (!r2.deserialize(d2)) { fail("not read: " + show(d2)); return; }
    if (sig(r) != sig(m)) fail("reading " + show(in) + " gives " + show(sig(r)) + " instead of " + show(sig(m)));
    if (sig(r2) != sig(m2)) fail("reading " + show(d2) + " gives " + show(sig(r2)) + " instead of " + show(sig(m2)));
}
static S sig( const vf::Mixed &m ) { return st(m, false); }
static S sig( const vf::Scalars &m ) { return st(m); }
static S sig( const vf::Lists &m ) { return st(m); }
static S sig( const vf::Pair &m ) { return st(m); }

// every subset of members present, null or absent
static void presence()
{
    static const char *N[] = {"f_bool", "f_double", "f_int32", "f_string", "f_uint64", "f_msg", "f_bytes"};
    static const char *V[] = {"false", "0", "0", "\"\"", "0", "{}", "\"\""};
    for (int c = 0; c < 2187; ++c)
    {
        S doc = "{"; int k = c; bool set[7];
        for (int i = 0; i < 7; ++i, k /= 3)
        {
            set[i] = k % 3 == 1;
            if (k % 3 == 0) continue;
            doc += (doc.size() > 1 ? ",\"" : "\"") + S(N[i]) + "\":" + (k % 3 == 1 ? V[i] : "null");
        }
        doc += "}";
        note(doc);
        vf::Scalars m;
        if (!m.deserialize(doc)) { fail("refused: " + doc); continue; }
        bool e[] = {!m.f_bool.empty(), !m.f_double.empty(), !m.f_int32.empty(), !m.f_string.empty(), !m.f_uint64.empty()};
        for (int i = 0; i < 5; ++i) if (e[i] != set[i]) fail(S(N[i]) + (e[i] ? " set by " : " not set by ") + doc);
        if (!m.f_float.empty() || !m.f_int64.empty() || !m.f_uint32.empty() || !m.f_sint32.empty() || !m.f_sint64.empty() || !m.f_fixed32.empty() || !m.f_fixed64.empty() || !m.f_sfixed32.empty() || !m.f_sfixed64.empty() || !m.f_msg.empty() || !m.f_bytes.empty())
            fail("another field set by " + doc);
        S out; JV j;
        if (!m.serialize(out) || !json_parse(out, j)) { fail("not written after " + doc); continue; }
        for (int i = 0; i < 5; ++i) if ((j.get(N[i]) != nullptr) != set[i]) fail(S(N[i]) + " in " + out + " after reading " + doc);
    }
}
// a message with more fields than bits in a word
static void wide()
{
    typedef pg::field<int32_t> F;
    for (int r = 0; r < 200; ++r)
    {
        vfwide::Wide m;
        auto fields = []( vfwide::Wide &m ) { return std::vector<F*>{&m.w1, &m.w2, &m.w3, &m.w4, &m.w5, &m.w6, &m.w7, &m.w8, &m.w9, &m.w10, &m.w11, &m.w12, &m.w13, &m.w14, &m.w15, &m.w16, &m.w17, &m.w18, &m.w19, &m.w20, &m.w21, &m.w22, &m.w23, &m.w24, &m.w25, &m.w26, &m.w27, &m.w28, &m.w29, &m.w30, &m.w31, &m.w32, &m.w33, &m.w34, &m.w35, &m.w36, &m.w37, &m.w38, &m.w39, &m.w40, &m.w41, &m.w42, &m.w43, &m.w44, &m.w45, &m.w46, &m.w47, &m.w48, &m.w49, &m.w50, &m.w51, &m.w52, &m.w53, &m.w54}; };
        std::vector<F*> f = fields(m);
        for (size_t i = 0; i < f.size(); ++i) if (r < 54 ? (int) i == r : coin(1 + r % 5)) *f[i] = (int) i;
        m.t_str = S("t"); m.t_ints.push_back(1); m.t_part.n = 3; m.t_bytes.push_back(1);
        pg::Parameters p; p.serialize_null = r % 3 == 2;
        S d; JV j;
        if (!m.serialize(d, &p) || !json_parse(d, j)) { fail("wide: not JSON: " + show(d)); return; }
        note(d);
        size_t want = p.serialize_null ? f.size() + 3 : 0;
        for (size_t i = 0; i < f.size(); ++i)
        {
            const JV *v = j.get("w" + std::to_string(i + 1));
            if (!p.serialize_null && !f[i]->empty()) ++want;
            if ((v != nullptr) != (p.serialize_null || !f[i]->empty())) fail("wide: field " + std::to_string(i + 1) + (v ? " written" : " missing") + " in " + show(d));
            else if (v && (f[i]->empty() ? v->k != JV::NUL : v->k != JV::NUM || v->s != std::to_string(i))) fail("wide: wrong value of field " + std::to_string(i + 1) + " in " + show(d));
        }
        if (j.o.size() != want) fail("wide: " + std::to_string(j.o.size()) + " members instead of " + std::to_string(want) + " in " + show(d));
        vfwide::Wide n;
        if (!n.deserialize(d)) { fail("wide: not read: " + show(d)); continue; }
        std::vector<F*> g = fields(n);
        for (size_t i = 0; i < f.size(); ++i) if (!(*f[i] == *g[i])) fail("wide: field " + std::to_string(i + 1) + " after reading " + show(d));
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    wide();
    presence();
    for (long i = 0; i < budget(2500, 40000); ++i)
        for (int p : {1, 4, 7})
        {
            one<vf::Scalars>(p); one<vf::Lists>(p); one<vf::Mixed>(p); one<vf::Pair>(p);
        }
    // messages without persistent fields
    vf::Ghost g; g.only = 5; vf::Void v; S d1, d2;
    pg::Parameters p; p.serialize_null = true;
    if (!g.serialize(d1, &p) || d1 != "{}" || !v.serialize(d2, &p) || d2 != "{}") fail("empty messages written as " + show(d1) + " " + show(d2));
    return finish();
}
