// P01: every string value survives serialize + deserialize, in every place a string can stand.
#include "rt.hh"

static void check( const S &v, bool ascii )
{
    note((ascii ? "A" : "-") + v);
    pg::Parameters p;
    p.ensure_ascii = ascii;
    vf::Mixed m, r;
    m.a = v;
    m.in.s = v;
    m.kids.resize(2);
    m.kids[1].s = v;
    m.lists.strs.push_back(v);
    m.lists.strs.push_back(S("x"));
    m.lists.strs.push_back(v);
    m.scalars.f_string = v;
    S doc;
    S where = S(ascii ? "ensure_ascii " : "") + "value=" + show(v);
    if (!m.serialize(doc, &p)) { fail("serialize refused " + where); return; }
    if (!r.deserialize(doc, &p)) { fail("deserialize refused " + where + " doc=" + show(doc)); return; }
    bool same = *r.a == v && *r.in.s == v && r.kids.size() == 2 && *r.kids[1].s == v && r.lists.strs.size() == 3
        && *r.lists.strs[0] == v && *r.lists.strs[1] == "x" && *r.lists.strs[2] == v && *r.scalars.f_string == v && !r.a.empty();
    if (!same) fail("value changed " + where + " doc=" + show(doc) + " got=" + show(*r.a));
    std::vector<pg::string_field> l, l2;
    l.push_back(v);
    S d2;
    if (!pg::serialize_array(l, d2, &p) || !pg::deserialize_array(l2, d2, &p) || l2.size() != 1 || *l2[0] != v)
        fail("top-level array " + where + " doc=" + show(d2));
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    check("", false);
    check("", true);
    for (int a = 0; a < 256; ++a) check(S(1, (char) a), false);
    for (int a = 0; a < 128; ++a) check(S(1, (char) a), true);
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += (g_tier ? 1 : 1 + (int) rnd(6))) { S s(1, (char) a); s += (char) b; check(s, false); }
    // every code point
    S s;
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        if (c >= 0xD800 && c <= 0xDFFF) continue;
        put_utf8(s, c);
        if (s.size() > 500) { check(s, true); s.clear(); }
    }
    check(s, true);
    for (uint32_t c : {0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xFFFu, 0xFFFFu, 0x10000u, 0x10FFFFu, 0xD7FFu, 0xE000u}) { S t; put_utf8(t, c); check(t, true); check(t + "a", true); }
    for (long i = 0; i < budget(8000, 120000); ++i) check(rnd_bytes(40), false);
    for (long i = 0; i < budget(8000, 120000); ++i) check(rnd_utf8(25), true);
    for (size_t n : {255u, 256u, 4095u, 4096u, 70000u}) { check(S(n, '\\'), true); check(S(n, '\xff'), false); }
    return finish();
}
