// P04: with ensure_ascii invalid UTF-8 anywhere in the object makes serialization fail.
#include "rt.hh"

static void place( vf::Mixed &m, int where, const S &v )
{
    switch (where)
    {
        case 0: m.a = v; break;
        case 1: m.in.s = v; break;
        case 2: m.kids.resize(3); m.kids[0].n = 1; m.kids[1].s = v; m.kids[2].s = S("tail"); break;
        case 3: m.lists.strs.push_back(S("head")); m.lists.strs.push_back(v); m.lists.strs.push_back(S("tail")); break;
        case 4: m.lists.msgs.resize(2); m.lists.msgs[0].s = v; m.lists.msgs[1].n = 2; break;
        case 5: m.scalars.f_string = v; m.scalars.f_int32 = 1; break;
        case 6: m.scalars.f_msg.s = v; break;
        case 7: m.secret = v; break;       // transient: not written
    }
}
static void check( const S &v, int where )
{
    note(std::to_string(where) + v);
    pg::Parameters p;
    p.ensure_ascii = true;
    vf::Mixed m;
    place(m, where, v);
    m.hidden = 3;
    S doc;
    bool ok = m.serialize(doc, &p);
    bool expect = where == 7 || valid_utf8(v);
    S w = "value=" + show(v) + " at place " + std::to_string(where);
    if (ok != expect) { fail(S(ok ? "invalid UTF-8 written: " : "valid UTF-8 refused: ") + w + " doc=" + show(doc)); return; }
    if (!ok && p.error.code != pg::PGERR_INVALID_VALUE) fail("error code " + std::to_string(p.error.code) + " for " + w);
    if (ok)
    {
        JV j;
        if (p.error.code != pg::PGERR_OK) fail("success with error code for " + w);
        if (!json_parse(doc, j)) fail("incomplete document: " + show(doc) + " for " + w);
    }
    if (where < 2)
    {
        std::vector<vf::Pair> l(2);
        l[where].x = v;
        S d;
        bool k = pg::serialize_array(l, d, &p);
        if (k != valid_utf8(v)) fail("array: " + w);
        if (!k && p.error.code != pg::PGERR_INVALID_VALUE) fail("array error code " + std::to_string(p.error.code) + " for " + w);
    }
    // without ensure_ascii everything is written
    if (coin(8))
    {
        S d;
        p.ensure_ascii = false;
        if (!m.serialize(d, &p) || p.error.code != pg::PGERR_OK) fail("refused without ensure_ascii: " + w);
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    static const int B[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF};
    const int N = sizeof(B) / sizeof(*B);
    for (int a = 0; a < 256; ++a) { check(S(1, (char) a), a % 8); for (int b = 0; b < 256; ++b) { S s(1, (char) a); s += (char) b; check(s, (a + b) % 8); } }
    for (int a : B) for (int b : B) for (int c : B) { S s(1, (char) a); s += (char) b; s += (char) c; check(s, (int) rnd(8)); }
    for (int a = 0xE0; a < 0xF8; ++a) for (int b : B) for (int c : B) for (int d : B)
    {
        if (!g_tier && coin(2)) continue;
        S s(1, (char) a); s += (char) b; s += (char) c; s += (char) d;
        check(s, (int) rnd(8));
    }
    for (long i = 0; i < budget(20000, 300000); ++i)
    {
        S s = rnd_utf8(8);
        switch (rnd(4))
        {
            case 0: break;
            case 1: if (!s.empty()) s.resize(rnd(s.size())); break;
            case 2: s.insert(rnd(s.size() + 1), 1, (char) B[rnd(N)]); break;
            case 3: if (!s.empty()) s[rnd(s.size())] = (char) rnd(256);
        }
        check(s, (int) rnd(8));
    }
    return finish();
}
