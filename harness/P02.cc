// P02: what is written for a string is one RFC 8259 literal that denotes it; ASCII on request.
#include "rt.hh"

static void literal( const S &lit, const S &v, bool ascii, const S &where )
{
    JR r(lit);
    S got;
    if (!r.str(got) || r.p != lit.size()) { fail("not a JSON string literal: " + show(lit) + " for " + where); return; }
    if (got != v) fail("literal " + show(lit) + " denotes " + show(got) + " for " + where);
    if (ascii) for (unsigned char c : lit) if (c >= 0x80) { fail("non-ASCII literal " + show(lit) + " for " + where); break; }
}
static void check( const S &v, bool ascii )
{
    note((ascii ? "A" : "-") + v);
    S where = S(ascii ? "ensure_ascii " : "") + "value=" + show(v);
    pg::Parameters p;
    p.ensure_ascii = ascii;
    vf::Pair m;
    m.x = v;
    S doc;
    if (!m.serialize(doc, &p)) { fail("serialize refused " + where); return; }
    S pre = "{\"x\":";
    if (doc.compare(0, pre.size(), pre) != 0 || doc.size() < pre.size() + 1 || doc.back() != '}') { fail("unexpected document " + show(doc) + " for " + where); return; }
    literal(doc.substr(pre.size(), doc.size() - pre.size() - 1), v, ascii, where);
    vf::Mixed n;
    n.kids.resize(1);
    n.kids[0].s = v;
    n.lists.strs.push_back(v);
    n.in.s = v;
    S d;
    if (!n.serialize(d, &p)) { fail("serialize refused nested " + where); return; }
    JV j;
    if (!json_parse(d, j)) { fail("document is not JSON: " + show(d)); return; }
    const JV *a = j.get("Kids-2"), *b = j.get("lists"), *c = j.get("in");
    if (!a || a->a.size() != 1 || !a->a[0].get("s") || a->a[0].get("s")->s != v || !b || !b->get("strs") || b->get("strs")->a.size() != 1 || b->get("strs")->a[0].s != v || !c || !c->get("s") || c->get("s")->s != v)
        fail("nested value differs, doc=" + show(d) + " for " + where);
    if (ascii) for (unsigned char ch : d) if (ch >= 0x80) { fail("non-ASCII document " + show(d)); break; }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    check("", false);
    for (int a = 0; a < 256; ++a) check(S(1, (char) a), false);
    for (int a = 0; a < 128; ++a) check(S(1, (char) a), true);
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += (g_tier ? 1 : 1 + (int) rnd(6))) { S s(1, (char) a); s += (char) b; check(s, false); }
    S s;
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        if (c >= 0xD800 && c <= 0xDFFF) continue;
        put_utf8(s, c);
        if (s.size() > 400) { check(s, true); s.clear(); }
    }
    check(s, true);
    for (long i = 0; i < budget(8000, 100000); ++i) check(rnd_bytes(30), false);
    for (long i = 0; i < budget(8000, 100000); ++i) check(rnd_utf8(20), true);
    return finish();
}
