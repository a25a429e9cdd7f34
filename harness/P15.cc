// P15: all output sinks receive the same document; memory buffers are respected.
// cxx: clang++
// flags: -O1 -g0 -w -fsanitize=address,undefined -fno-sanitize-recover=all
#include "model.hh"

template<class M> void all( M &m, pg::Parameters p, bool every )
{
    pg::Parameters q = p;
    S doc; bool ok = m.serialize(doc, &q);
    note(doc);
    S want = str(last(ok, q));
    S pre = rnd_bytes(6);
    { pg::Parameters r = p; S s = pre; bool k = m.serialize(s, &r); if (s != pre + doc || str(last(k, r)) != want) fail("string: " + show(s) + " instead of " + show(pre + doc)); }
    { pg::Parameters r = p; std::vector<char> s(pre.begin(), pre.end()); bool k = m.serialize(s, &r); if (S(s.begin(), s.end()) != pre + doc || str(last(k, r)) != want) fail("vector: " + show(S(s.begin(), s.end())) + " instead of " + show(pre + doc)); }
    {
        pg::Parameters r = p; std::ostringstream s; s << pre;
        switch (rnd(4)) { case 0: s << std::hex << std::showbase << std::showpos; break; case 1: s << std::boolalpha; s.precision(2); break; case 2: s << std::oct << std::scientific; }
        bool k = m.serialize(s, &r); if (s.str() != pre + doc || str(last(k, r)) != want) fail("stream: " + show(s.str()) + " instead of " + show(pre + doc));
    }
    auto buf = [&]( size_t n, bool exact )
    {
        size_t pad = exact ? 0 : 32;
        std::unique_ptr<char[]> b(new char[n + 2 * pad]);
        char fill = (char) (coin() ? 0x5A : 0);
        memset(b.get(), fill, n + 2 * pad);
        pg::Parameters r = p; bool k = m.serialize(b.get() + pad, n, &r);
        size_t used = std::min(n, doc.size());
        if (memcmp(b.get() + pad, doc.data(), used) != 0) fail("buffer of " + std::to_string(n) + ": " + show(S(b.get() + pad, used)) + " instead of " + show(doc.substr(0, used)));
        for (size_t i = 0; i < n + 2 * pad; ++i) if ((i < pad || i >= pad + used) && b[i] != fill) { fail("buffer of " + std::to_string(n) + ": byte " + std::to_string((long) i - (long) pad) + " was written, the document has " + std::to_string(doc.size()) + " bytes: " + show(doc)); break; }
        if (str(last(k, r)) != want) fail("buffer of " + std::to_string(n) + ": " + str(last(k, r)) + " instead of " + want);
    };
    if (every) { for (size_t n = 0; n < doc.size() + 4; ++n) { buf(n, false); buf(n, true); } }
    else for (int i = 0; i < 6; ++i) buf(i == 0 ? doc.size() : i == 1 ? doc.size() + 1 : i == 2 && doc.size() ? doc.size() - 1 : rnd(doc.size() + 8), coin());
    // one after the other
    S two = doc; m.serialize(two); S plain; m.serialize(plain); if (two != doc + plain) fail("appending to a string: " + show(two));
}
// what the generated code hands over: characters, C strings (names in UTF-8 among them) and strings
static void texts()
{
    typedef std::back_insert_iterator<S> I;
    for (int r = 0; r < 400; ++r)
    {
        S v = r < 256 ? S(1, (char) r) : rnd_bytes(12);
        S c(v.c_str());
        note(v);
        S a, b, d, e; I ia(a), ib(b), id(d), ie(e);
        pg::iterator_ostream<I> oa(ia), ob(ib), od(id), oe(ie);
        static_cast<pg::ostream&>(oa) << v;
        static_cast<pg::ostream&>(ob) << v.c_str();
        static_cast<pg::ostream&>(od) << (char*) v.c_str();
        for (char x : v) static_cast<pg::ostream&>(oe) << x;
        if (a != v) fail("string sent to a sink: " + show(a) + " instead of " + show(v));
        if (b != c) fail("C string sent to a sink: " + show(b) + " instead of " + show(c));
        if (d != c) fail("C string sent to a sink: " + show(d) + " instead of " + show(c));
        if (e != v) fail("characters sent to a sink: " + show(e) + " instead of " + show(v));
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    texts();
    for (long i = 0; i < budget(1500, 25000); ++i)
    {
        Gen g; g.p = (int) rnd(7); g.utf8 = !coin(4);
        pg::Parameters p; p.ensure_ascii = coin(3); p.serialize_null = coin(4);
        vf::Pair a; fill(a, g); all(a, p, i % 8 == 0);
        vf::Scalars b; fill(b, g); all(b, p, i % 64 == 0);
        vf::Mixed c; fill(c, g); all(c, p, i % 128 == 0);
        vf::Void v; all(v, p, i < 3);
        std::vector<vf::Pair> l; for (size_t n = rnd(4); n; --n) { l.emplace_back(); fill(l.back(), g); }
        S pre = rnd_bytes(4), x = pre; std::vector<char> y(pre.begin(), pre.end());
        S w; pg::Parameters q = p, r = p, s = p;
        bool kw = pg::serialize_array(l, w, &q), kx = pg::serialize_array(l, x, &r), ky = pg::serialize_array(l, y, &s);
        note(w);
        if (x != pre + w || S(y.begin(), y.end()) != pre + w || str(last(kw, q)) != str(last(kx, r)) || str(last(kw, q)) != str(last(ky, s))) fail("array: " + show(x) + " / " + show(S(y.begin(), y.end())) + " instead of " + show(pre + w));
        if (kw) { JV j; if (!json_parse(w, j) || j.k != JV::ARR || j.a.size() != l.size()) fail("array: not a JSON array: " + show(w)); }
    }
    return finish();
}
