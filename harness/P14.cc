// P14: all input sources are equivalent.
// cxx: clang++
// flags: -O1 -g0 -w -fsanitize=address,undefined -fno-sanitize-recover=all
#include "model.hh"
#include <fstream>

template<class M> S out( bool ok, const M &m, const pg::Parameters &p ) { return str(last(ok, p)) + " " + st(m); }
struct Heap { char *b; explicit Heap( const S &d ) : b((char*) malloc(d.size())) { memcpy(b, d.data(), d.size()); } ~Heap() { free(b); } };
template<class M> void all( const S &d )
{
    note(d);
    pg::Parameters p;
    M a; bool ok = a.deserialize(d, &p); S want = out(ok, a, p);
    {
        Heap h(d); M m; pg::Parameters q; bool r = m.deserialize(h.b, d.size(), &q);
        if (out(r, m, q) != want) fail("pointer and length: " + show(out(r, m, q)) + " instead of " + show(want) + ": " + show(d));
    }
    {
        // more bytes follow the given length
        static const char *T[] = {"\"}", "}", "]}", "1", "e5", ",\"alpha\":\"no\"}", "null", "\n\n"};
        S l = d + T[rnd(8)];
        M m; pg::Parameters q; bool r = m.deserialize(l.data(), d.size(), &q);
        if (out(r, m, q) != want) fail("pointer and length in a longer buffer: " + show(out(r, m, q)) + " instead of " + show(want) + ": " + show(d));
    }
    {
        std::vector<char> v(d.begin(), d.end()); M m; pg::Parameters q; bool r = m.deserialize(v, &q);
        if (out(r, m, q) != want) fail("vector: " + show(out(r, m, q)) + " instead of " + show(want) + ": " + show(d));
    }
    for (int skip = 0; skip < 2; ++skip)
    {
        std::istringstream is(d);
        if (skip) std::skipws(is); else std::noskipws(is);
        if (coin(3)) is >> std::hex;
        std::ios_base::fmtflags f = is.flags();
        M m; pg::Parameters q; bool r = m.deserialize(is, &q);
        if (out(r, m, q) != want) fail(S("stream (") + (skip ? "skipws" : "noskipws") + "): " + show(out(r, m, q)) + " instead of " + show(want) + ": " + show(d));
        if (is.flags() != f) fail(S("the flags of the stream changed (") + (skip ? "skipws" : "noskipws") + "): " + show(d));
    }
    {
        // without parameters
        M m; bool r = m.deserialize(d); if (r != ok || st(m) != st(a)) fail("no parameters: " + show(d));
        M n; std::istringstream is(d); r = n.deserialize(is); if (r != ok || st(n) != st(a)) fail("no parameters, stream: " + show(d));
    }
}
template<class E> void arr( const S &d )
{
    note(d);
    pg::Parameters p, q, r;
    std::vector<E> a, b, c;
    auto s = []( const std::vector<E> &v ) { S o; for (auto &e : v) o += st(e) + ","; return o; };
    bool ka = pg::deserialize_array(a, d, &p);
    Heap h(d);
    bool kb = pg::deserialize_array(b, h.b, d.size(), &q);
    std::vector<char> v(d.begin(), d.end());
    bool kc = pg::deserialize_array(c, v, &r);
    S w = str(last(ka, p)) + s(a);
    if (str(last(kb, q)) + s(b) != w) fail("array, pointer and length: " + show(str(last(kb, q)) + s(b)) + " instead of " + show(w) + ": " + show(d));
    if (str(last(kc, r)) + s(c) != w) fail("array, vector: " + show(str(last(kc, r)) + s(c)) + " instead of " + show(w) + ": " + show(d));
}
static S spoil( S d )
{
    for (size_t n = 1 + rnd(2); n && !d.empty(); --n) switch (rnd(5))
    {
        case 0: d.resize(rnd(d.size() + 1)); break;
        case 1: d[rnd(d.size())] = (char) rnd(256); break;
        case 2: d.erase(rnd(d.size()), 1 + rnd(3)); break;
        case 3: d.insert(rnd(d.size() + 1), 1, "\n\0\"{}[],: \xff\x80 1e"[rnd(15)]); break;
        case 4: { static const char *T[] = {"\n", "\r\n", "null", "[", "{", "\\u00e9", "//"}; d.insert(rnd(d.size() + 1), T[rnd(7)]); }
    }
    return d;
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    for (const char *d : {"", " ", "\n", "{", "{}", "{} ", "{}\n", "null", "{\"x\"", "{\"x\":", "{\"x\":\"", "{\"x\":\"a", "{\"y\":1", "{\"y\":-", "{\"y\":nul", "\"", "1", "{\"x\":\"\\", "{\"x\":\"\\u12", "\n\n{\"x\":1}", "{\"x\" : \" a  b \" , \"y\" : 2 }", "{\"x\":\"\\n a\tb\nc\",\"y\":3}"}) { all<vf::Pair>(d); arr<vf::Pair>(S("[") + d); }
    for (long i = 0; i < budget(1200, 20000); ++i)
    {
        Gen g; g.utf8 = coin(); g.p = (int) rnd(7); vf::Mixed m; JV j = fill(m, g);
        S d = jtext(j, coin(), coin());
        if (coin(3)) all<vf::Mixed>(d);
        all<vf::Mixed>(spoil(d));
        vf::Pair q; JV k = fill(q, g); S e = jtext(k, true, true);
        all<vf::Pair>(e); all<vf::Pair>(spoil(e)); all<vf::Pair>(e.substr(0, rnd(e.size() + 1)));
        JV a = jarr(); for (size_t n = rnd(4); n; --n) { vf::Pair z; a.a.push_back(fill(z, g)); }
        S t = jtext(a, true, true); arr<vf::Pair>(t); arr<vf::Pair>(spoil(t)); arr<vf::Pair>(t.substr(0, rnd(t.size() + 1)));
    }
    return finish();
}
