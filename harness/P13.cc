// P13: parse errors name the position of the offending token.
#include "model.hh"

struct Tok { S text; char kind; size_t off; };      // kind: s string value, k key, n number, w word, or the punctuation itself
static void toks( const JV &v, std::vector<Tok> &o )
{
    switch (v.k)
    {
        case JV::NUL: o.push_back({"null", 'w', 0}); break;
        case JV::BOOL: o.push_back({v.b ? "true" : "false", 'w', 0}); break;
        case JV::NUM: o.push_back({v.s, 'n', 0}); break;
        case JV::STR: o.push_back({json_lit(v.s, true), 's', 0}); break;
        case JV::ARR: o.push_back({"[", '[', 0}); for (size_t i = 0; i < v.a.size(); ++i) { if (i) o.push_back({",", ',', 0}); toks(v.a[i], o); } o.push_back({"]", ']', 0}); break;
        case JV::OBJ: o.push_back({"{", '{', 0}); for (size_t i = 0; i < v.o.size(); ++i) { if (i) o.push_back({",", ',', 0}); o.push_back({json_lit(v.o[i].first), 'k', 0}); o.push_back({":", ':', 0}); toks(v.o[i].second, o); } o.push_back({"}", '}', 0}); break;
    }
}
static S lay( std::vector<Tok> &t, bool noisy )
{
    S o;
    auto gap = [&]() { if (noisy) while (coin()) { static const char W[] = " \t\r\n\n\n  "; o += W[rnd(8)]; } };
    gap();
    for (auto &x : t) { if (!o.empty() && isalnum((unsigned char) o.back()) && isalnum((unsigned char) x.text[0])) o += ' '; x.off = o.size(); o += x.text; gap(); }
    return o;
}
static void pos( const S &d, size_t off, int &line, int &col )
{
    line = 1; size_t b = 0;
    for (size_t i = 0; i < off; ++i) if (d[i] == '\n') { ++line; b = i + 1; }
    col = (int) (off - b) + 1;
}
static bool read( int src, const S &d, vf::Mixed &m, pg::Parameters &p )
{
    switch (src)
    {
        case 0: return m.deserialize(d, &p);
        case 1: return m.deserialize(d.data(), d.size(), &p);
        case 2: { std::vector<char> v(d.begin(), d.end()); return m.deserialize(v, &p); }
        default: { std::istringstream is(d); return m.deserialize(is, &p); }
    }
}
static pg::Parameters g_p;
static void expect( const S &d, size_t off )
{
    int line, col; pos(d, off, line, col);
    note(d);
    vf::Mixed m;
    int src = (int) rnd(4);
    bool dirty = coin();
    if (!dirty) g_p = pg::Parameters();
    bool ok = read(src, d, m, g_p);
    if (ok) { fail("accepted: " + show(d)); return; }
    if (g_p.error.line != line || g_p.error.column != col || g_p.error.code == pg::PGERR_OK)
        fail("reported " + std::to_string(g_p.error.line) + ":" + std::to_string(g_p.error.column) + " code " + std::to_string(g_p.error.code) + " ('" + g_p.error.message + "'), the offending token is at " + std::to_string(line) + ":" + std::to_string(col) + ": " + show(d) + (dirty ? " (parameters reused)" : ""));
}
static JV junk( int depth )
{
    switch (rnd(depth > 2 ? 4 : 6))
    {
        case 0: return jnum(std::to_string((int) rnd(100)));
        case 1: return jstr(rnd_plain(5));
        case 2: return jbool(coin());
        case 3: return jnull();
        case 4: { JV a = jarr(); for (size_t n = rnd(4); n; --n) a.a.push_back(junk(depth + 1)); return a; }
        default: { JV a = jobj(); for (size_t n = rnd(4); n; --n) a.o.emplace_back(rnd_plain(4), junk(depth + 1)); return a; }
    }
}
static void good( const S &d )
{
    vf::Mixed m;
    note(d);
    if (!read((int) rnd(4), d, m, g_p)) { fail("refused: " + show(d)); return; }
    if (g_p.error.code != pg::PGERR_OK || g_p.error.line != 0 || g_p.error.column != 0 || !g_p.error.message.empty())
        fail("parameters not reset by a successful read: " + str(last(true, g_p)) + ": " + show(d));
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    long n = budget(2500, 40000);
    for (long i = 0; i < n; ++i)
    {
        Gen g; g.p = (int) rnd(6); vf::Mixed m;
        JV j = fill(m, g);
        // members the schema does not know, and the kinds of the values of the known ones
        size_t extra = rnd(3);
        for (size_t k = 0; k < extra; ++k) j.o.insert(j.o.begin() + (long) rnd(j.o.size() + 1), std::make_pair("u" + rnd_plain(3), junk(0)));
        std::vector<Tok> t; toks(j, t);
        if (t.size() > 400) continue;
        std::vector<Tok> c = t;
        S d = lay(c, coin(4) ? false : true);
        good(d);
        for (int r = 0; r < 6; ++r)
        {
            // a token that is none
            c = t; size_t k = rnd(c.size());
            static const char *B[] = {"@", "\"bad\\q\"", "tru", "nul", "'", "\"\\ud800\"", "/", "\"\\u12g4\"", "\x80"};
            c[k].text = B[rnd(9)];
            d = lay(c, true);
            expect(d, c[k].off);
            // a document that ends too early
            c = t; k = rnd(c.size()); c.resize(k);
            d = lay(c, true);
            expect(d, d.size());
            // a comma, colon or bracket in the place of something else
            c = t; k = rnd(c.size());
            char kind = c[k].kind;
            if (kind == ',' || kind == ':') { c[k].text = kind == ',' ? ":" : ","; d = lay(c, true); expect(d, c[k].off); }
            else if (kind == 'k') { c[k].text = coin() ? "12" : coin() ? "null" : "["; d = lay(c, true); expect(d, c[k].off); }
            else if (kind == '}' || kind == ']') { c[k].text = kind == '}' ? "]" : ":"; d = lay(c, true); if (k + 1 == c.size() || true) expect(d, c[k].off); }
        }
        // a value of the wrong kind in a known member
        static const struct { const char *path, *bad; } W[] = {
            {"alpha", "1"}, {"alpha", "true"}, {"alpha", "{}"}, {"alpha", "[1]"}, {"in", "3"}, {"in", "[]"}, {"in", "\"x\""}, {"Kids-2", "{}"}, {"Kids-2", "4"}, {"Kids-2", "\"\""}, {"lists", "7"}, {"scalars", "true"}, {"scalars", "[]"}};
        auto &w = W[rnd(sizeof(W) / sizeof(*W))];
        JV k = jobj();
        for (auto &e : j.o) if (e.first != w.path) k.o.push_back(e);
        size_t at = rnd(k.o.size() + 1);
        k.o.insert(k.o.begin() + (long) at, std::make_pair(S(w.path), jnull()));
        c.clear(); toks(k, c);
        for (size_t x = 0; x < c.size(); ++x) if (c[x].kind == 'k' && c[x].text == json_lit(w.path) && x + 2 < c.size() && c[x + 2].text == "null")
        {
            // only at the top level
            int depth = 0; for (size_t y = 0; y < x; ++y) depth += c[y].kind == '{' || c[y].kind == '[' ? 1 : c[y].kind == '}' || c[y].kind == ']' ? -1 : 0;
            if (depth != 1) continue;
            c[x + 2].text = w.bad; d = lay(c, true); expect(d, c[x + 2].off); break;
        }
        static const struct { const char *name, *bad; } V[] = {{"f_int32", "\"1\""}, {"f_double", "true"}, {"f_bool", "1"}, {"f_string", "2"}, {"f_bytes", "\"A\""}, {"f_bytes", "5"}, {"f_bytes", "\"AA=A\""}, {"f_msg", "9"}, {"f_uint64", "{}"}, {"f_float", "[]"}};
        auto &v = V[rnd(sizeof(V) / sizeof(*V))];
        c.clear();
        JV sc = jobj(); sc.o.emplace_back("f_sint32", jnum("4")); sc.o.emplace_back(v.name, jnull()); sc.o.emplace_back("zz", junk(0));
        JV top = jobj(); if (coin()) top.o.emplace_back("q", junk(0)); top.o.emplace_back("scalars", sc);
        toks(top, c);
        for (size_t x = 0; x + 2 < c.size(); ++x) if (c[x].text == json_lit(v.name)) { c[x + 2].text = v.bad; d = lay(c, true); expect(d, c[x + 2].off); break; }
        // writing resets them too
        if (coin(8)) { vf::Mixed o; S out; if (!o.serialize(out, &g_p) || g_p.error.code != pg::PGERR_OK || !g_p.error.message.empty()) fail("parameters not reset by a successful write"); }
    }
    for (const char *d : {"", "\n", " ", "\n\n ", "\t\n"}) expect(d, strlen(d));
    { S d = "\n null"; int line, col; (void) line; (void) col; expect(d, 2); }
    // top-level arrays
    for (long i = 0; i < n / 4; ++i)
    {
        JV a = jarr(); for (size_t k = rnd(5); k; --k) { vf::Pair q; Gen g; a.a.push_back(fill(q, g)); }
        std::vector<Tok> t; toks(a, t);
        size_t k = rnd(t.size()); bool cut = coin();
        if (cut) t.resize(k); else t[k].text = "@";
        S d = lay(t, true); int line, col; pos(d, cut ? d.size() : t[k].off, line, col);
        note(d);
        std::vector<vf::Pair> v; bool ok = coin() ? pg::deserialize_array(v, d, &g_p) : pg::deserialize_array(v, d.data(), d.size(), &g_p);
        if (ok || g_p.error.code == pg::PGERR_OK || g_p.error.line != line || g_p.error.column != col)
            fail("array: " + str(last(ok, g_p)) + ", expected " + std::to_string(line) + ":" + std::to_string(col) + ": " + show(d));
    }
    return finish();
}
