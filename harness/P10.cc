// P10: repeated fields keep every element in order; malformed arrays are refused.
#include "model.hh"
#include "num.pg.hh"

struct Append { template<class X> void operator()( X &x, const X &y ) const { X c = y; x.insert(x.end(), c.begin(), c.end()); } };
static void good( int n )
{
    // one list of n elements of every type
    vf::Lists m, r; JV j = jobj();
    JV a[7]; for (auto &x : a) x = jarr();
    Gen g; g.p = 6;
    for (int i = 0; i < n; ++i)
    {
        int32_t v = (int32_t) g.i64(); m.ints.push_back(v); a[0].a.push_back(jnum(g.dec(v)));
        S t = i % 3 ? g.text() : S(); m.strs.push_back(t); a[1].a.push_back(jstr(t));
        bool b = coin(); m.bools.push_back(b); a[2].a.push_back(jbool(b));
        double d = g.real(); m.reals.push_back(d); a[3].a.push_back(jnum(g.dbl(d, 17)));
        S y = rnd_bytes(5); m.blobs.push_back(std::vector<uint8_t>(y.begin(), y.end())); a[4].a.push_back(jstr(b64(y)));
        m.msgs.emplace_back(); a[5].a.push_back(fill(m.msgs.back(), g));
        uint64_t u = (uint64_t) g.i64(); m.longs.push_back(u); a[6].a.push_back(jnum(g.dec(u)));
    }
    static const char *N[] = {"ints", "strs", "bools", "reals", "blobs", "msgs", "longs"};
    if (n) for (int i = 0; i < 7; ++i) j.o.emplace_back(N[i], a[i]);
    S doc; JV got;
    note(st(m));
    if (!m.serialize(doc) || !json_parse(doc, got) || !jeq(got, j)) fail("length " + std::to_string(n) + ": written " + show(doc) + " instead of " + show(jtext(j)));
    S in = jtext(j, true, true);
    if (!r.deserialize(in) || st(r) != st(m)) fail("length " + std::to_string(n) + ": " + show(in) + " read as " + show(st(r)));
    // nulls are skipped and new elements come after the old ones
    JV k = j; size_t want = 0;
    for (auto &e : k.o) { JV x = jarr(); for (auto &v : e.second.a) { while (coin(3)) x.a.push_back(jnull()); x.a.push_back(v); } while (coin(3)) x.a.push_back(jnull()); e.second = x; }
    (void) want;
    vf::Lists two(m);
    S in2 = jtext(k, true);
    vf::Lists dbl(m);
    Append app;
    app(dbl.ints, m.ints); app(dbl.strs, m.strs); app(dbl.bools, m.bools); app(dbl.reals, m.reals); app(dbl.blobs, m.blobs); app(dbl.msgs, m.msgs); app(dbl.longs, m.longs);
    if (!two.deserialize(in2) || st(two) != st(dbl)) fail("appending " + show(in2) + " gives " + show(st(two)) + " instead of " + show(st(dbl)));
    // top-level arrays
    std::vector<vf::Inner> top, back; JV tj = jarr();
    for (int i = 0; i < n; ++i) { top.emplace_back(); tj.a.push_back(fill(top.back(), g)); }
    S td; JV tg;
    if (!pg::serialize_array(top, td) || !json_parse(td, tg) || !jeq(tg, tj)) fail("top-level array written " + show(td) + " instead of " + show(jtext(tj)));
    bool ok = pg::deserialize_array(back, jtext(tj, true));
    bool same = ok && back.size() == top.size();
    for (size_t i = 0; same && i < top.size(); ++i) same = st(back[i]) == st(top[i]);
    if (!same) fail("top-level array " + show(jtext(tj)) + " not read back");
    // std::list
    vfnum::Mixed lm, lr;
    for (int i = 0; i < n; ++i) { lm.names.push_back(g.text()); lm.kids.emplace_back(); lm.kids.back().n = i; lm.blobs.push_back(std::vector<uint8_t>(1 + rnd(3), (uint8_t) i)); }
    S ld;
    if (!lm.serialize(ld) || !lr.deserialize(ld) || !(lr == lm) || lr.names.size() != (size_t) n) fail("lists: " + show(ld) + " not read back");
    auto it = lr.kids.begin();
    for (int i = 0; i < n && it != lr.kids.end(); ++i, ++it) if ((int32_t) it->n != i) fail("lists: order of " + show(ld));
}
static void bad( const S &name, const S &arr )
{
    S doc = "{\"" + name + "\":" + arr + "}";
    note(doc);
    pg::Parameters p; vf::Lists m;
    bool ok = m.deserialize(doc, &p);
    if (ok) fail("accepted: " + show(doc));
    else if (p.error.code == pg::PGERR_OK) fail("refused without an error: " + show(doc));
    if (name == "ints") { std::vector<int32_t> v; if (pg::deserialize_array(v, arr, &p)) fail("top level, accepted: " + show(arr)); else if (p.error.code == pg::PGERR_OK) fail("top level, no error: " + show(arr)); }
    if (name == "msgs") { std::vector<vf::Inner> v; if (pg::deserialize_array(v, arr, &p)) fail("top level, accepted: " + show(arr)); else if (p.error.code == pg::PGERR_OK) fail("top level, no error: " + show(arr)); }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    for (int n = 0; n < 40; ++n) good(n);
    for (long i = 0; i < budget(600, 12000); ++i) good((int) rnd(7));
    good(1000);
    struct { const char *name, *ok; std::vector<const char*> wrong; } T[] = {
        {"ints", "1", {"\"1\"", "true", "{}", "[]", "[1]", "x"}}, {"strs", "\"a\"", {"1", "true", "{}", "[]", "a"}},
        {"bools", "true", {"1", "\"true\"", "{}", "[]"}}, {"reals", "1.5", {"\"1\"", "false", "{}", "[2]"}},
        {"blobs", "\"AAAA\"", {"1", "\"A\"", "{}", "[]", "[\"AAAA\"]", "\"A=AA\""}}, {"msgs", "{\"n\":1}", {"1", "\"a\"", "[]", "[{}]", "true", "{\"n\":}", "{\"n\"}"}}};
    for (auto &t : T)
    {
        S o = t.ok, n = t.name;
        for (const S &a : std::vector<S>{"[" + o + " " + o + "]", "[" + o + ",," + o + "]", "[," + o + "]", "[" + o + ",]", "[,]", "[" + o, "[" + o + ",", S("["), "[" + o + "}", "[" + o + ":" + o + "]", o, "{" + o + "}", S("{}"), S("true"), S("]"), "[" + o + "," + o, "[[" + o + "]]", "[" + o + "," + o + " " + o + "]", "[null " + o + "]", "[" + o + " null]", S("[null"), S("[null null]"), S("[null,"), S("[null,]")})
        {
            if (n == "blobs" && a == o) { bad(n, a); continue; }
            bad(n, a);
        }
        for (const char *w : t.wrong) for (int len = 1; len < 5; ++len) for (int k = 0; k < len; ++k)
        {
            S a = "["; for (int i = 0; i < len; ++i) a += (i ? "," : "") + (i == k ? S(w) : coin(4) ? S("null") : o);
            bad(n, a + "]");
        }
    }
    return finish();
}
