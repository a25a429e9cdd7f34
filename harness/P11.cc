// P11: unknown members are skipped whole.
#include "model.hh"

static S rjson( int depth, bool brackets = false )
{
    switch (brackets ? 4 + rnd(4) : rnd(depth > 0 ? 8 : 4))
    {
        case 0: return jtext(jnum(Gen::dec((int64_t) rnd() >> rnd(64)))) + (coin(4) ? ".5e-3" : "");
        case 1: { static const char *T[] = {"\"}\"", "\"]\"", "\"{\"", "\"[\"", "\"\\\"\"", "\"\\\\\"", "\",\"", "\":\"", "\"\"", "\"null\"", "\"\\\"}\"", "\"\\u0022,\""}; return coin() ? S(T[rnd(12)]) : json_lit(rnd_utf8(6), true); }
        case 2: return coin() ? "true" : "false";
        case 3: return "null";
        case 4: case 5: { S o = "["; for (size_t n = rnd(4), i = 0; i < n; ++i) o += (i ? "," : "") + ws() + rjson(depth - 1) + ws(); return o + "]"; }
        default: { S o = "{"; for (size_t n = rnd(4), i = 0; i < n; ++i) o += (i ? "," : "") + ws() + json_lit(coin() ? S("x") : rnd_utf8(4)) + ws() + ":" + ws() + rjson(depth - 1) + ws(); return o + "}"; }
    }
}
// text of an object with unknown members in between
static S with_unknown( const JV &v, bool mixed, int depth, std::vector<std::pair<size_t, size_t>> *where = nullptr, S prefix = S() )
{
    static const char *U[] = {"?", "zz", "", "alph", "alphaa", "in ", "In", "f_int3", "F_INT32", "x ", "\\u0000", "kids-2", "constructor", "0", "s\\u0000"};
    S o = "{"; bool first = true;
    auto unk = [&]()
    {
        while (coin(2))
        {
            S n = U[rnd(sizeof(U) / sizeof(*U))];
            if (mixed && coin(3)) { static const char *H[] = {"a", "hidden", "secret", "kids"}; n = H[rnd(4)]; }
            o += (first ? "" : ",") + ws() + "\"" + n + "\"" + ws() + ":" + ws();
            first = false;
            size_t b = prefix.size() + o.size();
            o += rjson(depth);
            if (where) where->push_back({b, prefix.size() + o.size()});
            o += ws();
        }
    };
    unk();
    for (auto &e : v.o)
    {
        o += (first ? "" : ",") + ws() + json_lit(e.first, coin(3)) + ":" + ws();
        first = false;
        if (e.second.k == JV::OBJ) o += with_unknown(e.second, false, depth, where, prefix + o);
        else if (e.second.k == JV::ARR && !e.second.a.empty() && e.second.a[0].k == JV::OBJ)
        {
            o += "[";
            for (size_t i = 0; i < e.second.a.size(); ++i) { if (i) o += ","; o += with_unknown(e.second.a[i], false, depth, where, prefix + o); }
            o += "]";
        }
        else o += jtext(e.second);
        o += ws();
        unk();
    }
    return o + "}";
}
template<class M> static S sig( const M &m ) { return st(m); }
static S sig( const vf::Mixed &m ) { return st(m, true); }
template<class M> static void one( bool mixed )
{
    Gen g; g.p = 3 + (int) rnd(4);
    M m; JV j = fill(m, g);
    std::vector<std::pair<size_t, size_t>> where;
    S doc = with_unknown(j, mixed, (int) rnd(5), &where);
    note(doc);
    M want, r; pg::Parameters p;
    if (!want.deserialize(jtext(j))) { fail("refused: " + show(jtext(j))); return; }
    if (!r.deserialize(doc, &p)) { fail("refused (" + p.error.message + "): " + show(doc, 2000)); return; }
    if (sig(r) != sig(want)) fail("document " + show(doc, 2000) + " read as " + show(sig(r), 2000) + " instead of " + show(sig(want), 2000));
    // cut off or broken brackets inside an unknown value
    for (auto &w : where)
    {
        size_t k = w.first + rnd(w.second - w.first + 1);
        M c; pg::Parameters q;
        S d = doc.substr(0, k);
        if (c.deserialize(d, &q)) fail("cut off but accepted: " + show(d, 2000));
        else if (q.error.code == pg::PGERR_OK) fail("no error for " + show(d, 2000));
        // brackets outside strings
        std::vector<size_t> br;
        bool in = false;
        for (size_t i = w.first; i < w.second; ++i)
        {
            if (in) { if (doc[i] == '\\') ++i; else if (doc[i] == '"') in = false; }
            else if (doc[i] == '"') in = true;
            else if (strchr("[]{}", doc[i])) br.push_back(i);
        }
        if (br.empty()) continue;
        size_t b = br[rnd(br.size())];
        S e = doc;
        switch (rnd(3))
        {
            case 0: e.erase(b, 1); break;
            case 1: e[b] = e[b] == '[' ? '{' : e[b] == '{' ? '[' : e[b] == ']' ? '}' : ']'; break;
            case 2: if (e[b] == '[' || e[b] == '{') e.insert(b, 1, e[b]); else e.erase(b, 1); break;
        }
        // an empty array and an empty object differ only in both brackets, so one flip is always malformed
        M x; pg::Parameters y;
        if (x.deserialize(e, &y)) fail("malformed but accepted: " + show(e, 2000));
        else if (y.error.code == pg::PGERR_OK) fail("no error for " + show(e, 2000));
    }
}
// every short sequence of tokens as the content of a message: 2 well-formed, 1 well-formed but for a trailing
// comma inside an ignored value (not judged), 0 malformed
struct Soup
{
    const S &t; size_t i; bool loose;
    Soup( const S &x ) : t(x), i(0), loose(false) {}
    char at() const { return i < t.size() ? t[i] : 0; }
    bool value()
    {
        if (at() == '{') return object(true);
        if (at() == '[')
        {
            for (++i; at() != ']'; )
            {
                if (!value()) return false;
                if (at() != ',') break;
                ++i;
                if (at() == ']') loose = true;
            }
            return i < t.size() && t[i++] == ']';
        }
        if (at() == 'k' || at() == '1') { ++i; return true; }
        return false;
    }
    bool object( bool ignored )
    {
        if (at() != '{') return false;
        for (++i; at() != '}'; )
        {
            if (at() != 'k') return false;
            ++i;
            if (at() != ':') return false;
            ++i;
            if (!value()) return false;
            if (at() != ',') break;
            ++i;
            if (at() == '}') { if (!ignored) return false; loose = true; }
        }
        return i < t.size() && t[i++] == '}';
    }
};
static void soup( size_t len )
{
    static const char A[] = "{}[],:k1";
    S s(len, '{'); std::vector<int> d(len, 0);
    while (true)
    {
        for (size_t i = 0; i < len; ++i) s[i] = A[d[i]];
        S toks = "{k:" + s + "}", doc;
        for (char c : toks) if (c == 'k') doc += "\"k\""; else { doc += c; if (c == '1') doc += ' '; }
        Soup o(toks);
        bool ok = o.object(false) && o.i <= toks.size();
        note(doc);
        vf::Pair m; pg::Parameters p;
        bool r = m.deserialize(doc, &p);
        if (!o.loose && r != ok) fail(S(r ? "malformed but accepted: " : "refused: ") + show(doc));
        if (!r && p.error.code == pg::PGERR_OK) fail("no error for " + show(doc));
        size_t k = 0;
        while (k < len && ++d[k] == 8) d[k++] = 0;
        if (k == len) break;
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    for (size_t n = 1; n <= (size_t) budget(6, 7); ++n) soup(n);
    for (const char *v : {"[[", "[[]", "{\"a\":[}", "[{]", "{\"a\"}", "{\"a\":}", "{1:2}", "[1 2]", "{\"a\":1 \"b\":2}", "{\"a\" 1}", "[}", "{]", "[,]", "{,}", "[1,,2]", "{\"a\":1,,\"b\":2}", "@", "tru", "[tru]", "\"a", "[\"a]", ":", ",", "}", "]"})
        for (const char *after : {"}", ",\"x\":\"v\"}"})
        {
            S doc = S("{\"u\":") + v + after;
            note(doc);
            vf::Pair m; pg::Parameters p;
            if (m.deserialize(doc, &p)) fail("malformed but accepted: " + show(doc)); else if (p.error.code == pg::PGERR_OK) fail("no error for " + show(doc));
        }
    for (int d : {1, 10, 500, 5000})
    {
        S v; for (int i = 0; i < d; ++i) v += i % 2 ? "[" : "{\"k\":"; v += "1"; for (int i = d; i-- > 0;) v += i % 2 ? "]" : "}";
        vf::Pair m;
        note("depth " + std::to_string(d));
        if (!m.deserialize("{\"x\":\"a\",\"u\":" + v + ",\"y\":3}") || *m.x != "a" || (int32_t) m.y != 3) fail("unknown value nested " + std::to_string(d) + " deep");
    }
    for (long i = 0; i < budget(5000, 80000); ++i) { one<vf::Pair>(false); one<vf::Mixed>(true); if (i % 2) one<vf::Scalars>(false); else one<vf::Lists>(false); }
    return finish();
}
