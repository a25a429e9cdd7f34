// cxx: clang++
// flags: -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -w
// P12: deserialization is safe, terminates and never fails silently.
#include "model.hh"

template<class M> static void feed( const S &doc, int expect = -1 )
{
    note(doc);
    pg::Parameters p;
    M m;
    // exactly the bytes given: any read past them is caught by the address sanitizer
    char *buf = (char*) malloc(doc.size() ? doc.size() : 1);
    memcpy(buf, doc.data(), doc.size());
    bool ok = m.deserialize(buf, doc.size(), &p);
    if (ok != (p.error.code == pg::PGERR_OK)) fail(S(ok ? "true" : "false") + " with error code " + std::to_string(p.error.code) + " for " + show(doc));
    if (expect == 0 && ok) fail("accepted: " + show(doc));
    if (expect == 1 && !ok) fail("refused: " + show(doc) + " '" + p.error.message + "'");
    M n;
    bool k = n.deserialize(buf, doc.size(), nullptr);
    if (k != ok) fail("result depends on the parameters: " + show(doc));
    // parameters that served other documents before
    static pg::Parameters used;
    M o;
    bool u = o.deserialize(buf, doc.size(), &used);
    if (u != ok || used.error.code != p.error.code) fail("result depends on the error left before: " + S(u ? "true" : "false") + " with error code " + std::to_string(used.error.code) + " for " + show(doc));
    free(buf);
}
template<class T> static void feed_array( const S &doc, int expect = -1 )
{
    note("A" + doc);
    pg::Parameters p;
    std::vector<T> v;
    std::vector<char> in(doc.begin(), doc.end());
    in.shrink_to_fit();
    bool ok = pg::deserialize_array(v, in, &p);
    if (ok != (p.error.code == pg::PGERR_OK)) fail(S("array: ") + (ok ? "true" : "false") + " with error code " + std::to_string(p.error.code) + " for " + show(doc));
    static pg::Parameters used;
    std::vector<T> w;
    bool u = pg::deserialize_array(w, in, &used);
    if (u != ok || used.error.code != p.error.code) fail("array: result depends on the error left before: " + S(u ? "true" : "false") + " with error code " + std::to_string(used.error.code) + " for " + show(doc));
    if (expect == 0 && ok) fail("array accepted: " + show(doc));
    if (expect == 1 && !ok) fail("array refused: " + show(doc));
}
static S soup()
{
    static const char *T[] = {"{", "}", "[", "]", ":", ",", "\"x\"", "\"y\"", "\"alpha\"", "\"in\"", "\"Kids-2\"", "\"lists\"", "\"scalars\"", "\"f_bytes\"", "\"ints\"", "\"strs\"", "\"blobs\"", "\"msgs\"", "null", "true", "false", "1", "-2.5e3", "\"\"", "\"AA==\"", "\"\\u", "\"\\ud800\\udc00\"", "\"\\ud800", "nul", "e", "-", "\n", " ", "\\", "\"", "\xc3", "\x80", "9999999999999999999999", "1e999", "--", "\"\\"};
    S o;
    for (size_t n = rnd(14); n; --n) { o += T[rnd(sizeof(T) / sizeof(*T))]; if (coin(20)) o += '\0'; }
    return o;
}
static S mutate( S d )
{
    for (size_t n = 1 + rnd(3); n; --n)
    {
        if (d.empty()) return d;
        size_t k = rnd(d.size());
        switch (rnd(6))
        {
            case 0: d[k] = (char) rnd(256); break;
            case 1: d.erase(k, 1 + rnd(3)); break;
            case 2: d.insert(k, 1, "{}[]:,\"\\0-en t\n"[rnd(15)]); break;
            case 3: { size_t l = 1 + rnd(8); d.insert(rnd(d.size()), d.substr(k, l)); break; }
            case 4: d.resize(k); break;
            case 5: d[k] = d[rnd(d.size())]; break;
        }
    }
    return d;
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    feed<vf::Pair>("", 0); feed<vf::Pair>("null", 0); feed<vf::Pair>(" null ", 0); feed<vf::Void>("null", 0); feed<vf::Ghost>("null", 0); feed<vf::Mixed>("null", 0);
    feed_array<vf::Pair>("", 0); feed_array<vf::Pair>("null", 0); feed_array<int32_t>("null", 0);
    feed<vf::Void>("{}", 1); feed<vf::Pair>("{}", 1); feed<vf::Ghost>("{\"only\":1}", 1);
    // every document of up to three bytes over a small alphabet, and every single byte
    for (int c = 0; c < 256; ++c) { feed<vf::Pair>(S(1, (char) c), 0); feed_array<int32_t>(S(1, (char) c), 0); feed<vf::Pair>(S("{\"x\":") + (char) c); feed<vf::Pair>(S("{\"y\":") + (char) c + "}"); feed<vf::Pair>(S("{\"") + (char) c + "\":1}"); }
    { static const char A[] = "{}[]:,\"\\u1-n x\n"; const int N = 16; for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c) { S d; d += A[a]; d += A[b]; d += A[c]; feed<vf::Pair>(d); feed_array<int32_t>(d); feed<vf::Pair>("{\"x\":" + d); feed<vf::Pair>("{\"q\":" + d + "}"); } }
    // every short sequence of tokens after a known and an unknown name
    {
        static const char *T[] = {"{", "}", "[", "]", ",", ":", "\"y\"", "1 ", "null "};
        const int N = 9, L = (int) budget(4, 5);
        for (int len = 0; len <= L; ++len)
        {
            std::vector<int> d(len, 0);
            while (true)
            {
                S s; for (int x : d) s += T[x];
                feed<vf::Pair>("{\"u\":" + s + "}"); feed<vf::Pair>("{\"x\":" + s + "}"); feed<vf::Pair>("{" + s); feed_array<vf::Pair>("[" + s + "]"); feed<vf::Lists>("{\"ints\":" + s + "}");
                int k = 0;
                while (k < len && ++d[k] == N) d[k++] = 0;
                if (k == len) break;
            }
        }
    }
    // every prefix of valid documents is refused, the whole is accepted
    for (long i = 0; i < budget(60, 1500); ++i)
    {
        Gen g; g.p = 2 + (int) rnd(3);
        vf::Mixed m; S doc = jtext(fill(m, g), true, true);
        feed<vf::Mixed>(doc, 1);
        size_t step = doc.size() > 400 ? 1 + doc.size() / 200 : 1;
        for (size_t k = 0; k < doc.size(); k += step) feed<vf::Mixed>(doc.substr(0, k), 0);
        vf::Pair q; S e = jtext(fill(q, g), true, true);
        for (size_t k = 0; k < e.size(); ++k) feed<vf::Pair>(e.substr(0, k), 0);
        S a = "[" + e + "," + e + "]";
        feed_array<vf::Pair>(a, 1);
        for (size_t k = 0; k < a.size(); ++k) feed_array<vf::Pair>(a.substr(0, k), 0);
        for (int k = 0; k < 30; ++k) { feed<vf::Mixed>(mutate(doc)); feed<vf::Pair>(mutate(e)); feed_array<vf::Pair>(mutate(a)); }
    }
    for (long i = 0; i < budget(25000, 600000); ++i)
    {
        S s = soup();
        feed<vf::Mixed>(s);
        feed<vf::Mixed>("{" + s);
        if (i % 4 == 0) { feed<vf::Scalars>("{\"f_bytes\":" + s); feed<vf::Lists>("{\"blobs\":[" + s); feed_array<vf::Inner>("[" + s); feed<vf::Pair>(rnd_bytes(20)); }
    }
    // unterminated literals of many lengths, deep nesting
    for (int n = 0; n < 70; ++n) { feed<vf::Pair>("{\"x\":\"" + S(n, 'a'), 0); feed<vf::Pair>("{\"x\":\"" + S(n, '\\'), -1); feed<vf::Pair>("{\"y\":" + S(n, '1'), 0); feed<vf::Pair>(S(n, ' '), 0); feed<vf::Pair>("{" + S(n, '\n'), 0); }
    for (int n : {100, 1000, 4000}) { feed<vf::Pair>("{\"u\":" + S(n, '['), 0); feed<vf::Mixed>("{\"u\":" + S(n, '[') + S(n, ']') + "}", 1); }
    return finish();
}
