// P07: float and double values round-trip in any locale.
#include "rt.hh"
#include <clocale>
#include <cfenv>
#include <locale.h>
#include <locale>
#include <unistd.h>

static bool numeric( const S &t ) { JV j; return json_parse(t, j) && j.k == JV::NUM; }
static S bits( double v ) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
template<class T> static bool same( T a, T b ) { return memcmp(&a, &b, sizeof a) == 0 || (a == 0 && b == 0 && std::signbit(a) == std::signbit(b)); }
static void one( double d, float f, const char *where )
{
    S key = bits(d) + "/" + bits(f) + " " + where;
    note(key);
    vf::Scalars m, r;
    m.f_double = d; m.f_float = f;
    vf::Lists lm, lr;
    lm.reals.push_back(d); lm.reals.push_back((double) f);
    S doc, ld;
    struct lconv *lc = localeconv();
    S before = S(setlocale(LC_ALL, nullptr)) + "|" + lc->decimal_point;
    locale_t tl = uselocale((locale_t) 0);
    bool ok = m.serialize(doc) && lm.serialize(ld);
    if (uselocale((locale_t) 0) != tl) { fail("thread locale changed by writing " + key); uselocale(tl); }
    if (!ok) { fail("not written: " + key); return; }
    JV j;
    if (!json_parse(doc, j) || !j.get("f_double") || !j.get("f_float") || j.get("f_double")->k != JV::NUM || j.get("f_float")->k != JV::NUM)
        { fail("not a JSON number: " + show(doc) + " for " + key); return; }
    if (!json_parse(ld, j)) fail("not JSON: " + show(ld));
    bool k = r.deserialize(doc) && lr.deserialize(ld);
    if (uselocale((locale_t) 0) != tl) { fail("thread locale changed by reading " + key); uselocale(tl); }
    if (!k) { fail("not read: " + show(doc)); return; }
    if (r.f_double.empty() || !same((double) r.f_double, d)) fail("double " + key + " written as " + show(doc) + " read back as " + bits(r.f_double));
    if (r.f_float.empty() || !same((float) r.f_float, f)) fail("float " + key + " written as " + show(doc) + " read back as " + bits(r.f_float));
    if (lr.reals.size() != 2 || !same((double) lr.reals[0], d)) fail("list element " + key + " in " + show(ld));
    lc = localeconv();
    if (before != S(setlocale(LC_ALL, nullptr)) + "|" + lc->decimal_point) fail("process locale changed by " + key);
}
static double rd() { uint64_t x = rnd(); double d; memcpy(&d, &x, 8); return std::isfinite(d) ? d : 1.5; }
static float rf() { uint32_t x = (uint32_t) (rnd() >> 13); float d; memcpy(&d, &x, 4); return std::isfinite(d) ? d : 1.5f; }
static void sweep( const char *where, long n )
{
    typedef std::numeric_limits<double> D; typedef std::numeric_limits<float> F;
    static const double E[] = {0.0, -0.0, 1, -1, 0.1, 0.2, 0.3, 1.0 / 3, 1e21, 1e22, 1e23, 123456789.125, 5e-324, 2.2250738585072011e-308, D::min(), D::max(), D::lowest(), D::denorm_min(), D::epsilon(),
        9007199254740993.0, 9007199254740992.0, 1e15, 1e16, 1e17, 0.5, 3.14159265358979, 1.7976931348623157e308, 4.9406564584124654e-324, 1234.5};
    static const float G[] = {0.0f, -0.0f, 1, 0.1f, 16777216.0f, 16777217.0f, F::min(), F::max(), F::lowest(), F::denorm_min(), F::epsilon(), 3.4028235e38f, 1.17549435e-38f, 0.3f, 1e10f, 33554432.0f, 8.5899346e9f, 1234.5f};
    for (double d : E) one(d, (float) 0.25, where);
    for (float f : G) one(0.25, f, where);
    for (double d : E) { one(std::nextafter(d, D::max()), 1, where); one(std::nextafter(d, D::lowest()), 2, where); one(-d, -3, where); }
    for (float f : G) { one(1, std::nextafter(f, F::max()), where); one(1, std::nextafter(f, F::lowest()), where); }
    for (long i = 0; i < n; ++i)
    {
        double d = rd(); float f = rf();
        if (coin(4)) { d = (double) (int64_t) rnd() / pow(10, (double) rnd(19)); f = (float) ((int) rnd(2000000)) / 1000; }
        if (!std::isfinite(std::nextafter(d, D::max()))) d = 2;
        one(d, f, where);
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    sweep("locale C", budget(20000, 400000));
    // a locale with ',' as decimal separator
    const char *sc = getenv("SCRATCH");
    S dir = sc ? sc : "/tmp";
    S cmd = "localedef -i de_DE -f UTF-8 " + dir + "/de_DE.UTF-8 >/dev/null 2>&1";
    int rc = system(cmd.c_str());
    setenv("LOCPATH", dir.c_str(), 1);
    if (rc <= 256 && setlocale(LC_ALL, "de_DE.UTF-8"))
    {
        if (strcmp(localeconv()->decimal_point, ",") == 0) printf("SAMPLE locale de_DE.UTF-8 with ',' in use\n");
        sweep("locale de_DE", budget(5000, 100000));
        try { std::locale::global(std::locale("de_DE.UTF-8")); sweep("global C++ locale de_DE", budget(3000, 50000)); } catch (...) {}
        setlocale(LC_ALL, "C");
        locale_t l = newlocale(LC_ALL_MASK, "de_DE.UTF-8", 0);
        if (l) { uselocale(l); sweep("thread locale de_DE", budget(3000, 50000)); uselocale(LC_GLOBAL_LOCALE); }
    }
    else printf("SAMPLE no locale with ',' available\n");
    // decimal text read in any spelling
    for (const char *t : {"1e3", "1E3", "1e+3", "1000.0", "10.00e2", "-0.0", "0.1e-5", "123456789012345678901234567890"})
    {
        note(t);
        vf::Scalars m;
        S doc = S("{\"f_double\":") + t + "}";
        if (!m.deserialize(doc) || (double) m.f_double != strtod(t, nullptr)) fail("read wrongly: " + doc);
    }
    return finish();
}
