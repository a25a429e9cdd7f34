// P06: integers and booleans.
#include "rt.hh"

template<class T, class F> static void num( const char *name, F fld, T v )
{
    S txt = std::to_string(v);
    note(S(name) + txt);
    vf::Scalars m, r;
    (m.*fld) = v;
    S doc, want = S("{\"") + name + "\":" + txt + "}";
    if (!m.serialize(doc) || doc != want) fail(S(name) + " = " + txt + " written as " + show(doc));
    pg::Parameters p;
    if (!r.deserialize(want, &p)) fail(want + " refused");
    else if ((r.*fld).empty() || (T) (r.*fld) != v) fail(want + " read as " + std::to_string((T) (r.*fld)));
}
template<class T, class F> static void wide( const char *name, F fld )
{
    std::set<T> vs;
    typedef std::numeric_limits<T> L;
    for (int k = 0; k < (int) sizeof(T) * 8; ++k) for (int d = -2; d <= 2; ++d)
    {
        typedef typename std::make_unsigned<T>::type U;
        U x = (U) (((U) 1 << k) + (U) d);
        vs.insert((T) x); vs.insert((T) (0 - x));
    }
    for (T p = 1; ; p = (T) (p * 10)) { vs.insert(p); vs.insert((T) (p - 1)); if (p > L::max() / 10) break; }
    vs.insert(L::min()); vs.insert(L::max());
    for (T v : vs) num<T>(name, fld, v);
    for (long i = 0; i < budget(2000, 60000); ++i) num<T>(name, fld, (T) (rnd() >> rnd(64)));
    // in a repeated field and followed by another member
}
static void refuse( const S &name, const S &tok )
{
    note(name + tok);
    for (int rep = 0; rep < 2; ++rep)
    {
        S doc = rep ? "{\"" + name + "\":[" + tok + "]}" : "{\"" + name + "\":" + tok + "}";
        pg::Parameters p;
        bool ok;
        if (rep) { vf::Lists l; ok = l.deserialize(doc, &p); } else { vf::Scalars m; ok = m.deserialize(doc, &p); }
        if (ok) fail("accepted: " + show(doc));
        else if (p.error.code == pg::PGERR_OK) fail("refused without an error: " + show(doc));
        if (rep == 0 && name.compare(0, 2, "f_") == 0) break;
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    wide<int32_t>("f_int32", &vf::Scalars::f_int32);
    wide<int64_t>("f_int64", &vf::Scalars::f_int64);
    wide<uint32_t>("f_uint32", &vf::Scalars::f_uint32);
    wide<uint64_t>("f_uint64", &vf::Scalars::f_uint64);
    wide<int32_t>("f_sint32", &vf::Scalars::f_sint32);
    wide<int64_t>("f_sint64", &vf::Scalars::f_sint64);
    wide<uint32_t>("f_fixed32", &vf::Scalars::f_fixed32);
    wide<uint64_t>("f_fixed64", &vf::Scalars::f_fixed64);
    wide<int32_t>("f_sfixed32", &vf::Scalars::f_sfixed32);
    wide<int64_t>("f_sfixed64", &vf::Scalars::f_sfixed64);
    for (bool b : {false, true})
    {
        vf::Scalars m, r; m.f_bool = b;
        S doc, want = S("{\"f_bool\":") + (b ? "true}" : "false}");
        note(want);
        if (!m.serialize(doc) || doc != want) fail(want + " written as " + show(doc));
        if (!r.deserialize(want) || r.f_bool.empty() || (bool) r.f_bool != b) fail(want + " not read back");
    }
    // lists
    for (int i = 0; i < 3000; ++i)
    {
        vf::Lists a, b;
        for (size_t n = rnd(6); n; --n) { a.ints.push_back((int32_t) (rnd() >> rnd(64))); a.longs.push_back(rnd() >> rnd(64)); a.bools.push_back(coin()); }
        S doc; note(doc + std::to_string(i));
        if (!a.serialize(doc) || !b.deserialize(doc) || b.ints != a.ints || b.longs != a.longs || b.bools != a.bools) fail("lists not read back: " + show(doc));
    }
    static const char *WRONG[] = {"\"1\"", "\"\"", "true", "false", "{}", "[]", "[1]", "{\"a\":1}", "tru", "falsey", "nul", "x", "+1", "*", "\"true\"", ":", ",", "]", "True", "NULL"};
    for (const char *f : {"f_int32", "f_int64", "f_uint32", "f_uint64", "f_sint32", "f_sint64", "f_fixed32", "f_fixed64", "f_sfixed32", "f_sfixed64", "ints", "longs"})
        for (const char *w : WRONG)
        {
            if (f[0] != 'f' && S(w) == "]") continue;   // [] with a stray bracket is a different document
            if (f[0] == 'f') refuse(f, w);
            else
            {
                S doc = S("{\"") + f + "\":[" + w + "]}";
                note(doc);
                pg::Parameters p; vf::Lists l;
                if (l.deserialize(doc, &p)) fail("accepted: " + show(doc)); else if (p.error.code == pg::PGERR_OK) fail("refused without an error: " + show(doc));
            }
        }
    static const char *WB[] = {"1", "0", "\"true\"", "\"\"", "{}", "[]", "[true]", "tru", "truex", "True", "TRUE", "x", "-", ",", ":", "1.0"};
    for (const char *w : WB)
        for (const char *f : {"f_bool", "bools"})
        {
            S doc = S("{\"") + f + "\":" + (f[0] == 'b' ? S("[") + w + "]" : S(w)) + "}";
            note(doc);
            pg::Parameters p; vf::Lists l; vf::Scalars m;
            bool ok = f[0] == 'b' ? l.deserialize(doc, &p) : m.deserialize(doc, &p);
            if (ok) fail("accepted: " + show(doc)); else if (p.error.code == pg::PGERR_OK) fail("refused without an error: " + show(doc));
        }
    return finish();
}
