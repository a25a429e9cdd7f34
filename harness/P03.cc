// P03: literals are decoded exactly or refused.
#include "rt.hh"

static void one( const S &lit, bool valid, const S &v, bool top = true )
{
    note(lit);
    pg::Parameters p;
    vf::Pair m;
    S doc = "{\"x\":" + lit + ",\"y\":7}";
    bool ok = m.deserialize(doc, &p);
    if (valid)
    {
        if (!ok) { fail("valid literal refused: " + show(doc) + " error '" + p.error.message + "'"); return; }
        if (m.x.empty() || *m.x != v) fail("literal " + show(lit) + " decoded to " + show(*m.x) + " instead of " + show(v));
        else if (m.y.empty() || (int32_t) m.y != 7) fail("the member after " + show(lit) + " was lost");
    }
    else if (ok) fail("malformed literal accepted: " + show(doc) + " as " + show(*m.x));
    else if (p.error.code == pg::PGERR_OK) fail("refused without an error: " + show(doc));
    if (top)
    {
        std::vector<pg::string_field> l;
        S d2 = "[" + lit + "]";
        bool k = pg::deserialize_array(l, d2, &p);
        if (k != valid) fail("in an array: " + show(d2) + (k ? " accepted" : " refused"));
        else if (k && (l.size() != 1 || *l[0] != v)) fail("in an array: " + show(d2) + " decoded wrongly");
    }
}
static S u( uint32_t c, int style )
{
    char b[16];
    snprintf(b, sizeof b, style == 0 ? "\\u%04x" : "\\u%04X", c);
    S s = b;
    if (style == 2) for (size_t i = 2; i < s.size(); i += 2) if (s[i] >= 'A' && s[i] <= 'F') s[i] = (char) (s[i] + 32);
    return s;
}
// a literal body with its value; returns false if it is malformed
static bool build( S &body, S &v, int n, bool allow_bad )
{
    bool good = true;
    for (int i = 0; i < n; ++i)
    {
        switch (rnd(allow_bad ? 12 : 8))
        {
            case 0: { static const char *E = "\"\\/bfrnt"; static const char R[] = "\"\\/\b\f\r\n\t"; size_t k = rnd(8); body += '\\'; body += E[k]; v += R[k]; break; }
            case 1: { uint32_t c = (uint32_t) rnd(0x10000); if (c >= 0xD800 && c <= 0xDFFF) c = 0x20AC; body += u(c, (int) rnd(3)); put_utf8(v, c); break; }
            case 2: { uint32_t c = 0x10000 + (uint32_t) rnd(0x100000); body += u(0xD800 + ((c - 0x10000) >> 10), (int) rnd(3)); body += u(0xDC00 + (c & 0x3FF), (int) rnd(3)); put_utf8(v, c); break; }
            case 3: { char c = (char) (0x80 + rnd(128)); body += c; v += c; break; }
            case 4: { static const char T[] = "{}[]:,'#/ u0dD"; char c = T[rnd(sizeof(T) - 1)]; body += c; v += c; break; }
            case 8: { if (!coin(3)) break; body += '\\'; static const char B[] = "axU01'vN e8{"; body += B[rnd(sizeof(B) - 1)]; good = false; break; }
            case 9: { if (!coin(3)) break; S x = u((uint32_t) rnd(0x10000), (int) rnd(3)); static const char B[] = "gGxz:/@`-+ .\x7f"; x[2 + rnd(4)] = B[rnd(sizeof(B) - 1)]; body += x; good = false; break; }
            case 10: { if (!coin(3)) break; body += u(0xDC00 + (uint32_t) rnd(0x400), 0); good = false; break; }
            case 11: { if (!coin(3)) break; body += u(0xD800 + (uint32_t) rnd(0x400), 0);
                       switch (rnd(5)) { case 0: body += 'a'; break; case 1: body += "\\n"; break; case 2: body += u(0x41, 0); break; case 3: body += u(0xD800 + (uint32_t) rnd(0x400), 0); break; case 4: body += "\\\""; }
                       good = false; break; }
            default: { char c = (char) (32 + rnd(95)); if (c == '"' || c == '\\') c = 'q'; body += c; v += c; }
        }
    }
    return good;
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    one("\"\"", true, "");
    // every single character after a backslash
    for (int c = 0; c < 256; ++c)
    {
        if (c == 'u') continue;
        const char *E = "\"\\/bfrnt"; const char *R = "\"\\/\b\f\r\n\t";
        const char *k = c ? strchr(E, c) : nullptr;
        S lit = "\"a\\"; lit += (char) c; lit += "z\"";
        one(lit, k != nullptr, k ? S("a") + R[k - E] + "z" : "");
    }
    // every raw byte
    for (int c = 1; c < 256; ++c) if (c != '"' && c != '\\') one(S("\"") + (char) c + "\"", true, S(1, (char) c));
    { S l = "\"a"; l += '\0'; l += "b\""; one(l, false, ""); }
    // every \uXXXX
    for (uint32_t c = 0; c < 0x10000; ++c)
    {
        S v;
        bool ok = !(c >= 0xD800 && c <= 0xDFFF);
        if (ok) put_utf8(v, c);
        one("\"" + u(c, (int) (c % 3)) + "\"", ok, v, c % 16 == 0);
    }
    // surrogate pairs
    for (uint32_t l = 0xD7FE; l <= 0xDC01; l += (l < 0xD802 || l > 0xDBFC) ? 1 : 1 + (uint32_t) rnd(8))
        for (uint32_t t : {0xDBFFu, 0xDC00u, 0xDC01u, 0xDDFFu, 0xDFFEu, 0xDFFFu, 0xE000u, 0x41u, 0xD800u})
        {
            bool ll = l >= 0xD800 && l <= 0xDBFF, tt = t >= 0xDC00 && t <= 0xDFFF;
            bool alone = l < 0xD800 && !(t >= 0xD800 && t <= 0xDFFF);
            S v;
            if (ll && tt) put_utf8(v, 0x10000 + ((l - 0xD800) << 10) + (t - 0xDC00));
            else if (alone) { put_utf8(v, l); put_utf8(v, t); }
            one("\"" + u(l, 0) + u(t, 1) + "\"", (ll && tt) || alone, v, false);
        }
    // a bad digit at each place
    for (int k = 0; k < 4; ++k)
        for (int c = 1; c < 256; ++c)
        {
            if (isxdigit(c)) continue;
            S x = "\\u00e9"; x[2 + k] = (char) c;
            one("\"" + x + "\"", false, "", false);
        }
    // unterminated
    for (const char *t : {"\"", "\"abc", "\"abc\\", "\"abc\\\"", "\"\\u", "\"\\u12", "\"\\ud800", "\"\\ud800\\", "\"\\ud800\\udc0"})
    {
        pg::Parameters p; vf::Pair m; S doc = S("{\"x\":") + t;
        note(doc);
        if (m.deserialize(doc, &p)) fail("unterminated literal accepted: " + show(doc));
        else if (p.error.code == pg::PGERR_OK) fail("refused without an error: " + show(doc));
    }
    for (long i = 0; i < budget(40000, 600000); ++i)
    {
        S body, v;
        bool good = build(body, v, 1 + (int) rnd(12), coin());
        one("\"" + body + "\"", good, v, coin(8));
    }
    return finish();
}
