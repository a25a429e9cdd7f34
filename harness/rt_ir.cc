// Instantiates the runtime code and the generated code so that the verifier can read its IR.
// Nothing here is verified itself.
#include "all.pg.hh"
#include <list>

namespace pg = protogen_VERIF;

template<class M> bool use( M &m, std::string &s, std::vector<char> &v, std::istream &is, std::ostream &os, char *p, size_t n )
{
    pg::Parameters params;
    bool r = m.deserialize(s, &params) && m.deserialize(v, &params) && m.deserialize(is, &params) && m.deserialize((const char*) p, n, &params);
    r = r && m.serialize(s, &params) && m.serialize(v, &params) && m.serialize(os, &params) && m.serialize(p, n, &params);
    M other(m);
    r = r && m.equal(other) && !m.empty();
    m.swap(other);
    m.clear();
    return r;
}

template<class T> void fields( pg::field<T> &a, pg::field<T> &b, T v )
{
    pg::field<T> c; pg::field<T> d(a); pg::field<T> e(std::move(d));
    a = b; a = v; a.swap(b); a.swap(v); a.clear();
    bool r = a.empty() | (a == b) | (a != b) | (a == v) | (a != v);
    v = (T) a; if (r) b = c;
    pg::json<T>::empty(v); pg::json<T>::equal(v, v);
    (void) e;
}

bool driver( std::string &s, std::vector<char> &v, std::istream &is, std::ostream &os, char *p, size_t n )
{
    vf::Scalars a; vf::Lists b; vf::Mixed c; vf::Pair d; vf::Ghost e; vf::Void f; vf::Inner g;
    bool r = use(a,s,v,is,os,p,n) & use(b,s,v,is,os,p,n) & use(c,s,v,is,os,p,n) & use(d,s,v,is,os,p,n) & use(e,s,v,is,os,p,n) & use(f,s,v,is,os,p,n) & use(g,s,v,is,os,p,n);
    pg::Parameters params;
    std::vector<vf::Pair> l;
    std::vector<int32_t> li;
    r &= pg::deserialize_array(l, s, &params) & pg::deserialize_array(l, v, &params) & pg::deserialize_array(l, p, n, &params);
    r &= pg::serialize_array(l, s, &params) & pg::serialize_array(l, v, &params);
    r &= pg::deserialize_array(li, s, &params) & pg::serialize_array(li, s, &params);
    fields<int32_t>(a.f_int32, a.f_sint32, 0);
    fields<uint32_t>(a.f_uint32, a.f_fixed32, 0);
    fields<int64_t>(a.f_int64, a.f_sint64, 0);
    fields<uint64_t>(a.f_uint64, a.f_fixed64, 0);
    fields<double>(a.f_double, a.f_double, 0);
    fields<float>(a.f_float, a.f_float, 0);
    fields<bool>(a.f_bool, a.f_bool, 0);
    pg::string_field x, y(x), z(std::move(y)), w(s), u("abc");
    x.swap(z); x.swap(s); x.empty(true); x.clear(); x = z; x = s; x = "abc";
    r &= x.empty() | (x == "a") | (x != "a") | (x == s) | (x != s) | (x == z) | (x != z);
    s = *x; const pg::string_field &cx = x; s = *cx; s = (std::string&) x; s = (const std::string&) cx;
    pg::reveal(s);
    return r;
}
