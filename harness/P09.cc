// P09: wrappers behave as optional values (model based, random sequences of operations).
#include "rt.hh"

template<class T> struct Opt { bool set = false; T v = T(); };
template<class T> static S tos( const Opt<T> &o ) { return o.set ? "set " + std::to_string(o.v) : S("unset"); }
static S tos( const Opt<S> &o ) { return o.set ? "set '" + show(o.v) + "'" : S("unset"); }

template<class T> static T value() { switch (rnd(4)) { case 0: return T(); case 1: return (T) rnd(3); case 2: return std::numeric_limits<T>::max(); default: return (T) rnd(); } }
template<> double value<double>() { return coin(3) ? 0 : (double) (int64_t) rnd() / 7; }
template<> float value<float>() { return coin(3) ? 0 : (float) ((int) rnd(1000)) / 8; }
template<> bool value<bool>() { return coin(); }

template<class T> static void numbers( const char *name, long n )
{
    typedef pg::field<T> F;
    std::vector<F> f(3); std::vector<Opt<T>> o(3);
    S log = name;
    for (long i = 0; i < n; ++i)
    {
        if (i % 40 == 0) { for (int k = 0; k < 3; ++k) { f[k] = F(); o[k] = Opt<T>(); } log = name; }
        int a = (int) rnd(3), b = (int) rnd(3); T v = value<T>();
        S op;
        switch (rnd(12))
        {
            case 0: op = "assign value"; f[a] = v; o[a].set = true; o[a].v = v; break;
            case 1: op = "assign field"; f[a] = f[b]; o[a] = o[b]; break;
            case 2: { op = "copy construct"; F c(f[b]); f[a] = c; o[a] = o[b]; break; }
            case 3: { op = "move construct"; F t(f[b]); F c(std::move(t)); f[a] = c; o[a] = o[b]; break; }
            case 4: op = "swap"; f[a].swap(f[b]); std::swap(o[a], o[b]); break;
            case 5: op = "clear"; f[a].clear(); o[a] = Opt<T>(); break;
            case 6: op = "fresh"; f[a] = F(); o[a] = Opt<T>(); break;
            case 7: { op = "swap value"; bool was = o[a].set; T x = v, old = o[a].v; f[a].swap(x); o[a].set = true; o[a].v = v; if (was && x != old) fail(log + ": swap with a value gave the wrong old value"); break; }
            case 8: { op = "std::swap"; std::swap(f[a], f[b]); std::swap(o[a], o[b]); break; }
            case 9: { op = "assign 0"; f[a] = T(); o[a].set = true; o[a].v = T(); break; }
            case 10: { op = "json clear"; pg::json<F>::clear(f[a]); o[a] = Opt<T>(); break; }
            case 11: { op = "json swap"; pg::json<F>::swap(f[a], f[b]); std::swap(o[a], o[b]); break; }
        }
        log += "; " + op + " " + std::to_string(a) + "," + std::to_string(b);
        note(log.substr(log.size() > 120 ? log.size() - 120 : 0));
        for (int k = 0; k < 3; ++k)
        {
            if (f[k].empty() == o[k].set) { fail(log + ": field " + std::to_string(k) + " should be " + tos(o[k])); return; }
            if (pg::json<F>::empty(f[k]) == o[k].set) { fail(log + ": json empty of " + std::to_string(k)); return; }
            if (o[k].set && (T) f[k] != o[k].v) { fail(log + ": field " + std::to_string(k) + " should hold " + tos(o[k])); return; }
            for (int l = 0; l < 3; ++l)
            {
                bool e = o[k].set == o[l].set && (!o[k].set || o[k].v == o[l].v);
                if ((f[k] == f[l]) != e || (f[k] != f[l]) == e || pg::json<F>::equal(f[k], f[l]) != e) { fail(log + ": comparing " + tos(o[k]) + " and " + tos(o[l])); return; }
            }
            for (T w : {v, o[k].v, T(), (T) 1}) if ((f[k] == w) != (o[k].set && o[k].v == w)) { fail(log + ": comparing " + tos(o[k]) + " with a value"); return; }
        }
    }
}
static void strings( long n )
{
    typedef pg::string_field F;
    std::vector<F> f(3); std::vector<Opt<S>> o(3);
    S log = "string";
    for (long i = 0; i < n; ++i)
    {
        if (i % 40 == 0) { for (int k = 0; k < 3; ++k) { f[k] = F(); o[k] = Opt<S>(); } log = "string"; }
        int a = (int) rnd(3), b = (int) rnd(3); S v = coin(3) ? S() : rnd_bytes(4); S c = rnd_plain(4);
        S op;
        switch (rnd(17))
        {
            case 0: op = "assign string"; f[a] = v; o[a].set = true; o[a].v = v; break;
            case 1: op = "assign char*"; f[a] = c.c_str(); o[a].set = true; o[a].v = c; break;
            case 2: op = "assign field"; f[a] = f[b]; o[a] = o[b]; break;
            case 3: { op = "copy construct"; F t(f[b]); f[a] = t; o[a] = o[b]; break; }
            case 4: { op = "construct string"; F t(v); f[a] = t; o[a].set = true; o[a].v = v; break; }
            case 5: { op = "construct char*"; F t(c.c_str()); f[a] = t; o[a].set = true; o[a].v = c; break; }
            case 6: { op = "swap"; f[a].swap(f[b]); std::swap(o[a], o[b]); break; }
            case 7: { op = "clear"; f[a].clear(); o[a] = Opt<S>(); break; }
            case 8: { op = "empty(true)"; f[a].empty(true); o[a] = Opt<S>(); break; }
            case 9: { op = "swap value"; bool was = o[a].set; S x = v, old = o[a].v; f[a].swap(x); o[a].set = true; o[a].v = v; if (was && x != old) fail(log + ": swap with a value gave the wrong old value"); break; }
            case 10: { op = "std::swap"; std::swap(f[a], f[b]); std::swap(o[a], o[b]); break; }
            case 11: { op = "json clear"; pg::json<F>::clear(f[a]); o[a] = Opt<S>(); break; }
            case 12: { op = "json swap"; pg::json<F>::swap(f[a], f[b]); std::swap(o[a], o[b]); break; }
            case 14: { op = "through *"; S x = v.empty() ? S("q") : v; *f[a] = x; o[a].set = true; o[a].v = x; break; }
            case 15: { op = "through &"; S x = v.empty() ? S("q") : v; S &r = f[a]; r = x; o[a].set = true; o[a].v = x; break; }
            case 16: { op = "empty(false)"; f[a].empty(false); o[a].set = true; break; }
            case 13: { op = "move construct"; F t(f[b]); F m(std::move(t)); f[a] = m; o[a] = o[b]; break; }
        }
        log += "; " + op + " " + std::to_string(a) + "," + std::to_string(b);
        note(log.substr(log.size() > 120 ? log.size() - 120 : 0));
        for (int k = 0; k < 3; ++k)
        {
            if (f[k].empty() == o[k].set) { fail(log + ": field " + std::to_string(k) + " should be " + tos(o[k])); return; }
            if (pg::json<F>::empty(f[k]) == o[k].set) { fail(log + ": json empty of " + std::to_string(k)); return; }
            const F &cf = f[k];
            if (o[k].set && (*f[k] != o[k].v || *cf != o[k].v || (const S&) cf != o[k].v)) { fail(log + ": field " + std::to_string(k) + " should hold " + tos(o[k])); return; }
            for (int l = 0; l < 3; ++l)
            {
                bool e = o[k].set == o[l].set && (!o[k].set || o[k].v == o[l].v);
                if ((f[k] == f[l]) != e || (f[k] != f[l]) == e || pg::json<F>::equal(f[k], f[l]) != e) { fail(log + ": comparing " + tos(o[k]) + " and " + tos(o[l])); return; }
            }
            for (const S &w : {v, o[k].v, S(), c}) if ((f[k] == w) != (o[k].set && o[k].v == w)) { fail(log + ": comparing " + tos(o[k]) + " with a value"); return; }
            if ((f[k] == c.c_str()) != (o[k].set && o[k].v == c)) { fail(log + ": comparing with char*"); return; }
        }
    }
}
int main( int argc, char **argv )
{
    begin(argc, argv);
    long n = budget(12000, 200000);
    numbers<int32_t>("int32", n); numbers<uint32_t>("uint32", n); numbers<int64_t>("int64", n); numbers<uint64_t>("uint64", n);
    numbers<double>("double", n); numbers<float>("float", n); numbers<bool>("bool", n); strings(n * 2);
    return finish();
}
