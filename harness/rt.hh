#pragma once
#include "probe.hh"
#include "all.pg.hh"
namespace pg = protogen_VERIF;

struct Res { bool ok; int code; S msg; int line, column; };
static Res last( bool ok, const pg::Parameters &p ) { return Res{ok, (int) p.error.code, p.error.message, p.error.line, p.error.column}; }
static S str( const Res &r ) { return S(r.ok ? "true" : "false") + " code=" + std::to_string(r.code) + " '" + r.msg + "' at " + std::to_string(r.line) + ":" + std::to_string(r.column); }

template<class M> bool get( M &m, const S &doc, pg::Parameters *p = nullptr ) { return static_cast<typename std::remove_reference<M>::type &>(m).deserialize(doc, p); }
template<class M> bool put( const M &m, S &doc, pg::Parameters *p = nullptr ) { return m.serialize(doc, p); }
static bool str_set( const pg::string_field &f ) { return !f.empty(); }
