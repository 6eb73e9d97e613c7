// Reference model of a document resource (compiled without instrumentation: it is not code under test).
#pragma once
#include "jmodel.h"
#include <cstdint>
#include <string>
#include <vector>
enum K { INT, BOOL, STR, STRUCT, OPT, VEC, ARRAY, MAP };
struct V {
    int64_t i = 0; std::string s; bool p = false; std::vector<V> c; std::vector<std::string> k;
    bool operator==(const V& o) const;
    bool operator!=(const V& o) const { return !(*this == o); }
    V(); V(const V&); V(V&&) noexcept; V& operator=(const V&); V& operator=(V&&) noexcept; ~V();
};
struct Sch;
struct Fld { std::string name; const Sch* s; bool ro = false, sro = false; int key = -1; bool allow_missing = false; bool has_def = false; V def; bool has_init = false; V init; std::vector<std::string> aliases; };
struct Sch { K k; const Sch* e = nullptr; int n = 0; std::vector<Fld> f; int validator = 0; bool post = false, indexed = false; };
using Segs = std::vector<std::string>;
enum Verb { GET, PUT, POST, PATCH, DEL };
extern const char* kVerb[];
struct Outcome { int status = 0; bool changed = false; Segs at; bool ro_refused = false, loose = false; /* addresses a position by a spelling other than its plain one */ J body; std::vector<std::string> msgs; };
struct Msg { int id; Verb verb; std::string path, body; };
extern Sch sRoot;
extern int f_n, f_leaf, f_items, f_im, f_vi, f_lm, f_leaves;
void init_schema();
void validate(const Sch* s, const V& v, int key, std::vector<std::string>& out);
Outcome apply(V& root, Verb verb, const Segs& p, const J& body);
V gen_value(const Sch* s, int key, int depth);
Segs gen_path(const V& root, bool watch);
bool read_path(std::string t, Segs& out);
std::string diff(const Sch* s, const V& a, const V& b, std::string at);
Msg gen_msg(const V& model, int id);
