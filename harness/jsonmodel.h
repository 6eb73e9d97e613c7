// Reference model of (de)serialization for the JSON harness: an independent, schema-driven description of what a
// document says about a value. It shares no code with kl (field names and attributes are written down again).
#pragma once
#include "jmodel.h"
#include <map>
namespace jm {
enum Kind { I8, I16, I32, I64, U8, U16, U32, U64, BOOL, F32, F64, STR, ENUM, PENUM, ESET, SEQ, FIX, TUP, OPT, MAP, STRUCT, VIEW, TICKET, POINT, TRIPLE };
enum Flag { SKIPS = 1, SKIPD = 2, EMITNULL = 4, SKIPNULL = 8, ALLOWMISS = 16, SKIPEMPTY = 32, FLAT = 64, EXTRA = 128, HASDEF = 256, VALID = 512 };
struct V { // a C++ value, generically
    int k = 0; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s; std::vector<V> a; std::vector<std::string> keys; // MAP: keys sorted, a parallel
};
struct Schema;
struct FieldS { const char* name; const Schema* s; unsigned flags = 0; const char* rename = nullptr; std::vector<const char*> aliases; int64_t di = 0; const char* ds = nullptr; double lo = 0, hi = 0; };
struct Schema { Kind k; const Schema* e = nullptr; std::vector<const Schema*> t; std::vector<FieldS> f; std::vector<std::pair<int64_t, const char*>> names; unsigned n = 0; const char* tn = ""; bool uniq_elems = false; };
struct Err { std::vector<std::string> path; bool dup = false; bool badkey = false; }; // names of the fields on the way to the offending place; dup: duplicate members were met
V defv(const Schema&);
bool deser(const Schema&, const J*, V&, Err&);
bool patch(const Schema&, const J*, V&, Err&);
enum SerRes { S_OK, S_COLLISION };
SerRes ser(const Schema&, const V&, bool skip_null, J& out);
bool veq(const V&, const V&);
std::string vtext(const V&);
bool has_dup(const J&);
}
