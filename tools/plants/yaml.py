
Y = "include/kl/yaml.hpp"
SHIM = open(V + "/harness/yamlshim/yaml-cpp/node/type.h").read() if "V" in globals() else open("/verif/harness/yamlshim/yaml-cpp/node/type.h").read()
PRE = r"""
#include <kl/yaml.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/serialization_attributes.hpp>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
#include <optional>
#include <string>
#include <thread>
#include <vector>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while (0)
"""
def B(**k): return dict(srcs="src/yaml.cpp src/serialization_error.cpp", libs="-l:libyaml-cpp.a", files={"shim/yaml-cpp/node/type.h": SHIM}, **k)
BUGS = [
 B(id="y01-empty-is-null", prop="Y01", flags='-O1 -g -I"$here/shim"',
  edits=[(Y, "static bool is_null(const value_type& value) { return !value || value.IsNull(); }", "static bool is_null(const value_type& value) { return !value || value.IsNull() || (value.IsScalar() && value.Scalar().empty()); }")],
  needs="an optional text (or a member with a default) whose value in the document is the empty text", breaks="an empty text is read as absent: an optional loses its value, a default replaces it",
  demo=PRE + r"""
struct S { int a; std::optional<std::string> o; }; KL_REFLECT_STRUCT(S, a, o)
int main() { S s{1, std::string{}}; S t{2, std::string{"x"}}; kl::yaml::deserialize(t, kl::yaml::serialize(s)); CHECK(t.a == 1); CHECK(t.o.has_value()); CHECK(t.o->empty()); }
"""),
 B(id="y02-emitter-leak", prop="Y02", flags='-O1 -g -I"$here/shim" ',
  edits=[(Y, """    YAML::Emitter emitter;
    dump_context ctx{emitter};

    yaml::dump(obj, ctx);
    return {emitter.c_str()};""", """    // The emitter is too big for small stacks
    auto emitter = new YAML::Emitter;
    dump_context ctx{*emitter};

    yaml::dump(obj, ctx);
    std::string text{emitter->c_str()};
    delete emitter;
    return text;""")],
  needs="memory running out (or user code throwing) while an object is dumped", breaks="the emitter and everything written so far leaks when dumping fails",
  demo=PRE + r"""
long live;
void* operator new(std::size_t n) { ++live; void* p = std::malloc(n); if (!p) std::abort(); return p; }
void operator delete(void* p) noexcept { if (p) { --live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --live; std::free(p); } }
struct Bad { int n; };
template <typename C> void dump_adl(kl::yaml::stream_tag, const Bad&, C&) { throw std::bad_alloc{}; }
struct S { int a; Bad b; }; KL_REFLECT_STRUCT(S, a, b)
int main() { long first = 0; for (int i = 0; i < 5; ++i) { bool thrown = false; try { kl::yaml::dump(S{}); } catch (const std::bad_alloc&) { thrown = true; } CHECK(thrown); if (i == 1) first = live; } CHECK(live == first); }
"""),
 B(id="y03-lazy-null", prop="Y03", flags='-O1 -g -I"$here/shim" -fsanitize=thread',
  edits=[(Y, """    static const auto null_value = YAML::Node{};
    return null_value;""", """    // Constructed on first use, intentionally never destroyed
    static const YAML::Node* null_value = nullptr;
    if (!null_value)
        null_value = new YAML::Node{};
    return *null_value;""")],
  needs="two threads reading documents with missing members for the first time in the process at the same moment", breaks="the shared null node is published without synchronisation: threads race on it",
  demo=PRE + r"""
struct S { int a; std::optional<int> o; }; KL_REFLECT_STRUCT(S, a, o)
int main() { std::atomic<int> go{0}; auto f = [&] { auto d = kl::yaml::parse("{a: 1}"); ++go; while (go < 2) {} for (int i = 0; i < 50; ++i) { S s{}; kl::yaml::deserialize(s, d); if (s.a != 1 || s.o) std::_Exit(1); } }; std::thread x(f), y(f); x.join(); y.join(); }
"""),
 B(id="y01-member-inserted", prop="Y01", flags='-O1 -g -I"$here/shim"',
  edits=[(Y, """    auto query = map[member_name];
    return query ? query : detail::get_null_value();""", """    YAML::Node handle{map};
    YAML::Node query{handle[member_name]};
    if (!query)
        query = detail::get_null_value();
    return query;""")],
  needs="a document without a member that is looked up (optional member), which is used again afterwards", breaks="looking up a missing member adds it, as null, to the document being read",
  demo=PRE + r"""
struct S { int a; std::optional<int> o; }; KL_REFLECT_STRUCT(S, a, o)
int main() { auto d = kl::yaml::parse("{a: 1}"); S s{}; kl::yaml::deserialize(s, d); CHECK(s.a == 1 && !s.o); CHECK(d.size() == 1); CHECK(!d["o"]); }
"""),
]
