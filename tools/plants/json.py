SZ = "include/kl/detail/serialization.hpp"; J = "include/kl/json.hpp"
PRE = r'''
#include <kl/json.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/serialization_attributes.hpp>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <thread>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while (0)
namespace ser = kl::serialization::attributes;
struct Head { int a; int b; };
KL_REFLECT_STRUCT(Head, a, b)
struct Rec { Head head; int c; std::map<std::string, int> more; };
KL_REFLECT_STRUCT(Rec, (head, ser::flatten), c, (more, ser::extra_fields))
struct Al { int now; };
KL_REFLECT_STRUCT(Al, (now, ser::aliases("old", "older"), ser::default_value(7)))
struct Nums { std::int8_t i8; std::uint8_t u8; std::int16_t i16; };
KL_REFLECT_STRUCT(Nums, i8, u8, i16)
template <typename T> bool load(T& t, const char* s)
{
    rapidjson::Document d; d.Parse(s); CHECK(!d.HasParseError());
    kl::json::deserialize_context ctx;
    try { kl::json::deserialize(t, d, ctx); return true; } catch (const kl::serialization::deserialize_error&) { return false; }
}
'''
SRCS = "src/json.cpp src/serialization_error.cpp"
def B(**k): return dict(srcs=SRCS, **k)
OLD = """        static const string_set names = [] {
            string_set result;
            std::size_t extra_fields_count = 0;
            ctti::reflect_type<Reflectable, validator_attribute_filter>(
                [&result, &extra_fields_count](auto field) {
                    check_field_attributes<decltype(field)>();
                    collect_field_reserved_names(result, extra_fields_count, field);
                });
            return result;
        }();
        return &names;"""
BUGS = [
 B(id="j01-lazy-reserved-names", prop="J01",
  edits=[(SZ, OLD, """        static string_set names;
        if (names.empty())
        {
            std::size_t extra_fields_count = 0;
            ctti::reflect_type<Reflectable, validator_attribute_filter>(
                [&extra_fields_count](auto field) {
                    check_field_attributes<decltype(field)>();
                    collect_field_reserved_names(names, extra_fields_count, field);
                });
        }
        return &names;""")],
  needs="two threads (de)serializing the same flattened or extra-field type for the first time in the process at the same moment",
  breaks="the table of reserved names is built without synchronisation: threads corrupt it or report a collision that does not exist",
  demo=PRE + r'''
int main() {
    for (int i = 0; i < 1500; ++i) {
        pid_t p = fork();
        if (!p) {
            fclose(stderr);
            std::atomic<int> ready{0}, bad{0};
            auto work = [&] {
                ++ready; while (ready < 4) {}
                try { Rec r{{1, 2}, 3, {{"x", 4}}}; if (kl::json::dump(r) != R"({"a":1,"b":2,"c":3,"x":4})") ++bad; } catch (...) { ++bad; }
            };
            std::vector<std::thread> t; for (int k = 0; k < 4; ++k) t.emplace_back(work);
            for (auto& x : t) x.join();
            _exit(bad != 0);
        }
        int st = 0; waitpid(p, &st, 0);
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    }
    puts("ok");
}
'''),
 B(id="j02-once-half-built", prop="J02",
  edits=[(SZ, OLD, """        static string_set names;
        static std::once_flag built;
        std::call_once(built, [] {
            std::size_t extra_fields_count = 0;
            ctti::reflect_type<Reflectable, validator_attribute_filter>(
                [&extra_fields_count](auto field) {
                    check_field_attributes<decltype(field)>();
                    collect_field_reserved_names(names, extra_fields_count, field);
                });
        });
        return &names;"""), (SZ, "#include <optional>\n", "#include <mutex>\n#include <optional>\n")],
  needs="memory runs out in the middle of the very first use of a flattened or extra-field type, and the operation is repeated later",
  breaks="after a first use that ran out of memory every later use reports a name collision that does not exist",
  demo=PRE + r'''
static int g_fail = -1;
void* operator new(std::size_t n) { if (g_fail >= 0 && g_fail-- == 0) throw std::bad_alloc{}; void* p = std::malloc(n); if (!p) throw std::bad_alloc{}; return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    for (int k = 0; k < 12; ++k) {
        pid_t p = fork();
        if (!p) {
            Rec r{{1, 2}, 3, {{"x", 4}}};
            g_fail = k; try { (void)kl::json::dump(r); } catch (const std::bad_alloc&) {}
            g_fail = -1;
            try { CHECK(kl::json::dump(r) == R"({"a":1,"b":2,"c":3,"x":4})"); } catch (...) { _exit(2); }
            _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    }
    puts("ok");
}
'''),
 B(id="j01-static-type-name", prop="J01",
  edits=[("src/json.cpp", "    return kl::to_string(value.GetType());\n", "    static std::string name;\n    name = kl::to_string(value.GetType());\n    return name;\n")],
  needs="two threads refusing ill-typed documents at the same time",
  breaks="threads reporting a type error share one buffer: messages get mixed up or memory is corrupted",
  demo=PRE + r'''
int main() {
    auto work = [](const char* text, const char* expect) {
        rapidjson::Document d; d.Parse(text);
        for (int i = 0; i < 100000; ++i) {
            kl::json::deserialize_context ctx; int v; bool got = false;
            try { kl::json::deserialize(v, d, ctx); } catch (const kl::serialization::deserialize_error& e) { got = std::string(e.what()).find(expect) != std::string::npos; }
            CHECK(got);
        }
    };
    std::thread a(work, "\"s\"", "kStringType"), b(work, "{}", "kObjectType"), c(work, "null", "kNullType"); a.join(); b.join(); c.join();
    puts("ok");
}
'''),
 B(id="j03-null-canonical", prop="J03",
  edits=[(SZ, """    if (Backend::has_field(value, canonical))
        return canonical;

    if constexpr""", """    const bool has_canonical = Backend::has_field(value, canonical);
    if (has_canonical && !Backend::is_null(Backend::at_field(value, canonical)))
        return canonical;

    if constexpr"""), (SZ, """                return alias;
        }
    }

    return nullptr;""", """                return alias;
        }
    }

    return has_canonical ? canonical : nullptr;""")],
  needs="a document with both the current name of a member, explicitly null, and one of its aliases",
  breaks="an explicit null under the current name is overridden by a value under an old name",
  demo=PRE + r'''
int main() {
    Al a{0}; CHECK(load(a, R"({"now":null})") && a.now == 7);
    a.now = 0; CHECK(load(a, R"({"old":3})") && a.now == 3);
    a.now = 0; CHECK(load(a, R"({"old":3,"now":null})") && a.now == 7);
    puts("ok");
}
'''),
 B(id="j04-extras-first-wins", prop="J04",
  edits=[(SZ, """                        auto existing = extras.find(key_value);
                        if (existing != extras.end())
                        {
                            Backend::patch(existing->second, node, ctx);
                        }""", """                        auto existing = std::find_if(
                            extras.begin(), extras.end(), [&key_value](const auto& item) {
                                return item.first.compare(0, key_value.size(), key_value) == 0;
                            });
                        if (existing != extras.end())
                        {
                            Backend::patch(existing->second, node, ctx);
                        }"""), (SZ, "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n")],
  needs="a node that does not know two members, one of whose names is a prefix of the other, receives a patch naming only the shorter",
  breaks="a patch of a member unknown to an old node overwrites another unknown member instead of adding the named one",
  demo=PRE + r'''
int main() {
    Rec r{{1, 2}, 3, {{"tags", 4}}};
    rapidjson::Document d; d.Parse(R"({"tag":9})");
    kl::json::deserialize_context ctx; kl::json::patch(r, d, ctx);
    CHECK(r.more.size() == 2); CHECK(r.more["tags"] == 4); CHECK(r.more["tag"] == 9);
    puts("ok");
}
'''),
]
