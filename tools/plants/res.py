R = "include/kl/resource.hpp"; O = "include/kl/resource_op.hpp"
PRE = r'''
#include <kl/json.hpp>
#include <kl/path.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/resource.hpp>
#include <kl/resource_attributes.hpp>
#include <kl/resource_op.hpp>
#include <kl/serialization_attributes.hpp>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <string>
#include <vector>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while (0)
namespace attr = kl::resources::attributes;
namespace rs = kl::resources;
struct Ctx : kl::json::deserialize_context {};
struct Item { std::string id; int v; };
KL_REFLECT_STRUCT(Item, id, v)
struct Val { int lo; int hi; };
KL_REFLECT_STRUCT(Val, lo, hi)
struct Inner { int x; std::optional<Val> ov; };
KL_REFLECT_STRUCT(Inner, x, ov)
struct Root {
    std::vector<int> list; std::vector<Item> items; std::map<std::string, int> m; std::optional<Val> lim; std::optional<Inner> ro; int min_size;
    void validate_resource(Ctx&) const { if ((int)list.size() < min_size) throw rs::validation_error{"list too short"}; }
};
KL_REFLECT_STRUCT(Root, list, (items, attr::child_key<&Item::id>), m, lim, (ro, attr::subtree_read_only), min_size)
using Res = rs::resource<Root>;
inline int run(Res& r, const char* verb, const char* path, const char* body = nullptr)
{
    Ctx ctx; kl::path p{path}; rapidjson::Document d; if (body) { d.Parse(body); CHECK(!d.HasParseError()); }
    const rapidjson::Value& v = d; std::string s = verb;
    rs::operation_result o{};
    if (s == "PUT") o = rs::put(r, p, v, ctx);
    else if (s == "POST") o = rs::post(r, p, v, ctx);
    else if (s == "PATCH") o = rs::patch(r, p, v, ctx);
    else o = rs::del(r, p, ctx);
    return (int)o.status;
}
inline std::string get(const Res& r, const char* path)
{
    auto o = rs::get(r, kl::path{path}, [](const auto& v) { return kl::json::dump(v); });
    return (int)o.status == 200 ? o.body : std::to_string((int)o.status);
}
inline Res make() { return rs::make_resource(Root{{1, 2, 3}, {{"a", 1}, {"b", 2}, {"c", 3}}, {{"k", 1}}, Val{1, 2}, Inner{1, Val{3, 4}}, 0}); }
'''
SRCS = "src/path.cpp src/json.cpp src/serialization_error.cpp"
def B(**k): return dict(srcs=SRCS, **k)
BUGS = [
 B(id="r03-delete-notifies-element", prop="R03",
  edits=[(O, """                rollback_value rollback{collection, copy_backup};
                collection.erase(it);
                validate_tree(r.value, ctx);
                r.state.modifications.notify_changed(full_path.drop_back(), true);
                rollback.commit();
                out = operation_result{status_code::no_content, {}};
            }
            else
            {
                out = operation_result{status_code::method_not_allowed, {}};
            }
        }

        return true;
    }
    else
    {
        return false;
    }""", """                rollback_value rollback{collection, copy_backup};
                collection.erase(it);
                validate_tree(r.value, ctx);
                r.state.modifications.notify_changed(full_path, true);
                rollback.commit();
                out = operation_result{status_code::no_content, {}};
            }
            else
            {
                out = operation_result{status_code::method_not_allowed, {}};
            }
        }

        return true;
    }
    else
    {
        return false;
    }""")],
  needs="an element of an index-addressed list is deleted while a later element of the same list is being watched",
  breaks="the elements that moved to other indexes are not reported as changed",
  demo=PRE + r'''
int main() {
    auto r = make(); auto g = r.state.modifications.current();
    CHECK(run(r, "DELETE", "/list/0") == 204);
    CHECK(get(r, "/list/0") == "2");
    CHECK(r.state.modifications.changed_since(kl::path{"/list"}, g));
    CHECK(r.state.modifications.changed_since(kl::path{"/list/0"}, g));
    CHECK(r.state.modifications.changed_since(kl::path{"/list/1"}, g));
    puts("ok");
}
'''),
 B(id="r04-adjacent-duplicates", prop="R04",
  edits=[(O, """                auto second = first;
                for (++second; second != end; ++second)
                {
                    if (""", """                auto second = first;
                if (++second != end)
                {
                    if (""")],
  needs="a whole keyed collection (or an ancestor) is replaced by one that has the same key twice, but not in neighbouring positions",
  breaks="two elements with the same key are accepted",
  demo=PRE + r'''
int main() {
    auto r = make();
    CHECK(run(r, "PUT", "/items", R"([{"id":"a","v":1},{"id":"a","v":2}])") == 409);
    CHECK(run(r, "PUT", "/items", R"([{"id":"a","v":1},{"id":"b","v":2},{"id":"a","v":3}])") == 409);
    CHECK(get(r, "/items/c") == R"({"id":"c","v":3})");
    puts("ok");
}
'''),
 B(id="r04-readonly-through-optional", prop="R04",
  edits=[(O, """        if (!node.value())
            throw path_segment_not_found_error{};

        access_context child_ctx = ctx;
        child_ctx.update(node);

        return visit_node<Result>(element_node{*node.value()},
                                  path,
                                  stop_remaining,
                                  child_ctx,""", """        if (!node.value())
            throw path_segment_not_found_error{};

        return visit_node<Result>(element_node{*node.value()},
                                  path,
                                  stop_remaining,
                                  ctx,""")],
  needs="a subtree declared read-only on an optional member, and a request for something inside it",
  breaks="members below a read-only subtree can be changed when the subtree hangs on an optional",
  demo=PRE + r'''
int main() {
    auto r = make();
    CHECK(run(r, "PUT", "/ro/x", "5") == 405);
    CHECK(run(r, "DELETE", "/ro/ov") == 405);
    CHECK(run(r, "PATCH", "/ro/ov/lo", "5") == 405);
    CHECK(get(r, "/ro") == R"({"x":1,"ov":{"lo":3,"hi":4}})");
    puts("ok");
}
'''),
 B(id="r02-prefix-key", prop="R02",
  edits=[(O, "    return std::string_view{key} == segment;", "    const std::string_view text{key};\n    return segment.compare(0, text.size(), text) == 0;")],
  needs="two keyed elements one of whose keys is a prefix of the other, or a request for a missing key that extends an existing one",
  breaks="a request addressed to one element is served by another whose key is only a prefix",
  demo=PRE + r'''
int main() {
    auto r = make();
    CHECK(get(r, "/items/ab") == "404");
    CHECK(run(r, "DELETE", "/items/bx") == 404);
    CHECK(run(r, "POST", "/items", R"({"id":"ab","v":9})") == 201);
    CHECK(get(r, "/items/ab/v") == "9");
    puts("ok");
}
'''),
 B(id="r03-narrow-generation", prop="R03",
  edits=[(R, "        auto gen = generation{underlying_cast(current_) + 1};\n", "        auto gen = generation{static_cast<std::uint16_t>(underlying_cast(current_) + 1)};\n")],
  needs="more than 65535 successful updates of one resource",
  breaks="the generation counter wraps around, so an observer misses every change made after the wrap",
  demo=PRE + r'''
int main() {
    auto r = make();
    for (int i = 0; i < 70000; ++i) {
        auto g = r.state.modifications.current();
        auto n = r.state.modifications.notify_changed(kl::path{"/min_size"});
        CHECK(n > g);
        CHECK(r.state.modifications.changed_since(kl::path{"/min_size"}, g));
    }
    puts("ok");
}
'''),
]
BUGS += [
 B(id="r05-query-cache", prop="R05",
  edits=[(R, """        auto result = generation{0};

        // If any""", """        if (cached_for_ == current_ && cached_path_ == path.prefix(path.size()))
            return cached_result_;

        auto result = generation{0};

        // If any"""), (R, """                result = sub;
        }

        return result;""", """                result = sub;
        }

        cached_path_ = path.prefix(path.size());
        cached_for_ = current_;
        cached_result_ = result;
        return result;"""), (R, "    generation current_{1};\n", "    generation current_{1};\n    mutable generation cached_for_{0};\n    mutable generation cached_result_{0};\n    mutable std::string cached_path_;\n")],
  needs="two threads asking a resource that nobody changes whether paths changed, at the same time",
  breaks="reading the change record writes a shared cache: concurrent readers corrupt it or get each other's answer",
  demo=PRE + r'''
#include <thread>
int main() {
    auto r = make(); r.state.modifications.notify_changed(kl::path{"/lim/lo"}); r.state.modifications.notify_changed(kl::path{"/min_size"});
    const Res& cr = r;
    auto g1 = cr.state.modifications.changed_at(kl::path{"/lim/lo"}), g2 = cr.state.modifications.changed_at(kl::path{"/min_size"});
    CHECK(g1 != g2);
    auto work = [&](const char* p, auto want) { kl::path kp{p}; for (int i = 0; i < 1000000; ++i) CHECK(cr.state.modifications.changed_at(kp) == want); };
    std::thread a([&] { work("/lim/lo", g1); }), b([&] { work("/min_size", g2); }), c([&] { work("/items", decltype(g1){0}); }); a.join(); b.join(); c.join();
    puts("ok");
}
'''),
]
