exec(open("/verif/tools/plants/sig.py").read().split("BUGS = [")[0])
SPRE = PRE
exec(open("/verif/tools/plants/misc.py").read().split("BUGS = [")[0])
exec(open("/verif/tools/plants/res.py").read().split("BUGS = [")[0])
RPRE = PRE
BUGS = [
 dict(id="s01-skip-past-last", prop="S01",
  edits=[(S, """                next = current->next;
                if (next)""", """                next = current->next;
                // Don't bother with slots disconnected in the meantime
                while (next && !next->valid())
                    next = next->next;
                if (next)""")],
  needs="during one emission the slot that was last when it began is disconnected before its turn and another slot is connected behind it",
  breaks="the emission runs past the slot it was to end at and invokes slots connected after it began",
  demo=SPRE + r'''
int main() {
    kl::signal<void()> s; int late = 0, mid = 0; kl::connection c;
    s.connect([&] { if (c.connected()) { c.disconnect(); s.connect([&] { ++late; }); } });
    c = s.connect([&] { ++mid; });
    s(); CHECK(mid == 0); CHECK(late == 0);
    s(); CHECK(late == 1);
    puts("ok");
}
'''),
 dict(id="s02-disconnect-all-already-deferred", prop="S02",
  edits=[(S, """        const bool can_remove = !emission_in_progress();
        for (slot *iter = slots_, *prev = nullptr; iter;)
        {
            iter->invalidate();""", """        const bool can_remove = !emission_in_progress();
        // Removal is already scheduled to happen after the emission
        if (!can_remove && deferred_cleanup_)
            return;
        for (slot *iter = slots_, *prev = nullptr; iter;)
        {
            iter->invalidate();""")],
  needs="disconnect-all called during an emission in which some slot was disconnected before",
  breaks="disconnect-all returns without disconnecting anything: the slots stay connected and keep being invoked",
  demo=SPRE + r'''
int main() {
    kl::signal<void()> s; int n = 0; kl::connection later;
    s.connect([&] { kl::this_signal::current_connection().disconnect(); s.disconnect_all_slots(); });
    later = s.connect([&] { ++n; });
    s();
    CHECK(n == 0); CHECK(!later.connected()); CHECK(s.num_slots() == 0);
    s(); CHECK(n == 0);
    puts("ok");
}
'''),
 B(id="r01-reinsert-at-end", prop="R01",
  edits=[(O, """                auto it = collection.begin();
                std::advance(it, index);

                rollback_value rollback{collection, copy_backup};
                collection.erase(it);
                validate_tree(r.value, ctx);
                r.state.modifications.notify_changed(full_path.drop_back(), true);
                rollback.commit();
""", """                auto it = collection.begin();
                std::advance(it, index);

                // Keep only the removed element around, not the whole collection
                auto element = *it;
                collection.erase(it);
                try
                {
                    validate_tree(r.value, ctx);
                    r.state.modifications.notify_changed(full_path.drop_back(), true);
                }
                catch (...)
                {
                    collection.push_back(std::move(element));
                    throw;
                }
""")],
  needs="a delete of an element that is not the last one, vetoed by a validator (or failing for lack of memory)",
  breaks="after a refused delete the collection has another order",
  demo=RPRE + r'''
int main() {
    auto r = make();
    CHECK(run(r, "PUT", "/min_size", "3") == 200);
    CHECK(run(r, "DELETE", "/list/2") == 409); CHECK(get(r, "/list") == "[1,2,3]");
    CHECK(run(r, "DELETE", "/list/0") == 409); CHECK(get(r, "/list") == "[1,2,3]");
    puts("ok");
}
'''),
 B(id="r01-commit-before-record", prop="R01",
  edits=[(O, """                r.state.modifications.notify_changed(path, true);
                rollback.commit();

                return operation_result{status_code::created, {}};""", """                rollback.commit();
                r.state.modifications.notify_changed(path, true);

                return operation_result{status_code::created, {}};""")],
  needs="memory runs out while a successful post is being recorded, after the element was appended",
  breaks="the post fails with out-of-memory but its element stays in the value although no change is recorded",
  demo=r'''
#include <new>
''' + RPRE + r'''
static long g_left = -1; static bool g_on = false;
void* operator new(std::size_t n) { if (g_on && g_left-- == 0) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    for (long k = 0; k < 40; ++k) {
        auto r = make(); r.value.list.reserve(16);
        kl::path p{"/list"}; rapidjson::Document d; d.Parse("7"); const rapidjson::Value& v = d; Ctx ctx;
        auto g = r.state.modifications.current(); bool failed = false;
        g_left = k; g_on = true;
        try { rs::post(r, p, v, ctx); } catch (const std::bad_alloc&) { failed = true; }
        g_on = false;
        bool changed = r.state.modifications.changed_since(kl::path{"/list"}, g);
        CHECK((get(r, "/list") == "[1,2,3,7]") == changed);
        (void)failed;
    }
    puts("ok");
}
'''),
 dict(id="t01-high-bit", prop="T01", srcs="src/base64.cpp",
  edits=[("src/base64.cpp", "[static_cast<unsigned char>(c)];", "[static_cast<unsigned char>(c) & 0x7F];")],
  needs="a byte of the text arrives with its highest bit flipped",
  breaks="a text damaged that way is decoded instead of refused",
  demo=TPRE + r'''
int main() {
    for (const char* good : {"QUJD", "QUI=", "QQ=="}) {
        CHECK(kl::base64_decode(good));
        for (int i = 0; i < 4; ++i) for (int bit = 0; bit < 8; ++bit) {
            std::string t = good; if (t[i] == '=') continue;
            t[i] = (char)(t[i] ^ (1 << bit));
            unsigned char c = (unsigned char)t[i];
            bool alpha = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/';
            if (!alpha && c != '=') CHECK(!kl::base64_decode(t));
        }
    }
    puts("ok");
}
'''),
]
