exec(open("/verif/tools/plants/sig.py").read().split("BUGS = [")[0])
SPRE = PRE
exec(open("/verif/tools/plants/misc.py").read().split("BUGS = [")[0])
XI = "include/kl/exception_info.hpp"; FU = "src/file_view_unix.cpp"; B6 = "src/base64.cpp"; PA = "src/path.cpp"; PHH = "include/kl/path.hpp"; BV = "include/kl/binary_rw/vector.hpp"; SG = "include/kl/signal.hpp"
INC = '''#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <new>
#include <string>
#include <system_error>
#include <vector>
''' + CK
BUGS = [
 dict(id="f01-asks-to-write", prop="F01",
  edits=[(FU, "O_RDONLY", "O_RDWR")],
  needs="a file that may be read but not written (read-only permission or file system, a program being executed)",
  breaks="a perfectly readable file is refused with an error that reading does not cause",
  srcs="src/file_view_unix.cpp",
  demo="#include <kl/file_view.hpp>\n" + INC + r'''
int main() { // a running program cannot be opened for writing, by anybody
    bool ok = false;
    try { kl::file_view v{"/proc/self/exe"}; auto b = v.get_bytes(); ok = b.size() > 4 && b[0] == std::byte{0x7f} && b[1] == std::byte{'E'}; }
    catch (const std::system_error& e) { std::printf("%s\n", e.what()); }
    CHECK(ok);
    puts("ok");
}
'''),
 dict(id="t01-narrow-groups", prop="T01",
  edits=[(B6, """    for (std::size_t i = 0U; i < full_quad; ++i)
    {
        *dst++ = lookup(src[0] >> 2);""", """    const auto num_groups = static_cast<std::uint16_t>(full_quad);
    for (std::uint16_t i = 0U; i < num_groups; ++i)
    {
        *dst++ = lookup(src[0] >> 2);""")],
  needs="a payload of 196608 bytes or more",
  breaks="only the beginning (or nothing) of a large payload is encoded",
  srcs="src/base64.cpp",
  demo="#include <kl/base64.hpp>\n" + INC + r'''
int main() {
    std::vector<std::byte> b(196608 + 5); for (std::size_t i = 0; i < b.size(); ++i) b[i] = std::byte(i * 7);
    auto t = kl::base64_encode(b); auto d = kl::base64_decode(t);
    CHECK(t.find('\0') == std::string::npos); CHECK(d && *d == b);
    puts("ok");
}
'''),
 dict(id="t02-narrow-offsets", prop="T02",
  edits=[(PHH, "    std::size_t offset;\n    std::size_t length;", "    std::uint16_t offset;\n    std::uint16_t length;"), (PHH, "#include <cstddef>\n", "#include <cstddef>\n#include <cstdint>\n"),
         (PA, "segments_.push_back({offset, value_.size() - offset});", "segments_.push_back({static_cast<std::uint16_t>(offset),\n                         static_cast<std::uint16_t>(value_.size() - offset)});")],
  needs="a path text longer than 65535 characters",
  breaks="segments beyond the first 64 KiB designate other parts of the text",
  srcs="src/path.cpp",
  demo="#include <kl/path.hpp>\n" + INC + r'''
int main() {
    std::string t; for (int i = 0; i < 700; ++i) t += "/" + std::string(100, char('a' + i % 26));
    kl::path p{t}; CHECK(p.size() == 700);
    for (int i = 0; i < 700; ++i) CHECK(p[(std::size_t)i] == std::string(100, char('a' + i % 26)));
    puts("ok");
}
'''),
 dict(id="s04-weak-not-kept", prop="S04",
  edits=[(SG, """                if (auto ptr = instance.lock())
                    ((*ptr).*mem_func)(std::forward<Args>(args)...);""", """                if (auto* ptr = instance.lock().get())
                    ((*ptr).*mem_func)(std::forward<Args>(args)...);""", 2)],
  needs="the last owner of a weakly connected receiver lets go of it while the receiver's slot is running (in the slot itself or in another thread)",
  breaks="the receiver is destroyed under its running member function",
  demo="#include <kl/signal.hpp>\n" + INC + r'''
struct rec { std::shared_ptr<rec>* owner; bool* dead; bool* bad; ~rec() { *dead = true; } void on() { auto* d = dead; auto* b = bad; owner->reset(); *b = *d; } };
int main() {
    bool dead = false, bad = false; std::shared_ptr<rec> r(new rec{nullptr, &dead, &bad}); r->owner = &r;
    kl::signal<void()> s; s.connect(&rec::on, std::weak_ptr<rec>(r));
    s(); CHECK(!bad); CHECK(dead);
    puts("ok");
}
'''),
]
