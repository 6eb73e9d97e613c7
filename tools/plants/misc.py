CK = r'''
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while (0)
'''
FPRE = r'''
#include <kl/file_view.hpp>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <system_error>
#include <vector>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
''' + CK + r'''
static int open_fds() { int n = 0; for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) != -1; return n; }
static void put(const char* f, size_t n) { FILE* o = fopen(f, "wb"); for (size_t i = 0; i < n; ++i) fputc((int)(i * 31 % 251), o); fclose(o); }
'''
FV = "src/file_view_unix.cpp"
BPRE = r'''
#include <cstdint>
#include <kl/binary_rw.hpp>
#include <kl/binary_rw/map.hpp>
#include <kl/binary_rw/optional.hpp>
#include <kl/binary_rw/pair.hpp>
#include <kl/binary_rw/set.hpp>
#include <kl/binary_rw/string.hpp>
#include <kl/binary_rw/variant.hpp>
#include <kl/binary_rw/vector.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
''' + CK
EPRE = r'''
#include <kl/exception_info.hpp>
#include <kl/defer.hpp>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <string>
#include <vector>
''' + CK + r'''
struct ia { using type = int; }; struct ib { using type = int; }; struct is { using type = std::string; };
'''
X = "include/kl/exception_info.hpp"; D = "include/kl/defer.hpp"; BR = "include/kl/binary_rw.hpp"
TPRE = r'''
#include <kl/base64.hpp>
#include <kl/path.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
''' + CK + r'''
static std::vector<std::byte> bytes(size_t n) { std::vector<std::byte> v(n); for (size_t i = 0; i < n; ++i) v[i] = std::byte(i * 37 + 11); return v; }
'''
BUGS = [
 dict(id="f02-fd-leak-on-map-failure", prop="F02", srcs=FV,
  edits=[(FV, """    file_descriptor fd{::open(file_path, O_RDONLY)};
    if (!fd)
        throw_system_error();
""", """    const int fd = ::open(file_path, O_RDONLY);
    if (fd == -1)
        throw_system_error();
    file_descriptor guard{};
"""), (FV, """    if (mapped == MAP_FAILED)
        throw_system_error();
""", """    if (mapped == MAP_FAILED)
        throw_system_error();
    guard.reset(fd);
"""), (FV, """    if (fstat(fd, &file_info) == -1)
        throw_system_error();

    if (!file_info.st_size)
        return; // Empty file
""", """    if (fstat(fd, &file_info) == -1 || !file_info.st_size)
    {
        guard.reset(fd);
        if (errno && file_info.st_size)
            throw_system_error();
        return; // Empty file
    }
""")],
  needs="the mapping call fails (address space exhausted) after the file was opened",
  breaks="the descriptor of the file stays open when mapping it fails",
  demo=FPRE + r'''
int main() {
    put("f", 1 << 22); int before = open_fds();
    { kl::file_view v{"f"}; CHECK(v.get_bytes().size() == 1 << 22); }
    CHECK(open_fds() == before);
    rlimit old; getrlimit(RLIMIT_AS, &old); rlimit lim = old; lim.rlim_cur = 1 << 20; setrlimit(RLIMIT_AS, &lim);
    int err = 0;
    try { kl::file_view v{"f"}; } catch (const std::system_error& e) { err = e.code().value(); }
    setrlimit(RLIMIT_AS, &old);
    CHECK(err == ENOMEM);
    CHECK(open_fds() == before);
    puts("ok");
}
'''),
 dict(id="f01-size-truncated", prop="F01", srcs=FV,
  edits=[(FV, """    if (!file_info.st_size)
        return; // Empty file
""", """    const unsigned size = static_cast<unsigned>(file_info.st_size);
    if (!size)
        return; // Empty file
"""), (FV, """    void* mapped = ::mmap(nullptr, static_cast<std::size_t>(file_info.st_size),
""", """    void* mapped = ::mmap(nullptr, size,
"""), (FV, """                          static_cast<std::size_t>(file_info.st_size)};""", """                          size};""")],
  needs="a file of 4 GiB or more",
  breaks="the view of a file of 4 GiB or more shows only its first part (or nothing)",
  demo=FPRE + r'''
int main() {
    int fd = open("big", O_CREAT | O_RDWR, 0600); CHECK(ftruncate(fd, (1ll << 32) + 5) == 0); CHECK(pwrite(fd, "tail!", 5, 1ll << 32) == 5); close(fd);
    kl::file_view v{"big"};
    CHECK(v.get_bytes().size() == (1ull << 32) + 5);
    CHECK(!memcmp(v.get_bytes().data() + (1ull << 32), "tail!", 5));
    puts("ok");
}
'''),
 dict(id="b01-span-wraps", prop="B01",
  edits=[(BR, "        if (count > static_cast<std::size_t>(left()))\n            err_ = true;", "        if (pos_ + count > static_cast<std::size_t>(buffer_.size_bytes()))\n            err_ = true;")],
  needs="a damaged length close to the largest representable one, used after something was already read",
  breaks="the addition wraps around: a span reaching outside the buffer is returned and the position leaves the buffer",
  flags="-O1 -g",
  demo=BPRE + r'''
int main() {
    std::vector<std::byte> b(16); kl::binary_reader r{gsl::span<const std::byte>{b}};
    r.skip(8);
    auto s = r.span(~std::size_t{0} - 3);
    CHECK(r.err()); CHECK(s.empty()); CHECK(r.pos() == 8);
    puts("ok");
}
'''),
 dict(id="b01-set-kept-on-error", prop="B01",
  edits=[("include/kl/binary_rw/set.hpp", None, None)],
  needs="", breaks="", demo=BPRE),
 dict(id="b02-variant-index", prop="B02",
  edits=[("include/kl/binary_rw/variant.hpp", "    w << static_cast<std::uint8_t>(var.index());\n    std::visit([&w](const auto& value) { w << value; }, var);", "    w << static_cast<std::uint8_t>(var.index() & 0x07);\n    std::visit([&w](const auto& value) { w << value; }, var);")],
  needs="a variant with more than eight alternatives holding one of the later ones",
  breaks="the ninth and later alternatives of a variant are read back as another alternative",
  demo=BPRE + r'''
template <int N> struct num { std::uint8_t v{}; };
namespace kl { template <int N> void write_binary(binary_writer& w, const num<N>& n) { w << n.v; } template <int N> void read_binary(binary_reader& r, num<N>& n) { r >> n.v; } }
int main() {
    using V = std::variant<num<0>, num<1>, num<2>, num<3>, num<4>, num<5>, num<6>, num<7>, num<8>, num<9>>;
    std::vector<std::byte> b(64); kl::binary_writer w{gsl::span<std::byte>{b}};
    w << V{num<9>{42}};
    kl::binary_reader r{gsl::span<const std::byte>{b}};
    V v; r >> v; CHECK(v.index() == 9);
    puts("ok");
}
'''),
 dict(id="b03-write-partial", prop="B03",
  edits=[(BR, """        if (err_ || static_cast<std::size_t>(left()) < size)
        {
            err_ = true;
            return false;
        }

        std::memcpy(cursor(), data, size);
        pos_ += size;
""", """        if (err_)
            return false;

        // Fill up what's left of the buffer
        const std::size_t avail = left();
        std::memcpy(cursor(), data, size < avail ? size : avail);
        if (avail < size)
        {
            err_ = true;
            return false;
        }
        pos_ += size;
""")],
  needs="a value that does not fit completely into what is left of the buffer",
  breaks="part of a value that does not fit is written over bytes that should stay untouched",
  demo=BPRE + r'''
int main() {
    std::vector<std::byte> b(7, std::byte{0xEE}); kl::binary_writer w{gsl::span<std::byte>{b}};
    w << std::uint32_t{1}; w << std::uint32_t{2};
    CHECK(w.err()); CHECK(w.pos() == 4);
    for (int i = 4; i < 7; ++i) CHECK(b[i] == std::byte{0xEE});
    puts("ok");
}
'''),
 dict(id="e01-set-in-place", prop="E01",
  edits=[(X, """        push_front(std::make_shared<detail::exception_info_node<Tag>>(x));
        return *this;""", """        if (auto* current = get<Tag>())
        {
            if constexpr (std::is_copy_assignable_v<typename Tag::type>)
            {
                *current = x;
                return *this;
            }
        }
        return push_front(std::make_shared<detail::exception_info_node<Tag>>(x)), *this;""")],
  needs="an information that is set again on an object after the object was copied",
  breaks="setting an already present information on one copy changes it in all other copies",
  demo=EPRE + r'''
int main() {
    kl::exception_info a; const int one = 1, two = 2; a.set<ia>(one); kl::exception_info b{a};
    b.set<ia>(two);
    CHECK(*a.get<ia>() == 1); CHECK(*b.get<ia>() == 2);
    puts("ok");
}
'''),
 dict(id="e02-half-set", prop="E02",
  edits=[(X, """        push_front(
            std::make_shared<detail::exception_info_node<Tag>>(std::move(x)));
        return *this;""", """        auto node =
            std::make_shared<detail::exception_info_node<Tag>>(std::move(x));
        // The previous value is not reachable any more
        auto rest = std::exchange(head_, nullptr);
        push_front(std::move(node));
        head_->next = std::move(rest);
        return *this;""")],
  needs="memory runs out at the second allocation of a set",
  breaks="when setting an information fails for lack of memory, all earlier information is lost",
  demo=EPRE + r'''
static int g_fail = -1;
void* operator new(std::size_t n) { if (g_fail >= 0 && g_fail-- == 0) throw std::bad_alloc{}; void* p = std::malloc(n); if (!p) throw std::bad_alloc{}; return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    for (int k = 0; k < 4; ++k) {
        kl::exception_info a; a.set<ia>(1);
        g_fail = k; bool failed = false;
        try { a.set<ib>(2); } catch (const std::bad_alloc&) { failed = true; }
        g_fail = -1;
        CHECK(a.get<ia>() && *a.get<ia>() == 1);
        CHECK(failed ? a.get<ib>() == nullptr : *a.get<ib>() == 2);
    }
    puts("ok");
}
'''),
 dict(id="d01-skipped-nested-unwind", prop="D01",
  edits=[(D, "    ~scope_exit_t() { fun_(); }", "    ~scope_exit_t()\n    {\n        // Guard against running twice while several exceptions are in flight\n        if (std::uncaught_exceptions() < 2)\n            fun_();\n    }"),
         (D, '#include "kl/detail/macros.hpp"\n', '#include "kl/detail/macros.hpp"\n\n#include <exception>\n')],
  needs="a scope inside a deferred action (run during unwinding) is itself left by an exception which that action handles",
  breaks="actions deferred in a scope that is left by an exception while another exception is already unwinding do not run",
  demo=EPRE + r'''
int main() {
    int ran = 0;
    try {
        KL_DEFER({ try { KL_DEFER(++ran); throw 2; } catch (int) { ++ran; } });
        throw 1;
    } catch (int) { }
    CHECK(ran == 2);
    puts("ok");
}
'''),
 dict(id="t02-pop-keeps-slash", prop="T02", srcs="src/path.cpp",
  edits=[("src/path.cpp", "    value_.erase(offset == 0 ? offset : offset - 1);\n", "    value_.erase(offset);\n"),
         ("src/path.cpp", "    if (!value_.empty())\n        value_ += '/';\n", "    if (!value_.empty() && value_.back() != '/')\n        value_ += '/';\n")],
  needs="a path that goes down, back up with '..' and ends there (so that a trailing separator remains in the stored text)",
  breaks="joined text and prefixes no longer agree with the segments after '..'",
  demo=TPRE + r'''
int main() {
    kl::path p{"/a/b/.."};
    CHECK(p.size() == 1); CHECK(p.joined(0) == "a");
    kl::path q{"/a/b/../c"}; CHECK(q.joined(0) == "a/c"); CHECK(q[1] == "c");
    kl::path z{"/a/b/../../c/%25"}; CHECK(z.size() == 2); CHECK(z.joined(0) == "c/%");
    puts("ok");
}
'''),
 dict(id="t03-static-scratch", prop="T03", srcs="src/path.cpp",
  edits=[("src/path.cpp", "    const auto offset = value_.size();\n\n    for (std::size_t i = 0; i < segment.size();)", "    const auto offset = value_.size();\n    static std::string scratch;\n    scratch.clear();\n\n    for (std::size_t i = 0; i < segment.size();)"),
         ("src/path.cpp", "            value_ += segment[i++];\n", "            scratch += segment[i++];\n"),
         ("src/path.cpp", "        value_ += ch;\n        i += 3;\n    }\n", "        scratch += ch;\n        i += 3;\n    }\n    value_ += scratch;\n")],
  needs="two threads decoding path segments at the same time",
  breaks="threads parsing unrelated paths corrupt each other's segments",
  demo=TPRE + r'''
int main() {
    auto work = [](char c) {
        std::string seg(40, c), text = "/" + seg + "/" + seg + "%41";
        for (int i = 0; i < 200000; ++i) { kl::path p{text}; CHECK(p.size() == 2 && p[0] == seg && p[1] == seg + "A"); }
    };
    std::thread a(work, 'x'), b(work, 'y'), c(work, 'z'); a.join(); b.join(); c.join();
    puts("ok");
}
'''),
]
BUGS = [b for b in BUGS if b["edits"][0][1]]
