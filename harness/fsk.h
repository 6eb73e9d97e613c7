// Simulated kernel for the file-view harness: paths, descriptors, mappings, failures. Uninstrumented.
#pragma once
#include <cstddef>
#include <cstdint>
namespace fsk {
constexpr int kFiles = 8;
void init(int free_low_fds, int fault_rate);                 // builds the directory; fault_rate: 0 none .. 3 high
const char* path(int f);
void replace_file(int f);                                    // another process atomically replaces the file
// everything the calling thread does from now on belongs to `owner` (0: the application)
void begin_op(int owner, int file);
struct Report { int nerr; int errs[16]; const char* calls[16]; bool own[16]; /* own: only because of what the view asked for */ int leaked_fd; int maps_made; };
Report end_op();
int app_open(); void app_close(int fd); bool app_fd_intact(int fd);
// does [p,p+n) hold exactly one version of the file that existed during the owner's operation? 0 ok
const char* judge(int owner, int file, const void* p, size_t n);
const char* still_good(int owner, const void* p, size_t n);
void expect_mappings(int owner, int n, const char* when);    // live mappings of owner
int  live_mappings(); int open_fds_of_views();
void set_owner_of_mappings(int from, int to);
}
