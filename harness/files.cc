// ReadFile and WriteFile on a disk whose every operation may fail.
#include "util.h"
#include "alloc_limit.h"
#include "files_stub.h"
#include "boost/filesystem/operations.hpp"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
double verif_shown;
int verif_formats;
template <> std::mt19937::result_type std::mt19937::operator()() { return 0; }
verif_disk_t verif_disk;
static uintmax_t shown_size;   // what the file system says
static bool size_fails;
namespace boost { namespace filesystem { namespace detail {
uintmax_t file_size(path const& p, system::error_code* ec) {
  bool bad = size_fails || !verif_disk.exists || p.native() != verif_disk.path;
  if (ec) *ec = bad ? system::error_code(2, system::generic_category()) : system::error_code();
  else if (bad) throw system::system_error(system::error_code(2, system::generic_category()));
  return bad ? (uintmax_t)-1 : shown_size;
}
file_status status(path const& p, system::error_code* ec) {
  if (ec) *ec = system::error_code();
  return file_status(verif_disk.exists && p.native() == verif_disk.path ? regular_file : file_not_found);
}
} } }
static bool read_back(std::vector<byte>& out) {
  bool ok = false;
  auto r = ReadFile("dir/file");
  ok = r.valid();
  if (ok) out = r.value();
  else { CHECK(r.error().code() == make_error_code(CommonErrors::filesystem_io_error) || r.error().code() == make_error_code(CommonErrors::file_too_large), "the documented error"); }
  CHECK(verif_disk.open_now == 0, "no file is left open");
  return ok;
}
// what is on disk, read under every fault
extern "C" void rd_faults(long n) {
  verif_disk.path = "dir/file";
  verif_disk.exists = sym_bool("exists");
  verif_disk.content = sym_string("content", n);
  shown_size = n;
  size_fails = sym_bool("size fails");
  verif_disk.open_fails = sym_bool("open fails");
  size_t r = sym_u8("readable");
  if (r <= (size_t)n) verif_disk.readable = r;
  std::vector<byte> got;
  bool ok = read_back(got);
  if (!verif_disk.exists || size_fails) { CHECK(!ok, "no file: reported"); REACH("absent"); }
  else if (n && (verif_disk.open_fails || verif_disk.readable < (size_t)n)) { CHECK(!ok, "what cannot be read whole is reported"); REACH("failed"); }
  else if (ok) { CHECK(same_content(got, verif_disk.content), "exactly the content"); REACH("read"); }
  else CHECK(n == 0 && (verif_disk.open_fails), "no fault, no error");
}
extern "C" void rd_huge(long k) {  // a size that no memory can hold
  verif_disk.path = "dir/file"; verif_disk.exists = true; verif_disk.content = "abc";
  shown_size = k == 0 ? ~(uintmax_t)0 : k == 1 ? (uintmax_t)1 << 62 : 4000000;
  verif_alloc_limit = 1000000;
  std::vector<byte> got;
  CHECK(!read_back(got), "reported");
  REACH("huge");
}
extern "C" void wr_faults(long a) {  // 10 * size of what was there before (+1; 0: nothing) + size of what is written
  long n = a % 10, before = a / 10 - 1;
  verif_disk.path = "dir/file";
  verif_disk.exists = before >= 0;
  if (before > 0) verif_disk.content = sym_string("before", before);
  std::vector<byte> want = sym_vec("content", n);
  verif_disk.open_fails = sym_bool("open fails");
  size_t w = sym_u8("writable");
  if (w <= (size_t)n) verif_disk.writable = w;
  verif_disk.late = sym_bool("late");
  verif_disk.close_fails = sym_bool("close fails");
  bool fault = verif_disk.open_fails || (n && verif_disk.writable < (size_t)n) || verif_disk.close_fails;
  bool ok = WriteFile("dir/file", want);
  CHECK(verif_disk.open_now == 0, "no file is left open");
  if (ok) {
    CHECK(!fault, "a failure is reported");
    CHECK(verif_disk.exists && same_content(verif_disk.content, want), "the file holds exactly what was written");
    verif_disk.open_fails = false;
    shown_size = verif_disk.content.size();
    std::vector<byte> got;
    CHECK(read_back(got) && same_content(got, want), "and reads back the same");
    REACH("written");
  } else {
    CHECK(fault, "no fault, no error");
    REACH("failed");
  }
}
extern "C" void wr_nameless(long k) {
  static const char* names[] = {"", "dir/", "/"};
  std::string p = names[k];
  verif_disk.path = p;
  CHECK(!WriteFile(p, std::vector<byte>(2, 7)), "no file name: refused");
  REACH("nameless");
}
