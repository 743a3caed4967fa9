// The two-tier data buffer with its background worker: what is stored is what is got back, on every schedule.
// The files are kept in memory; a write can be made to fail.
#include <array>
#include <map>
#include "util.h"
#include "boost/filesystem/operations.hpp"
#include "boost/filesystem/path.hpp"
#include "maidsafe/common/data_buffer.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
namespace fs = boost::filesystem;

// ---- the disk
static std::map<std::string, std::vector<unsigned char>>* files;
static std::atomic<uint64_t> disk_limit;
static uint64_t memory_limit, memory_before, disk_before;     // the limits, and what may still be held from before they were lowered
static std::atomic<int> writes, fail_write;      // fail_write: number of the data file whose writing fails
static std::atomic<bool> root_there, root_removed, root_fails, bad_file;
static const char kRoot[] = "/b";
static uint64_t used() { uint64_t n = 0; for (auto& f : *files) n += f.second.size(); return n; }
namespace boost { namespace filesystem { namespace detail {
file_status status(path const& p, system::error_code* ec) {
  if (ec) ec->clear();
  bool there = p.native() == kRoot ? (bool)root_there : files->count(p.native()) != 0;
  return file_status(there ? p.native() == kRoot ? directory_file : regular_file : file_not_found);
}
bool create_directories(path const&, system::error_code* ec) {
  if (root_fails) { if (ec) *ec = system::error_code(13, system::generic_category()); return false; }
  if (ec) ec->clear();
  root_there = true;
  return true;
}
bool remove(path const& p, system::error_code* ec) { if (ec) ec->clear(); return files->erase(p.native()) != 0; }
uintmax_t remove_all(path const& p, system::error_code* ec) { if (ec) ec->clear(); if (p.native() == kRoot) { root_removed = true; files->clear(); } return 1; }
uintmax_t file_size(path const& p, system::error_code* ec) {
  auto it = files->find(p.native());
  if (it == files->end()) { if (ec) *ec = system::error_code(2, system::generic_category()); return (uintmax_t)-1; }
  if (ec) ec->clear();
  return it->second.size();
}
path temp_directory_path(system::error_code*) { return path("/"); }
path unique_path(path const&, system::error_code*) { return path(kRoot); }
} } }
static void note_written(const std::vector<unsigned char>& content);
namespace maidsafe {
namespace detail {
fs::path GetFileName(const Data::NameAndTypeId& k) { return fs::path(std::string(1, (char)k.name.string()[0])); }
}
boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& p) {
  auto it = files->find(p.native());
  if (it == files->end()) return boost::make_unexpected(MakeError(CommonErrors::filesystem_io_error));
  return it->second;
}
bool WriteFile(const fs::path& p, const std::vector<byte>& content) {
  if (p.filename().native() == "TestFile") {
    if (bad_file) return false;
    (*files)[p.native()] = content;
    return true;
  }
  if (++writes == fail_write) return false;
  (*files)[p.native()] = content;
  note_written(content);
  CHECK(used() <= disk_limit, "the disk limit is kept");
  return true;
}
}

// ---- the model
struct Item { std::atomic<int> key, size, state, popped, written; std::atomic<std::vector<unsigned char>*> content; };   // state 0 none, 1 live, 2 being replaced or deleted, 3 gone
static Item items[12];
static std::atomic<int> stamps;
static int current[4];               // the item last stored under each key, or -1
static std::atomic<int> pops;
static bool pop_allowed = true;
static DataBuffer::KeyType* names[4];
static void set_up(uint64_t memory, uint64_t disk) {
  memory_limit = memory_before = memory;
  disk_before = disk;
  files = new std::map<std::string, std::vector<unsigned char>>;
  disk_limit = disk;
  fail_write = -1;
  for (int i = 0; i < 4; ++i) { current[i] = -1; names[i] = new DataBuffer::KeyType(Identity(std::vector<unsigned char>(64, (unsigned char)('A' + i))), DataTypeId(7)); }
}
static NonEmptyString content_of(int s) { return NonEmptyString(*items[s].content.load()); }
static int new_item(int key, int size) {
  int s = stamps++;
  items[s].content = new std::vector<unsigned char>(sym_vec("content", size));
  (*items[s].content.load())[0] = (unsigned char)s;
  items[s].key = key; items[s].size = size; items[s].popped = 0; items[s].state = 0;
  return s;
}
template <typename V> static int stamp_of(const V& v) { return v.empty() ? 99 : (int)__sym_concretize(v[0]); }
static void note_written(const std::vector<unsigned char>& c) { int s = stamp_of(c); if (s < 12) items[s].written = writes.load(); }
static void popped(const DataBuffer::KeyType& k, const NonEmptyString& v) {
  CHECK(pop_allowed, "nothing is popped here");
  int s = stamp_of(v.string());
  CHECK(s < 12 && items[s].content, "what is popped was stored");
  CHECK(k == *names[(int)items[s].key] && same_content(v.string(), *items[s].content.load()), "a popped value is the one stored under its key");
  CHECK(items[s].state == 1 || items[s].state == 2, "what was deleted or replaced is not popped");
  CHECK(items[s].popped == 0, "each evicted item is popped once");
  items[s].popped = 1;
  ++pops;
  // needed, and the oldest
  int largest = 0;
  for (int i = 0; i < 12; ++i) if (items[i].content && (items[i].state == 1 || items[i].state == 2) && !items[i].written && items[i].size > largest) largest = items[i].size;
  CHECK(used() + items[s].size + largest > disk_limit, "an item is evicted only for want of space");
  for (auto& f : *files) CHECK(items[stamp_of(f.second)].written > items[s].written, "the oldest on disk is evicted first");
}
// what can still be got without its file is held in memory
static int in_memory(DataBuffer& b, int k) {
  NonEmptyString v;
  int r = outcome([&] { v = b.Get(*names[k]); }, CommonErrors::filesystem_io_error);
  CHECK(r != 2 || current[k] < 0 || items[current[k]].popped, "what was stored is found unless evicted");
  if (r != 0) return 0;
  int s = current[k];
  CHECK(s >= 0 && same_content(v.string(), *items[s].content.load()), "only what was last stored is in memory");
  return (int)v.string().size();
}
static void op_store(DataBuffer& b, int k, int size) {
  int s = new_item(k, size), old = current[k];
  if (old >= 0) items[old].state = 2;
  items[s].state = 1;
  int r = outcome([&] { b.Store(*names[k], content_of(s)); }, CommonErrors::cannot_exceed_limit);
  if ((uint64_t)size <= disk_limit) CHECK(r == 0, "a store succeeds");
  else CHECK(r == 1, "what exceeds the disk limit is refused");
  if (old >= 0) items[old].state = 3;
  current[k] = r == 0 ? s : -1;
  if (r) items[s].state = 3;
  else if ((uint64_t)size <= memory_limit) memory_before = memory_limit;
}
static void op_get(DataBuffer& b, int k) {
  NonEmptyString v;
  int r = outcome([&] { v = b.Get(*names[k]); }, CommonErrors::no_such_element), s = current[k];
  CHECK(r <= 1, "a get gives the value or reports that there is none");
  if (s < 0) { CHECK(r == 1, "what is not there is not returned"); return; }
  if (r == 1) { CHECK(items[s].popped, "what was stored is returned unless evicted"); return; }
  CHECK(same_content(v.string(), *items[s].content.load()), "a get returns the value last stored");
}
static void op_delete(DataBuffer& b, int k) {
  int s = current[k];
  if (s >= 0) items[s].state = 2;
  int r = outcome([&] { b.Delete(*names[k]); }, CommonErrors::no_such_element);
  CHECK(r <= 1, "a delete succeeds or reports that there is nothing");
  if (s < 0) CHECK(r == 1, "deleting what is not there is reported");
  else CHECK(r == 0 || items[s].popped, "what is there is deleted");
  if (s >= 0) items[s].state = 3;
  current[k] = -1;
}
static void op_delete_all(DataBuffer& b, int mask) {
  for (int k = 0; k < 4; ++k) if ((mask >> k & 1) && current[k] >= 0) items[current[k]].state = 2;
  CHECK(outcome([&] { b.Delete([&](const DataBuffer::KeyType& n) { return (mask >> ((int)n.name.string()[0] - 'A') & 1) != 0; }); }, CommonErrors::unknown) == 0, "deleting by predicate succeeds");
  for (int k = 0; k < 4; ++k) if ((mask >> k & 1) && current[k] >= 0) { items[current[k]].state = 3; current[k] = -1; }
}
static void op_limit(DataBuffer& b) {
  uint64_t to = sym_u64("limit");
  bool mem = sym_choose("which", 2) == 0;
  int r = outcome([&] { if (mem) b.SetMaxMemoryUsage(MemoryUsage(to)); else b.SetMaxDiskUsage(DiskUsage(to)); }, CommonErrors::invalid_argument);
  bool fits = mem ? to <= disk_limit : memory_limit <= to;
  CHECK(r == (fits ? 0 : 1), "a limit is set unless that of memory would exceed that of the disk");
  if (!fits) return;
  if (mem) { if (to > memory_before) memory_before = to; memory_limit = to; }
  else { disk_limit = to; disk_before = used(); }
}
// with the worker idle: only what was last stored is held, on disk or in memory, and within the limits
static void all_ok(DataBuffer& b) {
  __sym_thread_settle();
  CHECK(used() <= disk_limit || used() <= disk_before, "the disk limit is kept");
  for (auto& f : *files) {
    int s = stamp_of(f.second);
    CHECK(s < 12 && items[s].content && current[(int)items[s].key] == s && same_content(f.second, *items[s].content.load()), "only what was last stored is on disk");
    CHECK(!items[s].popped, "what was popped has left the disk");
  }
  for (int k = 0; k < 4; ++k) {
    int s = current[k];
    if (s < 0 || items[s].popped) continue;
    CHECK(files->count(std::string(kRoot) + "/" + (char)('A' + k)) == 1, "what was stored and not evicted is on disk in the end");
  }
  std::map<std::string, std::vector<unsigned char>> kept;
  kept.swap(*files);
  uint64_t held = 0;
  for (int k = 0; k < 3; ++k) held += in_memory(b, k);
  CHECK(held <= memory_before, "the memory limit is kept");
  kept.swap(*files);
}
static void end(DataBuffer& b) {
  all_ok(b);
  for (int k = 0; k < 3; ++k) op_get(b, k);
}
static void any_op(DataBuffer& b, int kinds, int keys, int max_size) {
  size_t op = sym_choose("op", kinds);
  if (op == 4) { op_limit(b); return; }
  if (op == 3) { op_delete_all(b, 1 + (int)sym_choose("mask", (1 << keys) - 1)); return; }
  int k = (int)sym_choose("key", keys);
  if (op == 0) op_store(b, k, 1 + (int)sym_choose("size", max_size));
  else if (op == 1) op_delete(b, k);
  else op_get(b, k);
}
// a = 10 * largest size + operations; the worker gets to finish after every call; any limits
extern "C" void buf_history(long a) {
  uint64_t memory = sym_u64("memory"), disk = sym_u64("disk");
  int largest = a / 10, n = a % 10;
  sym_assume(memory <= disk);
  set_up(memory, disk);
  {
    DataBuffer b((MemoryUsage(memory)), DiskUsage(disk), popped);
    for (int i = 0; i < n; ++i) {
      if (i == 0) op_store(b, 0, 1 + (int)sym_choose("size", largest));
      else any_op(b, 5, 2 + (i > 2), largest);
      all_ok(b);
    }
    end(b);
  }
  CHECK(root_removed && files->empty(), "the files go with the buffer");
  REACH("history");
}
// a = 10 * largest size + operations; every schedule
extern "C" void buf_schedules(long a) {
  uint64_t memory = sym_u64("memory"), disk = sym_u64("disk");
  int largest = a / 10, n = a % 10;
  sym_assume(memory <= disk && (uint64_t)largest <= disk);
  set_up(memory, disk);
  {
    DataBuffer b((MemoryUsage(memory)), DiskUsage(disk), popped);
    for (int i = 0; i < n; ++i)
      if (i == 0) op_store(b, 0, 1);
      else any_op(b, i + 1 < n ? 2 : 4, 2, largest);
    end(b);
  }
  CHECK(root_removed && files->empty(), "the files go with the buffer");
  REACH("schedules");
}
// without a pop functor: a store that lacks space on disk waits for deletes or a raised limit; meanwhile its value can be got and deleted
// a = 10 * size of what is stored first + size of what waits
extern "C" void buf_blocked(long a) {
  uint64_t memory = sym_u64("memory"), disk = sym_u64("disk");
  int size0 = a / 10, size1 = a % 10;
  sym_assume(memory <= disk && (uint64_t)size0 <= disk && (uint64_t)size1 <= disk);
  set_up(memory, disk);
  pop_allowed = false;
  {
    DataBuffer b((MemoryUsage(memory)), DiskUsage(disk), nullptr);
    op_store(b, 0, size0);
    int s = new_item(1, size1), gone = 0;
    items[s].state = 1;
    current[1] = s;
    std::thread client([&] { CHECK(outcome([&] { b.Store(*names[1], content_of(s)); }, CommonErrors::unknown) == 0, "a waiting store ends well"); });
    size_t op = sym_choose("while waiting", 4);
    if (op == 1) {
      NonEmptyString v;
      int r = outcome([&] { v = b.Get(*names[1]); }, CommonErrors::no_such_element);
      CHECK(r <= 1, "what waits to be stored can be got");
      if (r == 0) CHECK(same_content(v.string(), *items[s].content.load()), "what waits to be stored is got as it is");
    } else if (op == 2) {
      int r = outcome([&] { b.Delete(*names[1]); }, CommonErrors::no_such_element);
      CHECK(r <= 1, "what waits to be stored can be deleted");
      gone = r == 0 ? 1 : 0;
    } else if (op == 3) {
      op_delete_all(b, 2);
      gone = 2;
      current[1] = s; items[s].state = 1;
    }
    size_t unblock = sym_choose("unblock", 3);
    if (unblock == 0) op_delete(b, 0);
    else if (unblock == 1) op_delete_all(b, 1);
    else { uint64_t to = disk + 8 < disk ? disk : disk + 8; disk_limit = to; CHECK(outcome([&] { b.SetMaxDiskUsage(DiskUsage(to)); }, CommonErrors::unknown) == 0, "the disk limit is raised"); }
    bool again = gone == 1 && sym_choose("again", 2) == 1;
    int s2 = -1;
    if (again) {       // the waiting store was cancelled: the key can be stored anew
      items[s].state = 3;
      s2 = new_item(1, size1);
      items[s2].state = 1;
      current[1] = s2;
      CHECK(outcome([&] { b.Store(*names[1], content_of(s2)); }, CommonErrors::unknown) == 0, "a key is stored anew");
    }
    client.join();
    __sym_thread_settle();
    if (gone && !again) {
      NonEmptyString v;
      int r = outcome([&] { v = b.Get(*names[1]); }, CommonErrors::no_such_element);
      CHECK(r <= 1, "a deleted item is there or not");
      CHECK(gone == 2 || r == 1, "what was deleted while it waited is not there");
      if (r == 1) { items[s].state = 3; current[1] = -1; REACH("cancelled"); }
    }
    if (again) REACH("again");
    end(b);
    // everything that was taken up can be used again: the limit for one item that needs it all
    op_delete_all(b, 7);
    CHECK(files->empty(), "what is deleted leaves no file");
    if (disk_limit <= 3) { op_store(b, 2, (int)sym_range("all", 1, 3)); REACH("refilled"); }
  }
  REACH("blocked");
}
// a write fails at some point: the buffer reports it from then on, and nothing waits for ever
// a = 100 * pop functor given + 10 * clients + operations
extern "C" void buf_failing(long a) {
  bool pop = a / 100 != 0;
  int clients = a / 10 % 10, n = a % 10;
  uint64_t memory = sym_u64("memory"), disk = sym_u64("disk");
  sym_assume(memory <= disk && 2 <= disk);
  set_up(memory, disk);
  fail_write = 1 + (int)sym_choose("fails", n + clients - 1);
  {
    DataBuffer b((MemoryUsage(memory)), DiskUsage(disk), pop ? DataBuffer::PopFunctor([](const DataBuffer::KeyType&, const NonEmptyString&) {}) : DataBuffer::PopFunctor());
    std::thread client;
    auto store = [&b](int s) {
      items[s].state = 1;
      int r = outcome([&] { b.Store(*names[(int)items[s].key], content_of(s)); }, CommonErrors::filesystem_io_error);
      CHECK(r <= 1, "a store is done or reports that the disk failed");
      if (r == 0 && (uint64_t)items[s].size > memory_limit) CHECK(items[s].written, "what was stored without passing through memory is on disk");
      return r;
    };
    int theirs = new_item(1, 2);
    if (clients == 2) client = std::thread([&] { store(theirs); });
    bool failed = false;
    for (int i = 0; i < n; ++i) {
      int r;
      if (i == 0 || sym_choose("op", 2) == 0) r = store(new_item(i == 0 ? 0 : 2, 1 + (int)sym_choose("size", 2)));
      else {
        bool get = sym_choose("get", 2) == 0;
        int k = (int)sym_choose("key", 2);
        r = outcome([&] { if (get) b.Get(*names[k]); else b.Delete(*names[k]); }, CommonErrors::filesystem_io_error);
        CHECK(r <= 2, "a call succeeds or reports an error");
      }
      if (failed) CHECK(r == 1, "a failed disk is reported from then on");
      if (r == 1) { failed = true; REACH("reported"); }
      if (!pop && !failed) { int d = outcome([&] { b.Delete([](const DataBuffer::KeyType&) { return true; }); }, CommonErrors::filesystem_io_error); CHECK(d <= 1, "a delete is done or reports that the disk failed"); if (d == 1) failed = true; }
    }
    if (clients == 2) client.join();
    __sym_thread_settle();
    if (writes >= fail_write) {
      CHECK(outcome([&] { b.Get(*names[3]); }, CommonErrors::filesystem_io_error) == 1, "a failed disk is reported");
      CHECK(outcome([&] { b.Store(*names[3], NonEmptyString(std::string("x"))); }, CommonErrors::filesystem_io_error) == 1, "nothing is stored after a failure of the disk");
      CHECK(outcome([&] { b.Delete(*names[0]); }, CommonErrors::filesystem_io_error) == 1, "nothing is deleted after a failure of the disk");
    }
  }
  REACH("failing");
}
// as above, with two stores that wait for space
extern "C" void buf_failing_blocked(long a) {
  uint64_t memory = sym_u64("memory"), disk = sym_u64("disk");
  sym_assume(memory <= disk && 2 <= disk);
  set_up(memory, disk);
  fail_write = (int)a;
  {
    DataBuffer b((MemoryUsage(memory)), DiskUsage(disk), nullptr);
    std::thread clients[2];
    int result[2] = {-1, -1};
    for (int i = 0; i < 3; ++i) new_item(i, 2);
    auto store = [&b](int s) {
      return outcome([&] { b.Store(*names[s], content_of(s)); }, CommonErrors::filesystem_io_error);
    };
    int r = store(0);
    CHECK(r <= 1, "a store is done or reports that the disk failed");
    for (int i = 0; i < 2; ++i) clients[i] = std::thread([&result, store, i] { result[i] = store(1 + i); });
    if (sym_choose("at once", 2) == 0) __sym_thread_settle();
    for (int i = 0; i < 3; ++i) {
      r = outcome([&] { b.Delete([](const DataBuffer::KeyType&) { return true; }); }, CommonErrors::filesystem_io_error);
      CHECK(r <= 1, "a delete is done or reports that the disk failed");
      __sym_thread_settle();
    }
    for (int i = 0; i < 2; ++i) {
      clients[i].join();
      CHECK(result[i] == 0 || result[i] == 1, "a waiting store is done or reports that the disk failed");
      if (result[i] == 1) { CHECK(writes >= fail_write, "a failure is reported only if the disk failed"); REACH("reported"); }
    }
    if (writes >= fail_write) CHECK(outcome([&] { b.Get(*names[1]); }, CommonErrors::filesystem_io_error) == 1, "a failed disk is reported");
  }
  REACH("failing");
}
// what a buffer is made with
extern "C" void buf_made(long a) {
  uint64_t memory = sym_u64("memory"), disk = sym_u64("disk");
  set_up(memory, disk);
  root_there = sym_bool("there");
  root_fails = sym_bool("can't be made");
  bad_file = sym_bool("can't be written");
  bool given = a > 0, remove = a == 2;
  if (!given) root_there = false;
  bool was_there = root_there;
  if (was_there) (*files)["/b/old"] = std::vector<unsigned char>(3, 'o');
  int want = memory > disk ? 1 : (!was_there && root_fails) || bad_file ? 2 : 0;
  auto go = [&] {
    if (given && remove) { DataBuffer b((MemoryUsage(memory)), DiskUsage(disk), popped, fs::path(kRoot), true); CHECK(files->count("/b/TestFile") == 0, "no trace of the trial is left"); }
    else if (given) { DataBuffer b((MemoryUsage(memory)), DiskUsage(disk), popped, fs::path(kRoot)); CHECK(files->count("/b/TestFile") == 0, "no trace of the trial is left"); }
    else { DataBuffer b((MemoryUsage(memory)), DiskUsage(disk), popped); CHECK(files->count("/b/TestFile") == 0, "no trace of the trial is left"); }
  };
  if (want == 1) { CHECK(outcome(go, CommonErrors::invalid_argument) == 1, "a memory limit beyond that of the disk is refused"); REACH("refused"); }
  else if (want == 2) { CHECK(outcome(go, CommonErrors::uninitialised) == 1, "a directory that can't be used is refused"); REACH("refused"); }
  else { CHECK(outcome(go, CommonErrors::unknown) == 0, "a buffer is made"); CHECK(root_removed == (!given || remove), "the directory goes with the buffer if so asked"); REACH("made"); }
  if (want || !root_removed) CHECK(files->count("/b/old") == (was_there ? 1u : 0u), "other files in a given directory are kept");
}
