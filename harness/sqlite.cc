// Database, Transaction and Statement on a database engine whose every call may fail.
#include "util.h"
extern "C" {
#include <sqlite3.h>
}
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include "maidsafe/common/sqlite3_wrapper.h"
using namespace maidsafe;
namespace maidsafe { uint32_t RandomUint32() { return 0; } }

// ---- the engine
struct sqlite3 { int open; };
struct sqlite3_stmt { int live; };
static sqlite3 the_db;
static sqlite3_stmt the_stmt;
static int texts;                       // error texts handed out and not yet given back
static int open_code, opens, closes, opened_flags;
static bool open_handle, give_text;
static std::string opened;
static bool in_txn;                     // a transaction is open in the engine
static int begins, commits, rollbacks;  // attempts
static int fail_begin, fail_commit;     // so many attempts fail first
static bool fail_rollback, lose_txn;    // a failing commit has rolled back already
static bool committed_;                 // the engine made a transaction permanent
static int failing_code;                // 0: each failure has an arbitrary code
static int arbitrary() {
  int c = sym_i32("code");
  sym_assume((c != SQLITE_OK) & (c != SQLITE_ROW) & (c != SQLITE_DONE));
  return c;
}
static int failure() { return failing_code ? failing_code : arbitrary(); }
static int refuse(int code, char** text) {
  if (text) { *text = nullptr; if (give_text) { *text = (char*)malloc(2); (*text)[0] = 'e'; (*text)[1] = 0; ++texts; } }
  return code;
}
static int last_code;                   // of the last failing transaction statement
static bool starts(const char* s, const char* p) { return !strncmp(s, p, strlen(p)); }
extern "C" {
int sqlite3_open_v2(const char* name, sqlite3** db, int flags, const char*) {
  ++opens; opened = name; opened_flags = flags;
  *db = open_code == SQLITE_OK || open_handle ? &the_db : nullptr;
  if (*db) the_db.open = 1;
  return open_code;
}
int sqlite3_close(sqlite3* db) {
  if (!db) return SQLITE_OK;
  CHECK(db->open == 1, "a handle is closed once");
  db->open = 0; ++closes;
  return SQLITE_OK;
}
int sqlite3_close_v2(sqlite3* db) { return sqlite3_close(db); }
const char* sqlite3_errmsg(sqlite3*) { return "message"; }
int sqlite3_threadsafe() { return 1; }
int sqlite3_busy_timeout(sqlite3* db, int) { CHECK(db->open, "an open handle"); return SQLITE_OK; }
int sqlite3_limit(sqlite3* db, int id, int v) { CHECK(db->open && id == SQLITE_LIMIT_VARIABLE_NUMBER && v < 0, "the limit asked for"); return 321; }
int sqlite3_wal_checkpoint(sqlite3* db, const char*) { CHECK(db->open, "an open handle"); return sym_bool("checkpoint fails") ? SQLITE_BUSY : SQLITE_OK; }
void sqlite3_free(void* p) { if (p) { --texts; CHECK(texts >= 0, "a text is given back once"); free(p); } }
int sqlite3_exec(sqlite3* db, const char* sql, int (*)(void*, int, char**, char**), void*, char** text) {
  CHECK(db && db->open, "an open handle");
  if (text) *text = nullptr;
  if (starts(sql, "PRAGMA")) return sym_bool("pragma fails") ? refuse(SQLITE_BUSY, text) : SQLITE_OK;
  if (starts(sql, "BEGIN")) {
    if (begins++ < fail_begin) return refuse(last_code = failure(), text);
    CHECK(!in_txn, "no transaction is open yet");
    in_txn = true;
    return SQLITE_OK;
  }
  if (starts(sql, "COMMIT") || starts(sql, "END")) {
    if (commits++ < fail_commit) { if (lose_txn) in_txn = false; return refuse(last_code = failure(), text); }
    if (!in_txn) return refuse(last_code = SQLITE_ERROR, text);
    in_txn = false; committed_ = true;
    return SQLITE_OK;
  }
  CHECK(starts(sql, "ROLLBACK"), "a transaction statement");
  ++rollbacks;
  if (!in_txn || fail_rollback) return refuse(SQLITE_ERROR, text);
  in_txn = false;
  return SQLITE_OK;
}
}
static void opened_database(sqlite::Database*& d) {
  open_code = SQLITE_OK;
  d = new sqlite::Database("file.db", sqlite::Mode::kReadWrite);
}
static void all_returned() { CHECK(texts == 0, "every error text is given back"); }
extern "C" void db_open(long k) {
  open_code = k ? sym_i32("open") : SQLITE_OK;
  open_handle = sym_bool("handle");
  give_text = sym_bool("text");
  std::string name = sym_string("name", 3);
  for (char c : name) sym_assume((c != 0) & (c != '/'));
  static const sqlite::Mode modes[] = {sqlite::Mode::kReadOnly, sqlite::Mode::kReadWrite, sqlite::Mode::kReadWriteCreate};
  static const int flags[] = {SQLITE_OPEN_READONLY, SQLITE_OPEN_READWRITE, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE};
  size_t m = sym_choose("mode", 3);
  int o = outcome([&] {
    sqlite::Database d(name, modes[m]);
    CHECK(d.InsertLimit() == 321, "the limit of the engine");
    d.CheckPoint();
    CHECK(closes == 0, "open while it lives");
  }, CommonErrors::db_not_present);
  CHECK(opens == 1 && same_content(opened, name) && opened_flags == flags[m], "the file and mode asked for");
  CHECK(o == (open_code == SQLITE_OK ? 0 : 1), "a database that cannot be opened is reported");
  CHECK(closes == (open_code == SQLITE_OK || open_handle), "closed exactly once, also when opening failed");
  all_returned();
  REACH(o ? "refused" : "opened");
}
// k failing attempts to begin; then: leave (0), commit (1), commit after j failing attempts
static void transaction(long begin, long commit, bool try_commit, int stale) {
  sqlite::Database* d;
  opened_database(d);
  fail_begin = (int)begin; fail_commit = (int)commit;
  give_text = sym_bool("text");
  fail_rollback = sym_bool("rollback fails");
  lose_txn = commit && sym_bool("failing commit has rolled back");
  alignas(sqlite::Transaction) static unsigned char room[sizeof(sqlite::Transaction)];
  memset(room, stale, sizeof room);
  void* at = room;
  std::error_code e;
  bool done = false, other = false;
  try {
    struct End { void operator()(sqlite::Transaction* t) const { t->~Transaction(); } };
    std::unique_ptr<sqlite::Transaction, End> t(new (at) sqlite::Transaction(*d));
    CHECK(in_txn && rollbacks == 0, "a transaction that exists is open");
    if (try_commit) { t->Commit(); CHECK(committed_, "committed only if the engine said so"); done = true; }
  } catch (const maidsafe_error& x) { e = x.code(); } catch (const std::exception&) { other = true; }
  CHECK(!other, "failures are maidsafe errors");
  CHECK(committed_ == done, "committed exactly if the commit was asked for and reported no error");
  bool began = begins > begin;
  if (!began) {
    CHECK(e, "not begun: reported");
    if (last_code == SQLITE_NOTADB) CHECK(e == make_error_code(CommonErrors::db_not_present), "no database: reported at once");
    else CHECK(e == make_error_code(CommonErrors::unable_to_handle_request) && begins == 200, "given up after the documented number of attempts");
    CHECK(rollbacks == 0 && commits == 0, "what was not begun is neither committed nor rolled back");
    REACH("not begun");
  } else if (done) {
    CHECK(rollbacks == 0, "a committed transaction is not rolled back");
    CHECK(commits == commit + 1, "committed once");
    REACH("committed");
  } else {
    CHECK(rollbacks == 1, "a transaction that was not committed is rolled back once");
    CHECK(!in_txn || fail_rollback, "and gone");
    if (try_commit) { CHECK(e == make_error_code(CommonErrors::unable_to_handle_request) && commits == 200, "given up after the documented number of attempts"); REACH("not committed"); }
    else { CHECK(!e, "leaving without commit is no error"); REACH("left"); }
  }
  delete d;
  CHECK(closes == 1, "closed once");
  all_returned();
}
extern "C" void tx_short(long a) {  // every code at every attempt
  failing_code = 0;
  size_t c = sym_choose("commit", 2);
  transaction(a / 10, c ? a % 10 : 0, c, sym_choose("stale memory", 2) ? 1 : 0);
}
extern "C" void tx_long(long k) {  // failing all the time, or nearly
  static const int codes[] = {SQLITE_BUSY, SQLITE_LOCKED, SQLITE_FULL, SQLITE_NOTADB};
  failing_code = codes[sym_choose("code", 4)];
  bool at_begin = k / 1000;
  if (at_begin) transaction(k % 1000, 0, false, 1);
  else { if (failing_code == SQLITE_NOTADB) failing_code = SQLITE_IOERR; transaction(0, k % 1000, true, 1); }
}
// ---- statements
static int prepare_code, finalized, step_code, bind_code, reset_code;
static std::string prepared;
static bool prepared_whole;
static const void* bound; static int bound_n, bound_at; static std::string kept; static bool keeps;
static std::string column; static bool column_null;
extern "C" {
int sqlite3_prepare_v2(sqlite3* db, const char* q, int n, sqlite3_stmt** s, const char**) {
  CHECK(db->open, "an open handle");
  prepared.assign(q, n < 0 ? strlen(q) : (size_t)n);
  while (!prepared.empty() && prepared.back() == 0) prepared.pop_back();
  *s = prepare_code == SQLITE_OK ? &the_stmt : nullptr;
  if (*s) the_stmt.live = 1;
  return prepare_code;
}
int sqlite3_finalize(sqlite3_stmt* s) {
  if (!s) return SQLITE_OK;
  CHECK(s->live == 1, "a statement is finalised once");
  CHECK(the_db.open, "before its database is closed");
  s->live = 0; ++finalized;
  return step_code == SQLITE_ROW || step_code == SQLITE_DONE ? SQLITE_OK : step_code;
}
static int take(sqlite3_stmt* s, int at, const void* p, int n, void (*d)(void*)) {
  CHECK(s->live, "a live statement");
  if (bind_code != SQLITE_OK) return bind_code;
  bound = p; bound_n = n; bound_at = at;
  keeps = d == (void (*)(void*))-1;
  if (p && keeps) kept.assign((const char*)p, n < 0 ? strlen((const char*)p) : (size_t)n);
  return SQLITE_OK;
}
int sqlite3_bind_text(sqlite3_stmt* s, int at, const char* p, int n, void (*d)(void*)) { return take(s, at, p, n, d); }
int sqlite3_bind_blob(sqlite3_stmt* s, int at, const void* p, int n, void (*d)(void*)) { CHECK(n >= 0, "a size"); return take(s, at, p, n, d); }
int sqlite3_step(sqlite3_stmt* s) { CHECK(s->live, "a live statement"); return step_code; }
int sqlite3_reset(sqlite3_stmt* s) { CHECK(s->live, "a live statement"); return reset_code; }
const unsigned char* sqlite3_column_text(sqlite3_stmt* s, int c) { CHECK(s->live && c == 3, "the column asked for"); return column_null ? nullptr : (const unsigned char*)column.c_str(); }
const void* sqlite3_column_blob(sqlite3_stmt* s, int c) { CHECK(s->live && c == 3, "the column asked for"); return column_null || column.empty() ? nullptr : column.data(); }
int sqlite3_column_bytes(sqlite3_stmt* s, int c) { CHECK(s->live && c == 3, "the column asked for"); return column_null ? 0 : (int)column.size(); }
}
static std::error_code db_error() { return make_error_code(CommonErrors::db_error); }
extern "C" void st_prepare(long n) {
  sqlite::Database* d;
  opened_database(d);
  prepare_code = sym_i32("prepare");
  step_code = SQLITE_DONE;
  std::string q = sym_string("query", n);
  for (char c : q) sym_assume(c != 0);
  int o = outcome([&] { sqlite::Statement s(*d, q); CHECK(finalized == 0, "live"); }, prepare_code == SQLITE_NOTADB ? make_error_code(CommonErrors::db_not_present) : db_error());
  CHECK(same_content(prepared, q), "the query given, whole");
  CHECK(o == (prepare_code != SQLITE_OK), "a refused query is reported");
  CHECK(finalized == (prepare_code == SQLITE_OK), "finalised once if it was prepared");
  delete d;
  REACH(o ? "refused" : "prepared");
}
extern "C" void st_bind(long a) {  // 10 * kind + size; kind 0 text, 1 blob
  sqlite::Database* d;
  opened_database(d);
  bind_code = sym_i32("bind"); step_code = sym_i32("step"); reset_code = sym_i32("reset");
  int index = sym_i32("index");
  std::string want = sym_string("value", a % 10);
  {
    sqlite::Statement s(*d, "query");
    int o;
    if (a / 10) {
      std::unique_ptr<SerialisedData> b(new SerialisedData(want.begin(), want.end()));
      o = outcome([&] { s.BindBlob(index, *b); }, db_error());
    } else {
      std::unique_ptr<std::string> t(new std::string(want));
      o = outcome([&] { s.BindText(index, *t); }, db_error());
    }
    CHECK(o == (bind_code != SQLITE_OK), "a refused value is reported");
    if (o == 0) {
      CHECK(bound && bound_at == index, "bound to the place asked for, and not to NULL");
      CHECK(keeps, "the engine is told to keep a copy, as the value need not outlive the call");
      CHECK(same_content(kept, want), "the value, whole");
      REACH("bound");
    } else REACH("not bound");
    sqlite::StepResult r = sqlite::StepResult::kSqliteDone;
    o = outcome([&] { r = s.Step(); }, db_error());
    bool ok = step_code == SQLITE_ROW || step_code == SQLITE_DONE;
    CHECK(o == !ok, "a failing step is reported");
    if (ok) { CHECK((r == sqlite::StepResult::kSqliteRow) == (step_code == SQLITE_ROW), "a row, or the end"); REACH("stepped"); }
    o = outcome([&] { s.Reset(); }, db_error());
    CHECK(o == (reset_code != SQLITE_OK), "a failing reset is reported");
  }
  CHECK(finalized == 1, "finalised once");
  delete d;
}
extern "C" void st_column(long n) {
  sqlite::Database* d;
  opened_database(d);
  column_null = n < 0;
  column = sym_string("column", n < 0 ? 0 : n);
  step_code = SQLITE_ROW;
  {
    sqlite::Statement s(*d, "query");
    s.Step();
    CHECK(same_content(s.ColumnText(3), column), "the text, whole, zeros and all");
    SerialisedData b = s.ColumnBlob(3);
    CHECK(same_content(b, column), "the bytes, whole");
  }
  delete d;
  REACH("column");
}
