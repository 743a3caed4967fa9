// Error values <-> integers, messages, generic conditions.
#include "util.h"
using namespace maidsafe;
struct Cat { const std::error_category& (*get)(); int block, first, last; };
static const Cat cats[] = {
    {GetCommonCategory, 1, 0, (int)CommonErrors::defaulted},
    {GetAsymmCategory, 2, 1, (int)AsymmErrors::signing_error},
    {GetPassportCategory, 3, 1, (int)PassportErrors::id_already_exists},
    {GetEncryptCategory, 4, 1, (int)EncryptErrors::encryptor_closed},
    {GetRoutingCategory, 5, 1, (int)RoutingErrors::not_connected},
    {GetNfsCategory, 6, 1, (int)NfsErrors::timed_out},
    {GetDriveCategory, 7, 1, (int)DriveErrors::driver_not_installed},
    {GetVaultCategory, 8, 1, (int)VaultErrors::too_few_entries_to_resolve},
    {GetVaultManagerCategory, 9, 1, (int)VaultManagerErrors::vault_terminated},
    {GetApiCategory, 10, 1, (int)ApiErrors::kPasswordFailure}};
// the generic condition each value stands for
struct Cond { int cat, value; std::errc e; };
#define C(cat, E, v, e) {cat, (int)E::v, std::errc::e}
static const Cond conds[] = {
    C(0, CommonErrors, null_pointer, invalid_argument), C(0, CommonErrors, invalid_identity, invalid_argument),
    C(0, CommonErrors, invalid_key_size, invalid_argument), C(0, CommonErrors, outside_of_bounds, invalid_argument),
    C(0, CommonErrors, invalid_argument, invalid_argument), C(0, CommonErrors, file_too_large, file_too_large),
    C(0, CommonErrors, cannot_invoke_from_this_thread, operation_not_permitted), C(0, CommonErrors, unable_to_handle_request, not_supported),
    C(0, CommonErrors, filesystem_io_error, io_error), C(0, CommonErrors, not_a_directory, not_a_directory),
    C(1, AsymmErrors, data_empty, invalid_argument), C(1, AsymmErrors, invalid_file, invalid_argument),
    C(1, AsymmErrors, invalid_signature, invalid_argument), C(1, AsymmErrors, signature_empty, invalid_argument),
    C(1, AsymmErrors, signing_error, invalid_argument), C(4, RoutingErrors, timed_out, timed_out), C(5, NfsErrors, timed_out, timed_out),
    C(6, DriveErrors, permission_denied, permission_denied), C(6, DriveErrors, file_exists, file_exists),
    C(7, VaultErrors, operation_not_supported, operation_not_supported), C(7, VaultErrors, permission_denied, permission_denied),
    C(8, VaultManagerErrors, connection_not_found, not_connected), C(8, VaultManagerErrors, failed_to_connect, connection_refused),
    C(8, VaultManagerErrors, connection_aborted, connection_aborted), C(8, VaultManagerErrors, ipc_message_too_large, message_size),
    C(8, VaultManagerErrors, timed_out, timed_out)};

// every value of category c (with room to grow), to an integer and back
extern "C" void err_round(long c) {
  const Cat& k = cats[c];
  int v = (int)sym_u32("value");
  sym_assume(v >= 0 && v < 100000);
  maidsafe_error e(v, k.get());
  int n = ErrorToInt(e);
  CHECK(n == -100000 * k.block - v, "the integer is made of the category's block and the value");
  maidsafe_error back = IntToError(n);
  CHECK(&back.code().category() == &k.get() && back.code().value() == v, "the same error comes back");
  CHECK(back.code() == e.code(), "the same error comes back");
  REACH("round");
}
// every integer
extern "C" void err_any(long) {
  int n = sym_i32("n");
  int64_t m = -(int64_t)n;
  bool ours = m >= 100000 && m < 1100000;
  int o = outcome([&] {
    maidsafe_error e = IntToError(n);
    CHECK(ours, "only integers of a known category become errors");
    CHECK(e.code().value() == m % 100000, "the value");
    CHECK(&e.code().category() == &cats[m / 100000 - 1].get(), "the category");
    CHECK(ErrorToInt(e) == n, "and back");
    REACH("known");
  }, CommonErrors::parsing_error);
  if (o) { CHECK(o == 1 && !ours, "any other integer is a parsing error"); REACH("unknown"); }
}
extern "C" void err_foreign(long c) {
  int v = sym_i32("value");
  const std::error_category& k = c == 0 ? std::generic_category() : std::system_category();
  CHECK(outcome([&] { ErrorToInt(maidsafe_error(v, k)); }, CommonErrors::serialisation_error) == 1, "errors of other categories have no integer");
  CHECK(outcome([&] { ErrorToInt(maidsafe_error()); }, CommonErrors::serialisation_error) == 1, "nor does a default error");
  REACH("foreign");
}
extern "C" void err_message(long c) {
  const Cat& k = cats[c];
  int a = sym_i32("a"), b = sym_i32("b");
  sym_assume(b >= k.first && b <= k.last);
  std::string ma = k.get().message(a), mb = k.get().message(b), none = k.get().message(-1);
  CHECK(!ma.empty() && !mb.empty(), "every value has a message");
  if (a >= k.first && a <= k.last) { CHECK((ma == mb) == (a == b), "different errors have different messages"); REACH("defined"); }
  else { CHECK(ma == none, "undefined values are unknown"); CHECK((mb == none) == (c == 0 && b == (int)CommonErrors::unknown), "defined values are not"); REACH("undefined"); }
}
extern "C" void err_condition(long c) {
  const Cat& k = cats[c];
  int v = sym_i32("v");
  std::error_condition got = k.get().default_error_condition(v);
  std::error_condition want(v, k.get());
  for (const Cond& d : conds)
    if (d.cat == c && v == d.value) want = std::make_error_condition(d.e);
  CHECK(&got.category() == &want.category() && got.value() == want.value(), "the generic condition of the value, or the value itself");
  for (const Cat& o : cats) CHECK((&o.get() == &k.get()) == (&o == &k), "categories are distinct");
  REACH("condition");
}
template <typename Err, typename Code>
static void make(int block, Code code, const std::error_category& cat) {
  Err e = MakeError(code);
  CHECK(e.code().value() == (int)code && &e.code().category() == &cat, "the error carries the code");
  CHECK(make_error_code(code) == e.code() && make_error_condition(code).value() == (int)code && &make_error_condition(code).category() == &cat, "code and condition");
  CHECK(ErrorToInt(e) == -100000 * block - (int)code, "integer");
  try { throw e; } catch (const maidsafe_error& m) { CHECK(m.code() == e.code(), "caught as the base type"); }
}
extern "C" void err_make(long c) {
  const Cat& k = cats[c];
  int v = sym_i32("v");
  sym_assume(v >= k.first && v <= k.last);
  switch (c) {
    case 0: make<common_error>(1, (CommonErrors)v, k.get()); break;
    case 1: make<asymm_error>(2, (AsymmErrors)v, k.get()); break;
    case 2: make<passport_error>(3, (PassportErrors)v, k.get()); break;
    case 3: make<encrypt_error>(4, (EncryptErrors)v, k.get()); break;
    case 4: make<routing_error>(5, (RoutingErrors)v, k.get()); break;
    case 5: make<nfs_error>(6, (NfsErrors)v, k.get()); break;
    case 6: make<drive_error>(7, (DriveErrors)v, k.get()); break;
    case 7: make<vault_error>(8, (VaultErrors)v, k.get()); break;
    case 8: make<vault_manager_error>(9, (VaultManagerErrors)v, k.get()); break;
    case 9: make<api_error>(10, (ApiErrors)v, k.get()); break;
  }
  REACH("make");
}
