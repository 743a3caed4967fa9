// Not a check: everything the engine should be able to execute that refactored code may use.
#include "util.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <iomanip>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <bitset>
#include <cmath>
#include <cassert>
#include <iterator>
#include <random>
#include <system_error>
#include <chrono>
#include <condition_variable>
#include <charconv>
#include <regex>
#include <iostream>
#include <any>
extern "C" void sink(long k) {
  uint8_t x = sym_u8("x");
  std::string s = sym_string("s", 3);
  switch (k) {
    case 0: { char b[8]; memset(b, x, 8); memcpy(b, s.data(), 3); memmove(b + 1, b, 3); CHECK(memcmp(b + 1, s.data(), 3) == 0, "mem"); break; }
    case 1: { std::vector<int> v{3, 1, 2}; std::sort(v.begin(), v.end()); std::stable_sort(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + 1, v.end()); std::partial_sort(v.begin(), v.begin() + 2, v.end()); std::nth_element(v.begin(), v.begin() + 1, v.end()); std::reverse(v.begin(), v.end()); CHECK(std::accumulate(v.begin(), v.end(), 0) == 6, "alg"); break; }
    case 2: { std::map<std::string, int> m; m[s] = 1; m["a"] = 2; std::unordered_map<std::string, int> u; u["a"] = 1; u["b"] = 2; for (int i = 0; i < 30; ++i) u[std::to_string(i)] = i; u.erase("a"); CHECK(u.size() == 31, "umap"); break; }
    case 3: { std::ostringstream o; o << std::setw(4) << std::setfill('0') << 12 << std::hex << 255 << ' ' << true << std::fixed << std::setprecision(2) << 1.5 << 'c' << "str"; CHECK(o.str() == "0012ff 11.50cstr", "ostream"); break; }
    case 4: { std::istringstream i("12 ab\ncd 1.5 0x1f"); int a; std::string b, c; i >> a >> b >> std::ws; std::getline(i, c, ' '); double d; i >> d; CHECK(a == 12 && b == "ab" && c == "cd", "istream"); CHECK(d == 1.5, "istream double"); break; }
    case 5: { std::promise<int> p; auto f = p.get_future(); std::thread t([&] { p.set_value(7); }); CHECK(f.get() == 7, "promise"); t.join(); break; }
    case 6: { auto f = std::async(std::launch::async, [] { return 3; }); auto g = std::async(std::launch::deferred, [] { return 4; }); CHECK(f.get() + g.get() == 7, "async"); break; }
    case 7: { std::shared_timed_mutex m; { std::shared_lock<std::shared_timed_mutex> l(m); } { std::unique_lock<std::shared_timed_mutex> l(m); } std::shared_mutex n; n.lock_shared(); n.unlock_shared(); n.lock(); n.unlock(); std::recursive_mutex r; r.lock(); r.lock(); r.unlock(); r.unlock(); std::timed_mutex tm; tm.lock(); tm.unlock(); break; }
    case 8: { std::once_flag f; int n = 0; std::call_once(f, [&] { ++n; }); std::call_once(f, [&] { ++n; }); CHECK(n == 1, "once"); std::atomic<int> a(0); a.fetch_add(2); int e = 2; CHECK(a.compare_exchange_strong(e, 5) && a == 5, "atomic"); std::atomic_flag g = ATOMIC_FLAG_INIT; CHECK(!g.test_and_set(), "flag"); break; }
    case 9: { std::optional<int> o; CHECK(!o, "opt"); o = 3; try { std::optional<int>().value(); } catch (const std::bad_optional_access&) { REACH("opt"); } std::variant<int, std::string> v("x"); CHECK(std::get<1>(v) == "x", "var"); std::any a = 5; CHECK(std::any_cast<int>(a) == 5, "any"); break; }
    case 10: { CHECK(std::stoi("12") == 12 && std::stoul("7") == 7 && std::stoll("-3") == -3, "sto"); CHECK(std::to_string(-5) == "-5", "tos"); int v; std::from_chars("42", "42" + 2, v); char b[4]; std::to_chars(b, b + 4, 17); CHECK(std::stod("2.5") == 2.5, "stod"); break; }
    case 11: { std::deque<int> d; for (int i = 0; i < 200; ++i) d.push_back(i); d.pop_front(); std::list<int> l{1, 2}; l.splice(l.begin(), std::list<int>{3}); l.sort(); l.reverse(); l.remove(2); l.unique(); std::set<int> t{1}; std::priority_queue<int> q; q.push(2); std::forward_list<int> fl{1}; std::multimap<int, int> mm; mm.emplace(1, 2); std::unordered_set<int> us{1, 2}; std::bitset<9> bs(5); CHECK(bs.count() == 2 && l.size() == 2, "cont"); break; }
    case 12: { std::string t = s + "abc"; t.find("b"); t.rfind('c'); t.find_first_of("xyz"); t.find_last_not_of("q"); t.replace(1, 2, "zz"); t.insert(0, "k"); t.erase(2, 1); t.append(3, 'r'); t.compare("k"); std::string_view w(t); w.substr(1).find('r'); t.resize(40); t.shrink_to_fit(); CHECK(t.size() == 40, "str"); CHECK(strlen("abc") == 3 && strchr("abc", 'b') && !strcmp("a", "a") && strstr("abc", "bc"), "cstr"); break; }
    case 13: { std::function<int(int)> f = [x](int y) { return x + y; }; auto b = std::bind(f, std::placeholders::_1); CHECK(b(1) == x + 1, "fn"); std::shared_ptr<int> p = std::make_shared<int>(3); std::weak_ptr<int> w = p; p.reset(); CHECK(w.expired(), "weak"); try { std::shared_ptr<int> z(w); } catch (const std::bad_weak_ptr&) { REACH("weak"); } try { std::function<void()>()(); } catch (const std::bad_function_call&) { REACH("badfn"); } break; }
    case 14: { double d = x; CHECK(std::floor(d) == d && std::ceil(2.5) == 3 && std::sqrt(4.0) == 2 && std::abs(-2.5) == 2.5 && std::fmod(5.0, 3.0) == 2, "math"); CHECK(std::pow(2.0, 3) == 8, "pow"); CHECK(std::log2(8.0) == 3, "log2"); CHECK(std::round(2.4) == 2 && std::lround(2.6) == 3, "round"); break; }
    case 15: { std::mutex m; std::condition_variable c; bool r = false; std::thread t([&] { std::lock_guard<std::mutex> l(m); r = true; c.notify_all(); }); { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return r; }); c.wait_for(l, std::chrono::seconds(1), [&] { return r; }); } t.join(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); std::mutex m2; std::lock(m, m2); m.unlock(); m2.unlock(); std::scoped_lock sl(m, m2); std::condition_variable_any ca; ca.notify_one(); break; }
    case 16: { std::mt19937 g(5); std::uniform_int_distribution<int> d(0, 3); CHECK(d(g) <= 3, "rnd"); std::vector<int> v{1, 2, 3}; std::shuffle(v.begin(), v.end(), g); break; }
    case 17: { std::error_code e = std::make_error_code(std::errc::invalid_argument); CHECK(e.value() == EINVAL, "ec"); e.message(); try { throw std::system_error(e); } catch (const std::system_error& q) { CHECK(q.code() == e, "se"); } std::string w; try { throw std::runtime_error("x"); } catch (const std::exception& q) { w = q.what(); } CHECK(w == "x", "what"); try { std::vector<int>().at(1); } catch (const std::out_of_range&) { REACH("oor"); } try { std::string("a").substr(3); } catch (const std::out_of_range&) { REACH("oor"); } break; }
    case 18: { std::chrono::steady_clock::now(); std::chrono::system_clock::now(); std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::seconds(3)); auto p = std::make_exception_ptr(std::runtime_error("a")); try { std::rethrow_exception(p); } catch (const std::runtime_error&) { REACH("rethrow"); } CHECK(std::uncaught_exceptions() == 0, "unc"); break; }
    case 19: { std::regex r("[a-c]+"); CHECK(std::regex_match("abc", r), "regex"); break; }
    case 20: { std::cout << "a" << 1 << std::endl; std::cerr << "b" << std::flush; char b[20]; snprintf(b, 20, "%d %s %05x %lu", 3, "x", 255, 5ul); CHECK(!strcmp(b, "3 x 000ff 5"), "snprintf"); int a; unsigned c; CHECK(sscanf("12 ff", "%d %x", &a, &c) == 2 && a == 12 && c == 255, "sscanf"); break; }
    case 21: { std::packaged_task<int()> t([] { return 2; }); auto f = t.get_future(); t(); CHECK(f.get() == 2, "pt"); std::promise<void> p; auto g = p.get_future().share(); p.set_value(); g.wait(); try { std::future<int>().get(); } catch (const std::future_error&) { REACH("fe"); } std::promise<int> q; q.set_exception(std::make_exception_ptr(1)); try { q.get_future().get(); } catch (int) { REACH("int"); } break; }
    case 22: { thread_local int tl = 3; tl += x; std::thread t([] { tl = 9; }); t.join(); CHECK(tl == 3 + x, "tls"); std::atomic<int> a{0}; std::thread u([&] { a = 1; }); while (!a) std::this_thread::yield(); u.join(); std::thread::hardware_concurrency(); break; }
    case 23: { std::wstring w = L"ab"; w += L'c'; std::u16string u; u.push_back('x'); CHECK(w.size() == 3, "w"); std::vector<bool> vb(70, true); vb.flip(); vb.resize(90); std::tuple<int, int> t(1, 2); int q, r; std::tie(q, r) = t; std::pair<int, int> pr = std::minmax(3, 4); CHECK(pr.first == 3, "pair"); std::array<int, 3> ar{{1, 2, 3}}; CHECK(std::find_if(ar.begin(), ar.end(), [](int z) { return z == 2; }) != ar.end(), "arr"); std::unique_ptr<int[]> up(new int[3]()); std::transform(ar.begin(), ar.end(), up.get(), [](int z) { return z * 2; }); CHECK(up[2] == 6, "tr"); break; }
  }
  REACH("done");
}
