// Development aid (not a check): exercises library interfaces the models and rt/rt.cpp cover, so that sample paths compare them with
// the real libraries. Run: VERIF_SRC=apitest.cpp VERIF_DEV='{}' python3 check.py C00
#include "yamlh.h"
#include <boost/filesystem.hpp>
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <charconv>
#include <cctype>
#include <chrono>
#include <deque>
#include <forward_list>
#include <functional>
#include <iomanip>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <future>
#include <condition_variable>
namespace fs = boost::filesystem;
static void T(const char *n, const str &s) { trace_str(n, s); }
static void T(const char *n, long v) { sym_tracev(n, (unsigned long) v); }
struct P : std::enable_shared_from_this<P> { virtual ~P() {} int x = 1; };
struct Q : P { int y = 2; };
enum col { red, green };
static int pathn(const str &s)
{
	if (s.compare(0, 2, "//") == 0) sym_kill();
	fs::path p(s);
	T("filename", p.filename().string()); T("parent", p.parent_path().string()); T("stem", p.stem().string()); T("ext", p.extension().string());
	T("abs", p.is_absolute()); T("hasp", p.has_parent_path()); T("hasf", p.has_filename()); T("rel", p.relative_path().string());
	T("join", (p / "x").string()); T("join2", (fs::path("y") / p).string());
	fs::path q = p; q.remove_filename(); T("rm", q.string());
	q = p; q.replace_extension(".log"); T("re", q.string());
	int n = 0; for (auto &x : p) { T("part", x.string()); n++; }
	T("eq", p == fs::path("a/b"));
	return n;
}
static void yaml()
{
	YAML::Node n = y_map(), s = y_map();
	y_put(s, "port", y_scalar("12")); y_put(s, "name", y_scalar("x")); y_put(n, "sec", s); y_put(n, "sc", y_scalar("v")); y_put(n, "nul", y_null());
	YAML::Node q = y_seq(); y_push(q, y_scalar("1")); y_push(q, y_scalar("2")); y_put(n, "seq", q);
	const YAML::Node &c = n;
	for (auto it = c.begin(); it != c.end(); ++it) T("key", it->first.as<std::string>());
	for (const auto &kv : n["sec"]) T(kv.first.as<std::string>().c_str(), kv.second.as<std::string>());
	for (auto x : c["seq"]) T("item", (long) x.as<int>());
	T("size", (long) c.size());
	YAML::Node a = n["sec"];
	T("p", (long) a["port"].as<std::uint16_t>(7)); T("d", (long) a["none"].as<int>(7)); T("def", a["none2"].IsDefined()); T("size", (long) a.size());
	T("typ", (long) a["none"].Type()); T("c", (long) c["nope"].IsDefined());
	try { T("x", c["nope"].as<std::string>()); } catch (const YAML::InvalidNode &) { T("exc", "invalid"); }
	try { T("x", c["nope"]["b"].as<std::string>()); } catch (const YAML::Exception &) { T("exc", "invalid2"); }
	try { T("x", c["sc"]["b"].IsDefined()); } catch (const YAML::BadSubscript &) { T("exc", "sub"); }
	try { T("x", (long) c["sc"].as<int>()); } catch (const YAML::BadConversion &) { T("exc", "conv"); }
	try { T("x", c["seq"].as<std::string>()); } catch (const YAML::RepresentationException &) { T("exc", "conv2"); }
	T("null", c["nul"].as<std::string>()); T("fb", c["nope"].as<std::string>("dflt")); T("fb2", c["seq"].as<std::string>("dflt"));
	try { T("m", c["nope"].IsMap()); } catch (const YAML::InvalidNode &) { T("exc", "m"); }
	YAML::Node z;
	z = c["sec"]; T("z", z["name"].as<std::string>()); T("zn", (long) z.IsMap());
	YAML::Node u = n["undef"]["deep"]; T("u", u.IsDefined()); T("um", (long) n["undef"].Type());
	if (auto v = c["sec"]["port"]) T("if", v.Scalar());
	std::vector<int> vi = c["seq"].as<std::vector<int>>(); T("vi", (long) vi.size());
	std::map<std::string, std::string> m = s.as<std::map<std::string, std::string>>(); T("m", (long) m.size()); for (auto &k : m) T("mk", k.first);
	YAML::Node e; T("e", (long) e.Type()); T("ed", (long) e.IsDefined()); T("es", (long) e.size());
}
extern "C" void sym_main()
{
	switch (sym_pick(30, "what")) {
	case 0: { str s; int n = (int) sym_pick(5, "n"); for (int i = 0; i < n; i++) s += "/.ab"[sym_pick(4, "c")]; pathn(s); break; }
	case 1: yaml(); break;
	case 2: { std::vector<int> v{3, 1, 2, 5, 4}; std::sort(v.begin(), v.end()); std::stable_sort(v.begin(), v.end(), std::greater<int>()); T("a", std::accumulate(v.begin(), v.end(), 0)); std::stable_partition(v.begin(), v.end(), [](int x) { return x & 1; }); T("f", v[0]); v.erase(std::remove_if(v.begin(), v.end(), [](int x) { return x > 2; }), v.end()); T("n", (long) v.size()); std::rotate(v.begin(), v.begin() + 1, v.end()); std::reverse(v.begin(), v.end()); T("mx", *std::max_element(v.begin(), v.end())); std::nth_element(v.begin(), v.begin(), v.end()); std::make_heap(v.begin(), v.end()); T("lb", std::lower_bound(v.begin(), v.end(), 2) - v.begin()); T("c", std::count_if(v.begin(), v.end(), [](int x) { return x == 1; })); break; }
	case 3: { std::unordered_map<std::string, int> m; for (int i = 0; i < 30; i++) m["k" + std::to_string(i)] = i; m.erase("k3"); T("n", (long) m.size()); T("v", m.at("k7")); std::unordered_set<std::string> u{"a", "b", "a"}; T("u", (long) u.size()); std::unordered_multimap<std::string, int> mm; mm.emplace("a", 1); mm.emplace("a", 2); T("mm", (long) mm.count("a")); auto r = mm.equal_range("a"); T("d", std::distance(r.first, r.second)); std::unordered_map<std::shared_ptr<int>, int> sp; auto k = std::make_shared<int>(3); sp[k] = 9; T("sp", sp[k]); break; }
	case 4: { std::map<std::string, std::vector<int>> m; m["b"].push_back(1); m["a"]; for (auto &x : m) T("k", x.first); auto it = m.lower_bound("aa"); T("lb", it->first); m.insert_or_assign("c", std::vector<int>{}); m.try_emplace("d"); auto nh = m.extract("a"); T("n", (long) m.size()); m.merge(std::map<std::string, std::vector<int>>{{"z", {}}}); std::multimap<int, int> mm{{1, 2}, {1, 3}}; T("mm", (long) mm.count(1)); std::set<int> s{3, 1}; T("s", *s.begin()); std::multiset<int> ms{1, 1}; T("ms", (long) ms.size()); T("ub", (long) (mm.upper_bound(1) == mm.end())); break; }
	case 5: { std::deque<int> d; for (int i = 0; i < 200; i++) d.push_back(i); d.pop_front(); d.insert(d.begin() + 5, 7); d.erase(d.begin()); T("d", d[5]); std::list<int> l{3, 1, 2}; l.sort(); l.splice(l.begin(), l, std::prev(l.end())); T("l", l.front()); l.remove(1); l.reverse(); l.unique(); std::forward_list<int> f{1, 2}; f.push_front(0); T("f", f.front()); std::queue<int> q; q.push(1); std::stack<int> st; st.push(2); std::priority_queue<int> pq; pq.push(3); pq.push(9); T("pq", pq.top()); std::array<int, 3> a{1, 2, 3}; T("a", a.at(1)); std::bitset<4> b("0101"); T("b", (long) b.count()); break; }
	case 6: { str s = "hello world"; T("f", (long) s.find("wor")); T("r", (long) s.rfind('o')); T("ff", (long) s.find_first_of("wx")); T("fl", (long) s.find_last_not_of("dl")); s.replace(0, 5, "bye"); s.insert(3, "!"); s.erase(0, 1); T("s", s); T("c", s.compare("zz") < 0); s.resize(20, '.'); s += 'x'; s.append(3, 'y'); T("s", s); std::string_view v(s); T("v", str(v.substr(1, 4))); T("sw", (long) v.find('!')); s.assign("q"); s.push_back('r'); s.pop_back(); T("s", s + "z" + 'c'); break; }
	case 7: { std::stringstream ss; ss << "a " << 12 << ' ' << std::hex << 255 << std::dec << std::setw(5) << std::setfill('0') << 42 << true << std::endl; T("ss", ss.str()); std::string w; int i; ss >> w >> i; T("w", w); T("i", i); std::istringstream is("x|y||z"); while (std::getline(is, w, '|')) T("g", w); std::ostringstream os; os << std::boolalpha << false << 3u << -4l; T("os", os.str()); std::copy(w.begin(), w.end(), std::ostream_iterator<char>(os, ",")); T("os", os.str()); break; }
	case 25: { std::istringstream is("1 2x  "); int v = 9; while (is >> v) T("v", v); T("v", v); T("st", (long) is.fail() * 2 + is.eof()); is.clear(); str r; std::getline(is, r); T("r", r); T("g", (long) is.eof()); std::istringstream e(""); r = "keep"; std::getline(e, r); T("r", r); char c = 0; std::istringstream g("ab"); g.get(c); T("c", c); T("pk", (long) g.peek()); g.ignore(1); T("e", (long) !!g); std::stringstream z; z.str("q w"); z >> r; T("r", r); z.clear(); z.str(""); z << 5; T("z", z.str()); T("tell", (long) z.str().size()); break; }
	case 8: { T("i", std::stoi("12")); T("l", (long) std::stoul("7x")); T("ll", (long) std::stoll("-9")); std::size_t p; T("p", (std::stoi("12ab", &p), (long) p)); try { std::stoi("x"); } catch (const std::invalid_argument &e) { T("e", e.what()); } try { std::stoul("99999999999999999999999"); } catch (const std::out_of_range &e) { T("e", e.what()); } T("ts", std::to_string(-3) + std::to_string(4ull)); T("at", (long) std::atoi("33")); T("strtol", std::strtol("0x1f", nullptr, 0)); int v = 0; str cs = "451z"; auto r = std::from_chars(cs.data(), cs.data() + cs.size(), v); T("fc", v); T("fcp", (long) (r.ptr - cs.data())); char b[20]; auto q = std::to_chars(b, b + 20, 77); T("tc", str(b, q.ptr)); break; }
	case 9: { std::function<int(int)> f = [](int x) { return x + 1; }; T("f", f(1)); auto g = std::bind(f, std::placeholders::_1); T("g", g(2)); std::function<int(int)> h; try { h(1); } catch (const std::bad_function_call &) { T("e", "bad"); } auto m = std::mem_fn(&str::size); str s("abc"); T("m", (long) m(s)); T("ref", (long) std::ref(s).get().size()); T("inv", (long) std::invoke(&str::size, s)); break; }
	case 10: { auto p = std::make_shared<Q>(); std::shared_ptr<P> b = p; T("d", std::dynamic_pointer_cast<Q>(b)->y); std::weak_ptr<P> w = b; T("e", (long) w.expired()); T("uc", (long) b.use_count()); auto l = w.lock(); T("sh", (long) (b->shared_from_this() == b)); std::unique_ptr<P> u = std::make_unique<Q>(); T("dc", dynamic_cast<Q *>(u.get())->y); T("ty", (long) (typeid(*u) == typeid(Q))); std::shared_ptr<int> al(p, &p->x); T("al", *al); std::set<std::shared_ptr<P>> st{b, p}; T("st", (long) st.size()); std::map<std::weak_ptr<P>, int, std::owner_less<std::weak_ptr<P>>> om; om[w] = 1; T("om", (long) om.count(p)); break; }
	case 11: { std::optional<int> o; T("o", (long) o.has_value()); o = 3; T("v", o.value_or(1)); std::variant<int, str> v = str("x"); T("vi", (long) v.index()); T("vg", std::get<str>(v)); std::visit([](auto &x) { (void) x; }, v); std::any a = 3; T("a", std::any_cast<int>(a)); auto t = std::make_tuple(1, str("b")); T("t", std::get<1>(t)); int q; str r; std::tie(q, r) = t; T("q", q); auto [x, y] = t; T("y", y); std::pair<int, int> pr{1, 2}; T("lt", (long) (pr < std::make_pair(1, 3))); break; }
	case 12: { std::mutex m; { std::lock_guard<std::mutex> g(m); } std::unique_lock<std::mutex> u(m); u.unlock(); std::recursive_mutex rm; { std::lock_guard<std::recursive_mutex> g(rm); std::lock_guard<std::recursive_mutex> g2(rm); } std::atomic<int> a{1}; a++; a.fetch_add(2); int ex = 4; T("ce", (long) a.compare_exchange_strong(ex, 9)); std::atomic_bool ab(false); T("x", (long) ab.exchange(true)); std::once_flag of; std::call_once(of, [] { T("once", 1l); }); std::scoped_lock sl(m); T("a", (long) a.load()); break; }
	case 13: { using namespace std::chrono; auto a = steady_clock::now(); auto b = a + milliseconds(1500); T("d", (long) duration_cast<seconds>(b - a).count()); T("ms", (long) duration_cast<milliseconds>(hours(1)).count()); T("cmp", (long) (b > a)); auto e = a.time_since_epoch(); (void) e; duration<double> dd = b - a; T("dd", (long) (dd.count() * 1000)); T("fl", (long) floor<seconds>(milliseconds(2500)).count()); break; }
	case 14: { try { try { throw std::runtime_error("in"); } catch (...) { std::throw_with_nested(std::logic_error("out")); } } catch (const std::exception &e) { T("w", e.what()); try { std::rethrow_if_nested(e); } catch (const std::exception &f) { T("n", f.what()); } } std::exception_ptr p; try { throw 5; } catch (...) { p = std::current_exception(); } try { std::rethrow_exception(p); } catch (int i) { T("i", i); } try { std::vector<int> v; v.at(3); } catch (const std::out_of_range &) { T("oor", 1l); } try { throw std::system_error(std::make_error_code(std::errc::invalid_argument), "m"); } catch (const std::system_error &e) { T("c", e.code().value()); } break; }
	case 15: { str s = "AbC"; std::transform(s.begin(), s.end(), s.begin(), ::tolower); T("s", s); std::vector<str> v{"a", "b"}, w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](const str &x) { return x == "b"; }); T("w", w[0]); std::move(v.begin(), v.end(), std::back_inserter(w)); T("n", (long) w.size()); T("any", (long) std::any_of(w.begin(), w.end(), [](const str &x) { return x.empty(); })); T("eq", (long) std::equal(w.begin(), w.begin() + 1, w.begin())); std::for_each(w.begin(), w.end(), [](const str &x) { T("e", x); }); T("mm", (long) (std::mismatch(s.begin(), s.end(), "abx").first - s.begin())); T("lex", (long) std::lexicographical_compare(s.begin(), s.end(), w[0].begin(), w[0].end())); T("se", (long) (std::search(s.begin(), s.end(), w[0].begin(), w[0].end()) - s.begin())); std::iota(s.begin(), s.end(), 'a'); T("s", s); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); T("n", (long) w.size()); std::vector<bool> vb(70, true); vb[3] = false; T("vb", (long) std::count(vb.begin(), vb.end(), true)); break; }
	case 16: { char b[40]; snprintf(b, sizeof b, "%s-%d-%02x-%5u|%-4s|%zu|%c", "x", -3, 10, 7u, "q", (size_t) 9, 'z'); T("b", b); T("m", (long) std::memcmp("ab", "ac", 2) < 0); T("sc", (long) (std::strcmp("a", "a"))); T("st", std::strstr("hello", "ll")); T("ch", std::strchr("hello", 'l')); T("rc", std::strrchr("hello", 'l')); T("nc", (long) std::strncmp("abc", "abd", 2)); T("mc", (const char *) std::memchr("hello", 'e', 5)); char d[10] = "abc"; std::memmove(d + 1, d, 3); d[4] = 0; T("d", d); strcat(d, "z"); strncpy(d, "qq", 2); T("d", d); T("sp", (long) std::strspn("aab", "a")); T("cs", (long) strcspn("aab", "b")); T("cc", (long) strcasecmp("AB", "ab")); break; }
	case 17: { str s = "k=v=w"; auto p = std::find(s.begin(), s.end(), '='); T("k", str(s.begin(), p)); T("v", str(p + 1, s.end())); std::vector<str> parts; size_t st = 0, e; while ((e = s.find('=', st)) != str::npos) { parts.push_back(s.substr(st, e - st)); st = e + 1; } parts.push_back(s.substr(st)); T("n", (long) parts.size()); str j = std::accumulate(std::next(parts.begin()), parts.end(), parts[0], [](str a, const str &b) { return std::move(a) + ";" + b; }); T("j", j); s.shrink_to_fit(); s.reserve(100); std::swap(s, j); T("s", s); T("h", (long) (std::hash<str>()("a") == std::hash<str>()("a"))); T("max", (long) std::max({1, 5, 2})); T("cl", (long) std::clamp(9, 1, 3)); T("ex", std::exchange(s, "n")); str mult = R"(x)"; T("raw", mult); T("isd", (long) !!std::isdigit('3')); T("rb", str(s.rbegin(), s.rend())); break; }
	case 18: { std::shared_mutex m; std::shared_lock<std::shared_mutex> l(m); std::timed_mutex tm; tm.try_lock(); T("x", 1l); tm.unlock(); break; }
	case 19: { auto f = std::make_shared<std::function<void(int)>>(); int n = 0; *f = [&](int d) { n++; if (d) (*f)(d - 1); }; (*f)(4); T("n", n); std::initializer_list<int> il{1, 2, 3}; for (int x : il) n += x; T("n", n); struct S { int a; str b; bool operator<(const S &o) const { return std::tie(a, b) < std::tie(o.a, o.b); } }; std::set<S> s{{1, "b"}, {1, "a"}}; T("s", s.begin()->b); std::map<std::pair<int, str>, int> m; m[{1, "x"}]++; T("m", (long) m.size()); col c = green; switch (c) { case red: T("c", 0l); break; case green: T("c", 1l); } std::reference_wrapper<int> r(n); r.get()++; T("n", n); break; }
	case 20: { str s; for (int i = 0; i < 40; i++) s += "ab"; T("s", s.substr(70)); std::vector<str> v(20, s); v.insert(v.begin() + 2, "q"); v.erase(v.begin(), v.begin() + 2); T("v", v.front()); v.resize(3); v.emplace(v.begin(), "e"); v.swap(v); T("b", v.back().substr(0, 2)); std::vector<std::unique_ptr<int>> up; up.push_back(std::make_unique<int>(4)); auto it = std::make_move_iterator(up.begin()); std::unique_ptr<int> x = *it; T("x", *x); double d = 2.5; T("dd", (long) (d * 2)); T("dv", (long) (7 / d * 10)); break; }
	case 21: { std::promise<int> p; auto f = p.get_future(); p.set_value(4); T("f", f.get()); break; }
	case 22: { std::condition_variable cv; cv.notify_all(); std::mutex m; std::unique_lock<std::mutex> l(m); T("w", (long) (cv.wait_for(l, std::chrono::milliseconds(0), [] { return true; }))); break; }
	case 23: { std::cout << ""; std::cerr << ""; std::clog << ""; T("x", 1l); break; }
	case 24: { std::vector<std::pair<str, int>> v{{"b", 1}, {"a", 2}}; std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); T("v", v[0].first); auto it = std::find_if(v.rbegin(), v.rend(), [](auto &x) { return x.second == 1; }); T("i", it->first); T("mm", std::minmax_element(v.begin(), v.end()).first->first); std::vector<int> a{1, 2, 3}, b{2, 3, 4}, c; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c)); T("c", (long) c.size()); T("inc", (long) std::includes(a.begin(), a.end(), c.begin(), c.end())); std::partial_sort(a.begin(), a.begin() + 1, a.end()); T("ip", (long) std::inner_product(a.begin(), a.end(), b.begin(), 0)); std::generate_n(std::back_inserter(c), 3, [n = 0]() mutable { return n++; }); T("c", (long) c.size()); T("adj", (long) (std::adjacent_find(c.begin(), c.end()) == c.end())); std::fill(c.begin(), c.end(), 7); T("all", (long) std::all_of(c.begin(), c.end(), [](int x) { return x == 7; })); break; }
	default: break;
	}
	sym_reach("end");
}
