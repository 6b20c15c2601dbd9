// STDTEST: standard library and OpenMP features the engine has to carry, compared with native runs (bin/check.py STDTEST).
// No job: streams, strtod, snprintf, OpenMP tasks, long double division, symbolic hypot, timed waits in a loop.
#include <sym.h>
#include <algorithm>
#include <numeric>
#include <array>
#include <atomic>
#include <deque>
#include <forward_list>
#include <functional>
#include <future>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <any>
#include <vector>
#include <cmath>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <bitset>
#include <valarray>
#include <chrono>
#include <omp.h>
#include <Eigen/Dense>
static std::vector<int> in(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back((int)sym_range(0, 3, "v")); return v; }
HARNESS(stable) { auto v = in(3); std::stable_sort(v.begin(), v.end()); sym_assert(std::is_sorted(v.begin(), v.end()), "s"); auto p = std::partition(v.begin(), v.end(), [](int x) { return x > 1; }); std::rotate(v.begin(), p, v.end()); std::reverse(v.begin(), v.end()); std::nth_element(v.begin(), v.begin() + 1, v.end()); std::partial_sort(v.begin(), v.begin() + 2, v.end()); std::inplace_merge(v.begin(), v.begin() + 1, v.end()); sym_cover("x"); }
HARNESS(stable2) { std::vector<double> v(40); for (int i = 0; i < 40; i++) v[i] = (i * 7) % 40; std::sort(v.begin(), v.end(), std::greater<double>()); std::stable_sort(v.begin(), v.end()); std::iota(v.begin(), v.end(), 0.0); sym_observe_d(std::accumulate(v.begin(), v.end(), 0.0)); sym_observe_d(std::inner_product(v.begin(), v.end(), v.begin(), 0.0)); std::transform(v.begin(), v.end(), v.begin(), [](double x) { return x * 2; }); auto mm = std::minmax_element(v.begin(), v.end()); sym_observe_d(*mm.second); v.erase(std::remove_if(v.begin(), v.end(), [](double x) { return x > 10; }), v.end()); std::generate(v.begin(), v.end(), [] { return 1.0; }); std::vector<double> w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](double x) { return x > 0; }); std::partial_sum(v.begin(), v.end(), w.begin()); std::fill_n(w.begin(), 2, 3.0); sym_observe(std::count_if(w.begin(), w.end(), [](double x) { return x > 2; })); sym_observe(std::distance(w.begin(), std::lower_bound(w.begin(), w.end(), 4.0))); }
HARNESS(containers) { std::deque<int> d; std::multimap<int, int> mm; std::multiset<int> ms; std::unordered_multimap<int, int> um; std::forward_list<int> fl; std::priority_queue<int> pq; std::stack<int> st; std::queue<int> q; for (int x : in(2)) { d.push_front(x); mm.emplace(x, 1); ms.insert(x); um.emplace(x, 2); fl.push_front(x); pq.push(x); st.push(x); q.push(x); } auto it = mm.lower_bound(1); if (it != mm.end()) mm.erase(it); fl.sort(); fl.reverse(); std::map<std::tuple<int, int>, std::string> tm; tm[{1, 2}] = "a"; auto n = tm.extract(tm.begin()); tm.insert(std::move(n)); tm.try_emplace({1, 3}, "b"); std::list<int> l(d.begin(), d.end()), l2; l2.splice(l2.end(), l); l2.remove_if([](int x) { return x == 1; }); l2.merge(l); sym_observe(mm.size() + tm.size() + pq.top()); std::vector<bool> vb(70, true); vb[3] = false; vb.flip(); sym_observe(std::count(vb.begin(), vb.end(), true)); std::bitset<70> bs; bs.set(65); sym_observe(bs.count()); std::valarray<double> va(3.0, 4); sym_observe_d(va.sum()); }
HARNESS(opt) { std::optional<int> o; std::variant<int, std::string> v; std::any a; int k = sym_choice(2, "k"); if (k) { o = 3; v = std::string("abc"); a = 5; } bool t = false; try { (void)o.value(); } catch (const std::bad_optional_access&) { t = true; } sym_assert(t == !k, "o"); try { (void)std::get<std::string>(v); } catch (const std::bad_variant_access&) { t = true; } if (k) { sym_assert(std::any_cast<int>(a) == 5, "a"); sym_assert(std::visit([](auto& x) { return sizeof(x) > 4; }, v), "v"); } auto s = std::make_shared<std::vector<int>>(3); std::weak_ptr<std::vector<int>> w = s; auto u = std::make_unique<int[]>(4); s.reset(); sym_assert(w.expired(), "w"); sym_assert(w.lock() == nullptr, "w"); auto [x, y] = std::make_pair(1, 2); std::tie(x, y) = std::make_tuple(y, x); auto b = std::bind([](int p, int q) { return p - q; }, std::placeholders::_2, 3); sym_observe(b(1, 9)); auto mf = std::mem_fn(&std::vector<int>::size); std::vector<int> vv(4); sym_observe(mf(vv)); std::reference_wrapper<int> rw(x); rw.get() = 4; }
HARNESS(strings) { std::string s = "hello world"; std::string_view sv(s); sym_observe(sv.find("wor")); s.replace(0, 5, "bye"); s.insert(3, "!!"); s.erase(0, 1); s += std::to_string(12345) + std::to_string(-7L); s.append(3, 'x'); sym_observe(s.size()); sym_observe(s.rfind('x')); sym_observe(s.compare("z") < 0); sym_observe(std::stoi("42")); sym_observe(strncmp("abc", "abd", 2)); std::string r(s.rbegin(), s.rend()); sym_observe(r[0]); sym_observe(strtol("77", nullptr, 10)); }
HARNESS(streams) { std::ostringstream o; o << 3 << " " << 2.5 << "x" << std::setw(4) << 7 << std::hex << 255; std::string s = o.str(); sym_observe(s.size()); std::cout << "hi" << 3 << std::endl; std::cerr << 2.5; }
HARNESS(stod) { sym_observe_d(std::stod("2.5")); }
HARNESS(tostr) { std::string s = std::to_string(2.5); sym_observe(s.size()); char b[20]; snprintf(b, 20, "%d-%s", 5, "ab"); sym_observe(strlen(b)); }
HARNESS(threads) { int c = 0; std::mutex m; std::vector<std::thread> t; for (int i = 0; i < 2; i++) t.emplace_back([&] { std::unique_lock<std::mutex> l(m); c++; }); for (auto& x : t) x.join(); sym_assert(c == 2, "c"); }
HARNESS(threads2) { int c = 0; std::shared_mutex m; std::recursive_mutex r; std::once_flag f; auto w = [&] { std::unique_lock<std::shared_mutex> l(m); std::scoped_lock<std::recursive_mutex> k(r); c++; }; auto a = std::async(std::launch::async, w); w(); a.get(); { std::shared_lock<std::shared_mutex> l(m); sym_assert(c == 2, "c"); } }
HARNESS(once) { int c = 0; std::once_flag f; std::call_once(f, [&] { c++; }); std::call_once(f, [&] { c++; }); sym_assert(c == 1, "once"); }
HARNESS(promise) { std::promise<int> p; auto fu = p.get_future(); std::thread t([&] { p.set_value(4); }); sym_assert(fu.get() == 4, "p"); t.join(); auto d = std::async(std::launch::deferred, [] { return 9; }); sym_assert(d.get() == 9, "d"); auto e = std::async([] { return 3; }); sym_assert(e.valid() && e.get() == 3, "e"); }
HARNESS(promise2) { std::packaged_task<int(int)> t([](int x) { if (x == 3) throw std::runtime_error("x"); return x + 1; }); auto f = t.get_future(); int x = sym_choice(4, "x"); std::thread th(std::move(t), x); bool thrown = false; int r = 0; try { r = f.get(); } catch (const std::runtime_error& e) { thrown = true; } th.join(); sym_assert(thrown == (x == 3), "t"); sym_observe(r); }
HARNESS(cvw) { std::mutex m; std::condition_variable cv; bool go = false; auto a = std::async(std::launch::async, [&] { { std::lock_guard<std::mutex> l(m); go = true; } cv.notify_one(); }); std::unique_lock<std::mutex> l(m); while (!go) cv.wait(l); sym_cover("x"); }
HARNESS(cvf) { std::mutex m; std::condition_variable cv; bool go = false; auto a = std::async(std::launch::async, [&] { { std::lock_guard<std::mutex> l(m); go = true; } cv.notify_one(); }); std::unique_lock<std::mutex> l(m); while (!go) cv.wait_for(l, std::chrono::milliseconds(5)); auto f = std::async(std::launch::async, [] { return 2; }); l.unlock(); f.wait(); while (f.wait_for(std::chrono::milliseconds(1)) != std::future_status::ready) std::this_thread::yield(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); sym_observe(f.get()); }
HARNESS(omp1) { int s = 0; double mx = 0; int a[6] = {1, 5, 2, 4, 3, 0};
#pragma omp parallel for num_threads(2) reduction(+:s) reduction(max:mx)
  for (int i = 0; i < 6; i++) { s += a[i]; mx = std::max(mx, (double)a[i]); }
  sym_assert(s == 15 && mx == 5.0, "r"); int c = 0;
#pragma omp parallel num_threads(2)
  {
#pragma omp for schedule(guided)
    for (int i = 0; i < 3; i++) {
#pragma omp critical
      c++; }
#pragma omp barrier
#pragma omp single
    c++;
#pragma omp atomic
    c += 2;
  }
  sym_cover("x"); }
HARNESS(omp2) { int c = 0;
#pragma omp parallel sections num_threads(2)
  {
#pragma omp section
    {
#pragma omp atomic
    c++;
    }
#pragma omp section
    {
#pragma omp atomic
    c++;
    }
  }
  sym_assert(c == 2, "s");
  long t = 0;
#pragma omp parallel for num_threads(2) collapse(2) reduction(+:t)
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) t += i + j;
  sym_assert(t == 4, "c"); }
HARNESS(omptask) { int c = 0;
#pragma omp parallel num_threads(2)
#pragma omp single
  for (int i = 0; i < 2; i++) {
#pragma omp task
    {
#pragma omp atomic
    c++; } }
  sym_assert(c == 2, "t"); }
HARNESS(mathf) { double x = sym_double_grid(-8, 8, 1, "x"); sym_observe_d(std::abs(x)); sym_observe(std::signbit(x)); sym_observe(std::isfinite(x)); sym_observe(std::isnan(x)); sym_observe_d(std::copysign(1.0, x)); sym_observe_d(std::fmin(x, 1.0)); sym_observe_d(std::trunc(x)); sym_observe(std::lround(x)); sym_observe_d(std::nearbyint(x)); sym_observe_d(std::fdim(x, 1.0)); sym_observe_d(std::fma(x, 2.0, 1.0)); sym_observe_d(std::ldexp(x, 2)); sym_observe(std::fpclassify(x)); sym_observe(std::isnormal(x)); }
HARNESS(mathg) { double x = sym_double_grid(-8, 8, 1, "x"); double ip; sym_observe_d(std::modf(x, &ip)); sym_observe_d(std::hypot(3.0, 4.0)); sym_observe_d(std::nextafter(1.0, 2.0)); sym_observe_d(std::remainder(5.0, 3.0)); sym_observe_d(std::sinh(0.5) + std::tanh(0.5) + std::expm1(0.1) + std::log1p(0.1) + std::erf(0.3)); double s, c; sincos(0.3, &s, &c); sym_observe_d(s); }
HARNESS(mathh) { double x = sym_double_grid(-8, 8, 1, "x"); sym_observe_d(std::hypot(x, 0.0)); }
HARNESS(mathp) { double x = sym_double_grid(-8, 8, 1, "x"); sym_observe_d(std::pow(x, 2)); sym_observe_d(std::pow(x, 2.0)); }
HARNESS(rng) { std::mt19937_64 g(3); std::mt19937 h(4); std::uniform_int_distribution<int> d(0, 9); std::uniform_real_distribution<double> u(0, 1); std::normal_distribution<double> n(0, 1); sym_observe(d(g)); sym_observe_d(u(g)); sym_observe_d(n(h)); std::vector<int> v{1, 2, 3, 4}; std::shuffle(v.begin(), v.end(), g); sym_observe(v[0]); }
HARNESS(eig) { Eigen::MatrixXd m(3, 3); m << 1, 2, 3, 4, 5, 6, 7, 8, 10; Eigen::VectorXd v = m.col(1); sym_observe_d(m.determinant()); sym_observe_d(m.inverse()(0, 0)); sym_observe_d((m * v).norm()); Eigen::MatrixXd::Index i; sym_observe_d(m.rowwise().maxCoeff().minCoeff(&i)); sym_observe_d(m.ldlt().solve(v)(0)); sym_observe_d(m.fullPivLu().solve(v)(0)); Eigen::JacobiSVD<Eigen::MatrixXd> svd(m, Eigen::ComputeThinU); sym_observe_d(svd.singularValues()(0)); Eigen::EigenSolver<Eigen::MatrixXd> es(m); sym_observe_d(es.eigenvalues()(0).real()); m.conservativeResize(4, 3); sym_observe(m.rows()); Eigen::Map<Eigen::Vector3d> mp(v.data()); sym_observe_d(mp.cross(mp).norm()); }
HARNESS(locals) { static thread_local int tl = 0; tl++; static std::map<int, int> mm{{1, 2}}; sym_observe(tl + mm[1]); struct B { virtual ~B() {} virtual int f() { return 1; } }; struct D : B { int f() override { return 2; } }; std::unique_ptr<B> b(new D); sym_observe(static_cast<D*>(b.get())->f()); sym_observe(typeid(*b) == typeid(D)); auto* p = (int*)alloca(40); p[3] = 4; sym_observe(p[3]); try { try { throw std::runtime_error("a"); } catch (...) { std::throw_with_nested(std::logic_error("b")); } } catch (const std::exception& e) { try { std::rethrow_if_nested(e); } catch (const std::runtime_error&) { sym_cover("nested"); } } }
HARNESS(what) { std::string m; try { throw std::runtime_error("abc" + std::to_string(3)); } catch (const std::exception& e) { m = e.what(); } sym_observe(m.size()); }
//@ job both h_stable time=30
//@ job both h_stable2 time=30
//@ job both h_containers time=30
//@ job both h_opt time=30
//@ job both h_strings time=30
//@ job both h_threads time=30
//@ job both h_threads2 time=30
//@ job both h_once time=30
//@ job both h_promise2 time=30
//@ job both h_promise time=30
//@ job both h_cvw time=30
//@ job both h_omp1 time=30
//@ job both h_omp2 time=30
//@ job both h_mathf time=30
//@ job both h_mathp time=30
//@ job both h_eig time=30
//@ job both h_locals time=30
//@ job both h_what time=30
