// Instantiates coroutines, event loop, executors and containers (never executed).
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/loop/TimerLoop.hpp>
#include <HXLibs/coroutine/loop/ThreadLoop.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/coroutine/executor/SerialExecutor.hpp>
#include <HXLibs/container/CoSharedPtr.hpp>
#include <HXLibs/container/ThreadPool.hpp>
#include <HXLibs/container/UninitializedNonVoidVariant.hpp>
#include <HXLibs/container/CHashMap.hpp>
#include <HXLibs/container/CVector.hpp>
#include <HXLibs/container/RadixTree.hpp>
#include <HXLibs/container/SafeQueue.hpp>
#include <HXLibs/container/ArrayBuf.hpp>
#include <HXLibs/container/MoveOnlyFunction.hpp>
#include <HXLibs/container/MoveApply.hpp>
#include <string>
#include <functional>
using namespace HX;
using namespace HX::container;
using namespace HX::coroutine;

struct HNT { HNT(); HNT(HNT&&); HNT& operator=(HNT&&); HNT(HNT const&); HNT& operator=(HNT const&); ~HNT(); bool operator==(HNT const&) const; };

template struct HX::coroutine::Promise<int>;
template struct HX::coroutine::Promise<std::string>;
template struct HX::coroutine::Promise<void>;
template struct HX::coroutine::Task<int>;
template struct HX::coroutine::Task<>;
template class HX::container::Uninitialized<int>;
template class HX::container::Uninitialized<HNT>;
template class HX::container::Uninitialized<void>;
template class HX::container::Try<std::string>;
template class HX::container::Try<void>;
template class HX::container::FutureResult<int>;
template class HX::container::FutureResult<void>;
template class HX::container::FutureResult<std::string>;
template class HX::container::CoSharedPtr<std::string>;
template class HX::container::CVector<std::size_t, 4>;
template class HX::container::CVector<std::string, 4>;
template struct HX::container::SafeQueue<int>;
template struct HX::container::SafeQueue<std::string>;
template struct HX::container::ArrayBuf<char, 16>;
template class HX::container::RadixTree<int>;
template class HX::container::UninitializedNonVoidVariant<HNT, std::string, int>;

Task<int> h1() { co_return 1; }
Task<std::string> h2() { co_return std::string{}; }
Task<> h3() { co_return; }
RootTask<> h4() { co_return; }
Task<int> hgen() { for (int i = 0; i < 3; ++i) co_yield i; co_return 3; }

Task<double> h4x() { co_return 1.0; }

Task<> hmain(EventLoop& loop) {
    auto a = co_await (h1() || h2());
    auto a3 = co_await (h1() || (h2() || h3()));
    auto b = co_await (h1() && h2());
    auto b3 = co_await (h1() && (h2() && h3()));
    auto a4 = co_await ((h1() || h2()) || h3()); auto a5 = co_await ((h1() || h2()) || (h3() || h4x()));
    auto b4 = co_await ((h1() && h2()) && h3()); auto b5 = co_await ((h1() && h2()) && (h3() && h4x()));
    (void)a4; (void)a5; (void)b4; (void)b5;
    auto c = co_await whenAll(h1(), h2(), h3());
    auto d = co_await whenAny(h1(), h2(), h3());
    (void)a; (void)a3; (void)b; (void)b3; (void)c; (void)d;
    h4().detach();
    auto g = hgen(); (void)co_await g;
    co_await loop.makeTimer().sleepFor(std::chrono::milliseconds{1});
    co_await loop.makeTimer().sleepUntil(std::chrono::system_clock::now());
    SerialExecutor ex{};
    co_await ex.serial(h3());
    auto t = co_await loop.tryAsync(h1()); auto t2 = co_await loop.tryAsync(h3()); (void)t; (void)t2;
}
void hloop() {
    EventLoop loop;
    loop.sync(hmain(loop)); (void)loop.sync(h1()); (void)loop.trySync(h1()); (void)loop.trySync(h3());
    auto t = h3(); loop.start(t); loop.run();
    ThreadPool pool;
    pool.run(std::chrono::milliseconds{1000}, ThreadPoolDefaultStrategy);
    pool.run<ThreadPool::Model::FixedSizeAndNoCheck>();
    pool.setFixedThreadNum(1);
    auto r = pool.addTask([](int a, int b) { return a + b; }, 1, 2); (void)r.get(); r.wait();
    auto rv = pool.addTask([] {}); rv.get();
    { int lv = 0; std::string ls; auto r2 = pool.addTask([](int& a, std::string b, std::string const& c) { a = 1; return b + c; }, lv, std::string{}, std::as_const(ls)); (void)r2.get(); }
    auto rs = pool.addTask([] { return std::string{}; }); rs.get();
    pool.addTask([] { return 42; }).thenTry([](Try<int>) -> std::string { return "1"; }).thenTry([](Try<std::string>) { }).thenTry([](Try<> x) { return x; }).thenTry([](Try<>) {});
    pool.addTask([] { return 42; }).thenTry([&](Try<int>) { return pool.addTask([] { return 1; }); });
    constexpr CHashMap<std::string_view, std::size_t, 4> mp{{std::pair<std::string_view, std::size_t>{"1", 1}, {"2", 1}, {"3", 1}, {"4", 1}}};
    (void)mp.at("1"); (void)mp.find("2");
    auto mp2 = mp; (void)mp2.at("1"); (void)mp2.find("2");
    MoveOnlyFunctionAny f{[p = std::unique_ptr<int>{}] {}}; 
    UninitializedNonVoidVariant<HNT, std::string, int, void> v, w;
    v.emplace<0>(); v.emplace<std::string>("x"); v = w; v = std::move(w); v.swap(w); (void)(v == w); v.reset();
    (void)get<std::string>(v); (void)get<1>(v);
    UninitializedNonVoidVariant<HNT, std::string, int, void> v3{v}, v4{std::move(w)}; auto const& cv = v; (void)cv.get<0>(); (void)get<2>(cv); (void)get<0>(std::move(v4)); v.emplace<2>(1); v.emplace<void>(); (void)v.index();
    visit([](auto&&) {}, v); (void)visit([](auto&&) { return 1; }, v); visit([](auto&&) {}, cv); (void)visit([](auto&&) { return std::string{}; }, cv); (void)(v != w);
    UninitializedNonVoidVariant<int, std::string> vs{std::string{}}; vs = std::string{}; vs = 1; auto vs2 = vs; vs2 = std::move(vs); vs2.swap(vs);
    Uninitialized<HNT> u; Uninitialized<HNT> u2{std::move(u)}; u = std::move(u2); Uninitialized<HNT> const& cu = u; (void)cu.get(); Uninitialized<std::string> us; us.set("x"); us.set(3u, 'c'); us = std::move(us); u.set(HNT{}); (void)u.get(); (void)u.move(); 
    HNT l; u.set(l);
    auto p = makeCoSharedPtr<std::string>("x"); auto p2 = p; p2.swap(p); p.reset(std::string{}); p = std::move(p2); p = p2; (void)(p == p2); (void)p.useCount();
    Try<std::string> ts{std::string{}}; (void)ts.get(); (void)ts.move(); ts.setVal(std::string{}); ts.reset(); ts.setException(std::exception_ptr{}); (void)ts.what(); (void)ts.exception(); ts.rethrow();
    MoveOnlyFunctionAny<void(*)()> fp{[] {}}; fp.call();
    std::tuple<int, std::string> tp; moveApply([](int, std::string) {}, std::move(tp));
}
