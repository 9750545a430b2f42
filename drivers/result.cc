// Instantiates the results, so that their members are there to be analysed.
#include <plain/all.h>
#include <memory>
#include <string>
#include <vector>

using namespace plain;
using namespace plain::concurrency;
namespace rd = plain::concurrency::result::detail;
using ex_t = executor::Manual;

template class plain::concurrency::result::detail::State<std::string>;
template class plain::concurrency::result::detail::State<int &>;
template class plain::concurrency::result::detail::State<void>;
template class plain::concurrency::result::detail::ProducerContext<std::string>;
template class plain::concurrency::result::detail::ProducerContext<int &>;
template class plain::concurrency::result::detail::SharedState<std::string>;
template class plain::concurrency::Result<std::string>;
template class plain::concurrency::ResultPromise<std::string>;
template class plain::concurrency::ResultPromise<void>;
template class plain::concurrency::result::Shared<std::string>;
template class plain::concurrency::result::Awaitable<std::string>;
template class plain::concurrency::result::ResolveAwaitable<std::string>;
template class plain::concurrency::result::SharedAwaitable<std::string>;
template class plain::concurrency::result::SharedResolveAwaitable<std::string>;
template class plain::concurrency::result::LazyAwaitable<std::string>;
template class plain::concurrency::result::LazyResolveAwaitable<std::string>;
template class plain::concurrency::LazyResult<std::string>;
template class plain::concurrency::result::detail::LazyState<std::string>;
template class plain::concurrency::result::detail::coroutine_promise<std::string>;
template class plain::concurrency::result::detail::coroutine_promise<void>;
template class plain::concurrency::result::detail::ResumeOnAwaitable<ex_t>;
template class plain::concurrency::result::detail::initialy_rescheduled_promise<ex_t>;
template class plain::concurrency::result::Generator<int>;
template class plain::concurrency::result::detail::GeneratorState<int>;
template class plain::concurrency::result::detail::GeneratorIterator<int>;

namespace {

LazyResult<std::string> lazy() { co_return std::string("x"); }
Result<std::string> text() { co_return std::string("x"); }
Result<void> none() { co_return; }
result::Generator<int> gen() { int i = 0; co_yield i; co_yield 2; }

result::null all(std::shared_ptr<ex_t> ex) {
  std::vector<Result<std::string>> v;
  v.push_back(text());
  auto any = co_await result::when_any(ex, v.begin(), v.end());
  auto some = co_await result::when_all(ex, any.results.begin(), any.results.end());
  auto pair = co_await result::when_all(ex, text(), none());
  auto one = co_await result::when_any(ex, text(), none());
  co_await result::resume_on(ex);
  co_await result::resume_on(*ex);
  auto r = co_await lazy();
  auto l = co_await lazy().resolve();
  auto q = co_await text().resolve();
  result::Shared<std::string> s(text());
  auto &x = co_await s;
  auto y = co_await s.resolve();
  auto z = co_await lazy().run();
  (void)some; (void)pair; (void)one; (void)r; (void)l; (void)q; (void)x; (void)y; (void)z;
}

}

void result_driver(std::shared_ptr<ex_t> ex) {
  std::string s;
  ResultPromise<std::string> p;
  p.set_result(s);
  ResultPromise<std::string> q;
  q.set_from_function([](const std::string &a) { return a; }, s);
  ResultPromise<void> w;
  w.set_from_function([] {});
  w.set_result();
  auto r = result::make_ready<std::string>("x");
  auto e = result::make_exceptional<std::string>(std::make_exception_ptr(1));
  auto f = result::make_exceptional<std::string>(std::runtime_error("x"));
  r.wait_for(std::chrono::seconds(1));
  r.wait_until(std::chrono::system_clock::now());
  result::Shared<std::string> h(std::move(r));
  h.wait_for(std::chrono::seconds(1));
  h.wait_until(std::chrono::system_clock::now());
  all(ex);
  ex->post([](int, const std::string &) {}, 1, s);
  ex->post([] {});
  auto t = ex->submit([](const std::string &a, int) { return a; }, s, 2);
  std::vector<void (*)()> fs;
  ex->bulk_post<void (*)()>(fs);
  auto b = ex->bulk_submit<void (*)()>(fs);
  for (auto &i : gen()) (void)i;
}
