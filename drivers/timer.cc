// Instantiates the timer templates so that the analysis sees their bodies.
#include "plain/engine/timer_queue.h"
#include "plain/concurrency/executor/basic.h"
#include <memory>
#include <chrono>
namespace vp_driver {
using Ms = std::chrono::milliseconds;
using Ex = std::shared_ptr<plain::concurrency::executor::Basic>;
struct Call { int *p; void operator()() { ++*p; } };
plain::Timer repeated(plain::TimerQueue &q, Ms due, Ms freq, Ex e, int *p) { return q.make_timer(due, freq, std::move(e), Call{p}); }
plain::Timer once(plain::TimerQueue &q, Ms due, Ex e, int *p) { return q.make_one_shot_timer(due, std::move(e), Call{p}); }
plain::Timer named(plain::TimerQueue &q, Ms due, Ex e, Call &f) { return q.make_one_shot_timer(due, std::move(e), f); }
}
