// Schedule exploration of sm::JobQueue (J01: work is done exactly once and
// awaited; J02: shutdown; J03: futures).
#include "vs.hpp"
#include <atomic>
#include <sm/boost/JobQueue.hpp>
#include <boost/bind/bind.hpp>
#include <stdexcept>

namespace {
// Counts a run of job i and the parallelism seen.  The plain counter is read by
// the waiter after waitForEmptyQueue(): the race detector decides visibility.
struct Bench {
  int ran[8];
  int running, maxrunning;      // guarded by mu
  int order[8], norder;
  boost::mutex mu;
  Bench() : running(0), maxrunning(0), norder(0) { for (int i = 0; i < 8; ++i) ran[i] = 0, order[i] = -1; }
  void enter(int i) {
    boost::mutex::scoped_lock l(mu);
    if (++running > maxrunning) maxrunning = running;
    order[norder++] = i;
  }
  void leave() { boost::mutex::scoped_lock l(mu); --running; }
};
struct Job {              // plain job: one unsynchronised write
  Bench* b; int i;
  void operator()() const { b->ran[i] += 1; vs::log("%d", i); }
};
struct OJob {             // job recording order and parallelism
  Bench* b; int i;
  void operator()() const { b->enter(i); b->ran[i] += 1; b->leave(); }
};
struct Nest {             // a job that submits another job
  sm::JobQueue* q; Bench* b; int i, j;
  void operator()() const { Job n = {b, j}; q->scheduleWork(n); b->ran[i] += 1; vs::log("n%d", i); }
};
void once(Bench* b, int n) {
  for (int i = 0; i < n; ++i)
    if (b->ran[i] != 1) vs::fail("not-exactly-once", "job %d ran %d times although the wait for an empty queue returned", i, b->ran[i]);
}
Job job(Bench* b, int i) { Job j = {b, i}; return j; }
OJob ojob(Bench* b, int i) { OJob j = {b, i}; return j; }
}  // namespace

// ------------------------------------------------------------------- J01
VS_SCENARIO(J01_wait_2workers_2jobs, o.quick_bound = 2; o.thorough_bound = 3) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  q->scheduleWork(job(b, 0));
  q->scheduleWork(job(b, 1));
  q->waitForEmptyQueue();
  once(b, 2);
  vs::check(q->empty(), "not-empty", "the queue is not empty after the wait");
  q->join();
  delete q;
}
VS_SCENARIO(J01_nested_submit, o.quick_bound = 3; o.thorough_bound = 4) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(1);
  Nest n = {q, b, 0, 1};
  q->scheduleWork(n);
  q->waitForEmptyQueue();
  once(b, 2);
  q->join();
  delete q;
}
VS_SCENARIO(J01_two_producers, o.quick_bound = 2; o.thorough_bound = 3) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(1);
  struct P { static void run(sm::JobQueue* q, Bench* b) { q->scheduleWork(job(b, 0)); q->scheduleWork(job(b, 1)); } };
  boost::thread t(boost::bind(&P::run, q, b));
  q->scheduleWork(job(b, 2));
  q->scheduleWork(job(b, 3));
  t.join();
  q->waitForEmptyQueue();
  once(b, 4);
  q->join();
  delete q;
}
VS_SCENARIO(J01_two_waiters, o.quick_bound = 2; o.thorough_bound = 3) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->scheduleWork(job(b, 0));
  q->scheduleWork(job(b, 1));
  struct W { static void run(sm::JobQueue* q, Bench* b) { q->waitForEmptyQueue(); once(b, 2); } };
  boost::thread t(boost::bind(&W::run, q, b));
  q->start(1);
  q->waitForEmptyQueue();
  once(b, 2);
  t.join();
  q->join();
  delete q;
}
VS_SCENARIO(J01_spurious, o.quick_bound = 3; o.thorough_bound = 4; o.spurious = true) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(1);
  q->scheduleWork(job(b, 0));
  q->waitForEmptyQueue();
  once(b, 1);
  q->scheduleWork(job(b, 1));
  q->waitForEmptyQueue();
  once(b, 2);
  q->join();
  delete q;
}
// a queue that is started again keeps its threads
VS_SCENARIO(J01_start_again, o.quick_bound = 1; o.thorough_bound = 3) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(1);
  q->start(1);
  for (int i = 0; i < 2; ++i) q->scheduleWork(ojob(b, i));
  q->waitForEmptyQueue();
  once(b, 2);
  vs::check(b->maxrunning == 1, "parallelism", "two jobs run at a time with one worker");
  for (int i = 0; i < 2; ++i) vs::check(b->order[i] == i, "fifo", "one worker runs the jobs out of submission order");
  q->join();
  delete q;
}
// no worker, no work: nothing runs in a queue that has zero threads
VS_SCENARIO(J01_no_workers, o.quick_bound = 2; o.thorough_bound = 3) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(0);
  q->scheduleWork(ojob(b, 0));
  vs::check(!q->empty(), "empty", "a job submitted to a queue with no threads is not waiting");
  q->join();
  vs::check(!q->empty() && b->norder == 0, "parallelism", "a job was run by a queue with no threads");
  delete q;
}
// the queue is empty exactly while no submitted job waits to be started: asked
// before the start, in a running job, and in one that has submitted another
struct Asks {
  sm::JobQueue* q; Bench* b; int i, left;
  void operator()() const {
    b->ran[i] += 1;
    if (q->empty() != (left == 0)) vs::fail("empty", "a running job is told that the queue is %sempty while %d jobs wait", left ? "" : "not ", left);
    if (i == 1) { q->scheduleWork(job(b, 2)); vs::check(!q->empty(), "empty", "the only worker is busy, but the job just submitted is not in the queue"); }
  }
};
VS_SCENARIO(J01_empty, o.quick_bound = 3; o.thorough_bound = 4) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  vs::check(q->empty(), "empty", "a new queue is not empty");
  Asks x = {q, b, 0, 1}, y = {q, b, 1, 0};
  q->scheduleWork(x);
  q->scheduleWork(y);
  vs::check(!q->empty(), "empty", "the queue is empty before it is started");
  q->start(1);
  q->waitForEmptyQueue();
  once(b, 3);
  vs::check(q->empty(), "empty", "the queue is not empty after the wait");
  q->join();
  delete q;
}
// one worker: jobs start in submission order; n workers: at most n at a time,
// and two jobs that need each other make progress with two workers
VS_SCENARIO(J01_fifo_one_worker, o.quick_bound = 3; o.thorough_bound = 4) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->scheduleWork(ojob(b, 0));
  q->start(1);
  q->scheduleWork(ojob(b, 1));
  q->scheduleWork(ojob(b, 2));
  q->waitForEmptyQueue();
  once(b, 3);
  for (int i = 0; i < 3; ++i) vs::check(b->order[i] == i, "fifo", "one worker runs the jobs out of submission order");
  vs::check(b->maxrunning == 1, "parallelism", "one worker runs two jobs at a time");
  q->join();
  delete q;
}
VS_SCENARIO(J01_parallelism, o.quick_bound = 1; o.thorough_bound = 2) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  for (int i = 0; i < 3; ++i) q->scheduleWork(ojob(b, i));
  q->waitForEmptyQueue();
  once(b, 3);
  vs::check(b->maxrunning <= 2, "parallelism", "two workers run more than two jobs at a time");
  vs::log("max %d", b->maxrunning);
  q->join();
  delete q;
}
namespace {
struct Rendezvous {
  boost::mutex m; boost::condition_variable c; int in;
  Rendezvous() : in(0) {}
  void meet() { boost::unique_lock<boost::mutex> l(m); ++in; c.notify_all(); while (in < 2) c.wait(l); }
};
}
VS_SCENARIO(J01_jobs_overlap, o.quick_bound = 2; o.thorough_bound = 2) {
  // two jobs that wait for each other complete when there are two workers
  Rendezvous* r = new Rendezvous;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  q->scheduleWork(boost::bind(&Rendezvous::meet, r));
  q->scheduleWork(boost::bind(&Rendezvous::meet, r));
  q->waitForEmptyQueue();
  vs::check(r->in == 2, "not-exactly-once", "a rendezvous job did not run");
  q->join();
  delete q;
}
// long-lived queue: workers go idle, wake for later batches
VS_SCENARIO(J01_batches, o.quick_bound = 1; o.thorough_bound = 2) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  for (int i = 0; i < 3; ++i) {
    q->scheduleWork(job(b, 2 * i));
    q->scheduleWork(job(b, 2 * i + 1));
    q->waitForEmptyQueue();
    once(b, 2 * i + 2);
  }
  q->join();
  delete q;
}
VS_SCENARIO(J01_three_workers, o.quick_bound = 1; o.thorough_bound = 2) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(3);
  for (int i = 0; i < 3; ++i) q->scheduleWork(job(b, i));
  q->waitForEmptyQueue();
  once(b, 3);
  q->join();
  delete q;
}

// many jobs from two submitters and from jobs, in two batches
namespace {
struct Tally { int ran[400]; int next; Tally() : next(0) { for (int i = 0; i < 400; ++i) ran[i] = 0; } };
struct TJob { sm::JobQueue* q; Tally* t; int i; void operator()() const { t->ran[i] += 1; if (i >= 0 && i < 60 && i % 3 == 0) { TJob n = {q, t, 200 + i}; q->scheduleWork(n); } } };
void submit(sm::JobQueue* q, Tally* t, int from, int to) { for (int i = from; i < to; ++i) { TJob j = {q, t, i}; q->scheduleWork(j); } }
void tally(Tally* t, int n) {
  for (int i = 0; i < 400; ++i) { int x = i < n || (i >= 200 && i < 260 && i % 3 == 200 % 3 && i - 200 < n); if (t->ran[i] != x) vs::fail("not-exactly-once", "of many jobs job %d ran %d times although the wait for an empty queue returned", i, t->ran[i]); }
}
}
VS_SCENARIO(J01_many, o.quick_bound = 0; o.thorough_bound = 1; o.max_steps = 200000) {
  Tally* t = new Tally;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  boost::thread p(boost::bind(&submit, q, t, 0, 60));
  submit(q, t, 60, 100);
  p.join();
  q->waitForEmptyQueue();
  tally(t, 100);
  submit(q, t, 100, 150);
  q->waitForEmptyQueue();
  tally(t, 150);
  vs::check(q->empty(), "empty", "the queue is not empty after the wait");
  q->join();
  delete q;
}
// as many submitted before the start, by one worker in order
namespace { struct Seq { Tally* t; int i; void operator()() const { if (t->next++ != i) vs::fail("fifo", "one worker runs job %d as number %d", i, t->next - 1); t->ran[i] += 1; } }; }
VS_SCENARIO(J01_many_fifo, o.quick_bound = 0; o.thorough_bound = 1; o.max_steps = 200000) {
  Tally* t = new Tally;
  sm::JobQueue* q = new sm::JobQueue;
  for (int i = 0; i < 200; ++i) { Seq j = {t, i}; q->scheduleWork(j); if (i == 70) q->start(1); }
  q->waitForEmptyQueue();
  vs::check(t->next == 200, "not-exactly-once", "not all of many jobs ran");
  q->join();
  delete q;
}
// ------------------------------------------------------------------- J02
VS_SCENARIO(J02_start_destroy, o.quick_bound = 2; o.thorough_bound = 3) {
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  delete q;
}
VS_SCENARIO(J02_start_join, o.quick_bound = 2; o.thorough_bound = 3; o.spurious = true) {
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  q->join();
  q->join();
  delete q;
}
VS_SCENARIO(J02_jobs_then_destroy, o.quick_bound = 3; o.thorough_bound = 4) {
  // jobs not started are dropped, started ones finish before the destructor returns
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(1);
  q->scheduleWork(ojob(b, 0));
  q->scheduleWork(ojob(b, 1));
  delete q;
  for (int i = 0; i < 2; ++i) vs::check(b->ran[i] <= 1, "ran-twice", "a job ran twice");
  vs::check(b->running == 0, "still-running", "a job is still running after the queue is gone");
  int n = b->norder; for (int i = 0; i < n; ++i) vs::check(b->ran[b->order[i]] == 1, "unfinished", "a started job did not finish");
  vs::log("ran %d", n);
  delete b;   // a job touching this afterwards is a use after free
}
VS_SCENARIO(J02_jobs_then_join, o.quick_bound = 2; o.thorough_bound = 3) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  q->scheduleWork(ojob(b, 0));
  q->scheduleWork(ojob(b, 1));
  q->join();
  vs::check(b->running == 0, "still-running", "a job is still running after join");
  int n = b->norder; int left = 2 - n;
  vs::check(q->empty() == (left == 0), "dropped", "unstarted jobs do not remain queued");
  q->scheduleWork(ojob(b, 2));      // accepted but never processed
  vs::check(!q->empty(), "dropped", "a job submitted after join disappeared");
  delete q;
  vs::check(b->ran[2] == 0, "ran-after-join", "a job ran after join");
  vs::check(b->norder == n, "ran-after-join", "a job ran after join");
  vs::log("ran %d", n);
  delete b;
}
VS_SCENARIO(J02_stop_other_thread, o.quick_bound = 2; o.thorough_bound = 2) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(1);
  q->scheduleWork(ojob(b, 0));
  boost::thread t(boost::bind(&sm::JobQueue::stop, q));
  q->scheduleWork(ojob(b, 1));
  t.join();
  q->join();
  vs::check(b->running == 0 && b->ran[0] <= 1 && b->ran[1] <= 1, "ran-twice", "a job ran twice or is still running");
  vs::check(b->ran[1] == 0 || b->ran[0] == 1, "fifo", "a later job ran although the earlier one was dropped");
  vs::check(q->empty() == (b->ran[0] + b->ran[1] == 2), "dropped", "unstarted jobs do not remain queued");
  vs::log("%d%d", b->ran[0], b->ran[1]);
  delete q;
  delete b;
}
VS_SCENARIO(J02_stop_then_destroy, o.quick_bound = 2; o.thorough_bound = 3) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  q->scheduleWork(ojob(b, 0));
  q->stop();
  delete q;
  vs::check(b->running == 0, "still-running", "a job is still running after the queue is gone");
  vs::log("%d", b->ran[0]);
  delete b;
}
namespace { struct StopJob { sm::JobQueue* q; Bench* b; void operator()() const { q->stop(); b->ran[0] += 1; } }; }
VS_SCENARIO(J02_stop_from_job, o.quick_bound = 3; o.thorough_bound = 4) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  StopJob s = {q, b};
  q->scheduleWork(s);
  q->scheduleWork(ojob(b, 1));
  q->start(1);
  q->join();
  vs::check(b->ran[0] <= 1 && b->ran[1] == 0, "ran-after-stop", "a job started after stop was requested");
  vs::log("%d", b->ran[0]);
  delete q;
  delete b;
}
// every stop ordered before a job's start prevents it: with the flag set before
// the workers exist nothing may run
VS_SCENARIO(J02_stop_before_start, o.quick_bound = 3; o.thorough_bound = 4) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->scheduleWork(ojob(b, 0));
  q->stop();
  q->start(1);
  q->join();
  vs::check(b->ran[0] == 0, "ran-after-stop", "a job started after stop returned");
  delete q;
  delete b;
}
VS_SCENARIO(J02_never_started, o.quick_bound = 1) {
  sm::JobQueue* q = new sm::JobQueue;
  q->stop();
  q->join();
  delete q;
  Bench* b = new Bench;
  sm::JobQueue* r = new sm::JobQueue;
  r->scheduleWork(job(b, 0));
  delete r;
  vs::check(b->ran[0] == 0, "ran-unstarted", "a job ran although the queue was never started");
  delete b;
}
// stopped from within the k-th of n queued jobs: with one worker exactly k run, however long the queue is
namespace { struct Latch { boost::mutex m; boost::condition c; bool set; Latch() : set(false) {} void done() { boost::mutex::scoped_lock l(m); set = true; c.notify_all(); } void wait() { boost::mutex::scoped_lock l(m); while (!set) c.wait(l); } };
struct Halt { sm::JobQueue* q; Tally* t; Latch* l; int i; void operator()() const { ++t->ran[i]; q->stop(); l->done(); } }; }
VS_SCENARIO(J02_stop_from_each_job, o.quick_bound = 0; o.thorough_bound = 1; o.max_steps = 200000) {
  const int N[][2] = {{1, 0}, {4, 0}, {5, 1}, {6, 0}, {7, 3}, {10, 0}, {16, 1}, {17, 15}, {34, 16}, {100, 2}};
  for (auto& nk : N) {
    const int n = nk[0], k = nk[1];
    Tally* t = new Tally;
    sm::JobQueue* q = new sm::JobQueue;
    submit(q, t, 60, 60 + k); Latch l; Halt h = {q, t, &l, 60 + k}; q->scheduleWork(h); submit(q, t, 61 + k, 60 + n);
    q->start(1);
    l.wait();
    q->join();
    for (int i = 0; i < n; ++i) vs::check(t->ran[60 + i] == (i <= k), "stop-in-the-middle", i <= k ? "a job before the one that stops did not run once" : "a job ran although the stop came before its start");
    vs::check(q->empty() == (k == n - 1), "dropped", "unstarted jobs do not remain queued");
    delete q;
    for (int i = 0; i < n; ++i) vs::check(t->ran[60 + i] == (i <= k), "stop-in-the-middle", "a job ran in the destructor");
    delete t;
  }
}
// most of many jobs are dropped: they stay queued, and go with the queue
VS_SCENARIO(J02_many, o.quick_bound = 0; o.thorough_bound = 1; o.max_steps = 200000) {
  Tally* t = new Tally;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(2);
  submit(q, t, 60, 160);
  q->stop();
  submit(q, t, 160, 180);
  q->join();
  int n = 0; for (int i = 0; i < 400; ++i) { vs::check(t->ran[i] <= 1, "ran-twice", "a job ran twice"); n += t->ran[i]; }
  vs::check(q->empty() == (n == 120), "dropped", "unstarted jobs do not remain queued");
  for (int i = 160; i < 180; ++i) vs::check(t->ran[i] == 0, "ran-after-stop", "a job ran that was submitted after the stop");
  vs::log("%d", n);
  delete q;
  delete t;
}
VS_SCENARIO(J02_two_joins, o.quick_bound = 2; o.thorough_bound = 3) {
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(1);
  q->scheduleWork(ojob(b, 0));
  boost::thread t(boost::bind(&sm::JobQueue::join, q));
  q->join();
  vs::check(b->running == 0, "still-running", "a job is still running after join");
  t.join();
  delete q;
  delete b;
}
VS_SCENARIO(J02_join_while_waited, o.quick_bound = 2; o.thorough_bound = 2) {
  // a waiter on a queue that drains is released even if the queue is being joined
  Bench* b = new Bench;
  sm::JobQueue* q = new sm::JobQueue;
  q->start(1);
  q->scheduleWork(ojob(b, 0));
  q->waitForEmptyQueue();
  vs::check(b->ran[0] == 1, "not-exactly-once", "the wait returned before the job was done");
  boost::thread t(boost::bind(&sm::JobQueue::waitForEmptyQueue, q));
  q->join();
  t.join();
  delete q;
  delete b;
}

// ------------------------------------------------------------------- J03
namespace {
int val(int x) { return x; }
int thrower() { throw std::runtime_error("boom"); }
struct Eff { int* p; int operator()() const { *p = 5; return 7; } };
}
VS_SCENARIO(J03_values, o.quick_bound = 3; o.thorough_bound = 4) {
  sm::JobQueue* q = new sm::JobQueue;
  int* p = new int(0);
  boost::unique_future<int> f, g;
  q->start(1);
  Eff e = {p};
  q->scheduleFuture<int>(e, f);
  q->scheduleFuture<int>(boost::bind(&val, 42), g);
  vs::check(f.get() == 7, "wrong-value", "a future delivers a wrong value");
  vs::check(*p == 5, "effect-lost", "the job's effect is not visible after its future is ready");
  vs::check(g.get() == 42, "wrong-value", "a future delivers another job's value");
  q->join();
  delete q;
}
VS_SCENARIO(J03_two_workers, o.quick_bound = 1; o.thorough_bound = 2) {
  sm::JobQueue* q = new sm::JobQueue;
  boost::unique_future<int> f[3];
  q->start(2);
  for (int i = 0; i < 3; ++i) q->scheduleFuture<int>(boost::bind(&val, 10 + i), f[i]);
  q->waitForEmptyQueue();
  for (int i = 2; i >= 0; --i) {
    vs::check(f[i].is_ready(), "not-ready", "a future is not ready although the queue was drained");
    vs::check(f[i].get() == 10 + i, "wrong-value", "a future delivers a wrong value");
  }
  delete q;
}
VS_SCENARIO(J03_exception, o.quick_bound = 3; o.thorough_bound = 4) {
  sm::JobQueue* q = new sm::JobQueue;
  boost::unique_future<int> f, g;
  q->start(1);
  q->scheduleFuture<int>(&thrower, f);
  q->scheduleFuture<int>(boost::bind(&val, 3), g);
  bool ok = false;
  try { f.get(); } catch (const std::runtime_error& e) { ok = std::string(e.what()) == "boom"; }
  vs::check(ok, "exception-lost", "the future does not rethrow the job's exception");
  vs::check(g.get() == 3, "wrong-value", "the worker does not survive a throwing job");
  q->waitForEmptyQueue();
  q->join();
  delete q;
}
VS_SCENARIO(J03_abandoned, o.quick_bound = 3; o.thorough_bound = 4) {
  // a future whose job is dropped by shutdown reports that instead of hanging
  sm::JobQueue* q = new sm::JobQueue;
  boost::unique_future<int> f, g;
  q->start(1);
  q->scheduleFuture<int>(boost::bind(&val, 1), f);
  q->scheduleFuture<int>(boost::bind(&val, 2), g);
  delete q;
  int rf = 0, rg = 0;
  try { rf = f.get(); } catch (const boost::broken_promise&) { rf = -1; }
  try { rg = g.get(); } catch (const boost::broken_promise&) { rg = -1; }
  vs::check((rf == 1 || rf == -1) && (rg == 2 || rg == -1), "wrong-value", "a future delivers a wrong value");
  vs::check(!(rf == -1 && rg == 2), "fifo", "a later job ran although the earlier one was dropped");
  vs::log("%d %d", rf, rg);
}
// every kind of result and exception
namespace {
struct Odd { int k; };
struct Derived : std::runtime_error { int k; Derived(int k) : std::runtime_error("derived"), k(k) {} };
void nothing(int* p) { *p += 1; }
void odd(int k) { throw Odd{k}; }
std::string text(int n) { return std::string(n, 'x'); }
int number(int k) { if (k) throw k; return 0; }
double derived(int k) { throw Derived(k); }
}
VS_SCENARIO(J03_kinds, o.quick_bound = 2; o.thorough_bound = 3) {
  sm::JobQueue* q = new sm::JobQueue;
  int* p = new int(0);
  boost::unique_future<void> a, b; boost::unique_future<std::string> s; boost::unique_future<int> k; boost::unique_future<double> d;
  q->scheduleFuture<void>(boost::bind(&nothing, p), a);
  q->scheduleFuture<void>(boost::bind(&odd, 9), b);
  q->scheduleFuture<std::string>(boost::bind(&text, 100), s);
  q->scheduleFuture<int>(boost::bind(&number, 4), k);
  q->scheduleFuture<double>(boost::bind(&derived, 6), d);
  q->start(1);
  a.get();
  vs::check(*p == 1, "effect-lost", "the job of a future without a value did not run once");
  int got = 0;
  try { b.get(); } catch (const Odd& o) { got = o.k; }
  vs::check(got == 9, "exception-lost", "an exception of a class without a base is lost");
  vs::check(s.get() == std::string(100, 'x'), "wrong-value", "a future delivers another text");
  got = 0;
  try { k.get(); } catch (int i) { got = i; }
  vs::check(got == 4, "exception-lost", "an exception that is a number is lost");
  got = 0;
  try { d.get(); } catch (const Derived& e) { got = e.k; }
  vs::check(got == 6, "exception-lost", "the exception arrives as another class");
  delete q;
}
// a future that is scheduled again stands for the new job; one that is given up does not disturb it
VS_SCENARIO(J03_reused, o.quick_bound = 2; o.thorough_bound = 3) {
  sm::JobQueue* q = new sm::JobQueue;
  int* p = new int(0);
  q->start(1);
  { boost::unique_future<int> f; Eff e = {p}; q->scheduleFuture<int>(e, f); q->scheduleFuture<int>(boost::bind(&val, 2), f); vs::check(f.get() == 2, "wrong-value", "a future scheduled twice delivers the first value"); }
  vs::check(*p == 5, "effect-lost", "the job of a future that was given up did not run");
  delete q;
}
VS_SCENARIO(J03_many, o.quick_bound = 0; o.thorough_bound = 1; o.max_steps = 200000) {
  sm::JobQueue* q = new sm::JobQueue;
  boost::unique_future<int> f[60];
  q->start(2);
  for (int i = 0; i < 60; ++i) { if (i % 7 == 3) q->scheduleFuture<int>(&thrower, f[i]); else q->scheduleFuture<int>(boost::bind(&val, 3 * i), f[i]); }
  for (int i = 59; i >= 0; --i) {
    int got = -1; try { got = f[i].get(); } catch (const std::runtime_error&) {}
    vs::check(got == (i % 7 == 3 ? -1 : 3 * i), "wrong-value", "one of many futures delivers another value");
  }
  delete q;
}
