// C12: recycling pools, inter-thread queues, locked views, timers, network
// contexts, loggers, errors and type tables.
#include "vp.hpp"
#include <boost/asio/post.hpp>
#include <ossia/context.hpp>
#include <ossia/detail/buffer_pool.hpp>
#include <ossia/detail/lockfree_queue.hpp>
#include <ossia/detail/locked_container.hpp>
#include <ossia/detail/logger.hpp>
#include <ossia/detail/mutex.hpp>
#include <ossia/detail/thread.hpp>
#include <ossia/detail/timer.hpp>
#include <ossia/editor/exceptions.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/common/network_logger.hpp>
#include <ossia/network/context.hpp>
#include <ossia/network/context_functions.hpp>
#include <ossia/network/exceptions.hpp>
#include <ossia/network/zeroconf/zeroconf.hpp>
#include <ossia/preset/exception.hpp>
#include <spdlog/sinks/base_sink.h>
#include <spdlog/spdlog.h>
#include <deque>
#include <thread>
using vp::M;
using namespace std::literals;

struct capture : spdlog::sinks::base_sink<std::mutex>
{
  std::vector<std::pair<int, std::string>> lines;
  void sink_it_(const spdlog::details::log_msg& m) override { lines.push_back({int(m.level), std::string(m.payload.data(), m.payload.size())}); }
  void flush_() override { }
  std::vector<std::pair<int, std::string>> take() { std::lock_guard l{mutex_}; return std::exchange(lines, {}); }
};
static std::shared_ptr<capture> capture_log()
{
  auto c = std::make_shared<capture>();
  ossia::context ctx{std::vector<spdlog::sink_ptr>{c}};
  return c;
}

// an object which counts its live instances and remembers its requests
struct tracked
{
  static inline std::atomic<int> live{0};
  std::vector<int> data;
  size_t reserved{};
  tracked() { live++; }
  tracked(const tracked& o) : data(o.data), reserved(o.reserved) { live++; }
  tracked(tracked&& o) noexcept : data(std::move(o.data)), reserved(o.reserved) { live++; o.data.clear(); }
  tracked& operator=(const tracked&) = default;
  tracked& operator=(tracked&& o) noexcept { data = std::move(o.data); reserved = o.reserved; o.data.clear(); return *this; }
  ~tracked() { live--; }
};

VP_SECTION(pools)
{
  {
    using spec = ossia::sized_object_pool<std::vector<char>, ossia::container_memory_manager<std::vector<char>>, 10, 100, 1000>;
    static_assert(spec::buckets == 4);
    for (size_t s = 0; s < 1200; s++)
    {
      M.at("pool_buckets", vp::str(s));
      int want = s < 10 ? 0 : s < 100 ? 1 : s < 1000 ? 2 : 3;
      VCHECK(spec::find_bucket(s) == want, "bucket_of_size", s, " -> ", spec::find_bucket(s));
    }
    using one = ossia::sized_object_pool<std::vector<char>, ossia::container_memory_manager<std::vector<char>>, 64>;
    for (size_t s : {0, 1, 63, 64, 65, 100000}) VCHECK(one::find_bucket(s) == (s < 64 ? 0 : 1), "bucket_of_size", "64:", s);
    using big = ossia::sized_object_pool<std::vector<char>, ossia::container_memory_manager<std::vector<char>>, 1, 2, 4, 8, 16, 32>;
    for (size_t s = 0; s < 40; s++)
    {
      int want = s < 1 ? 0 : s < 2 ? 1 : s < 4 ? 2 : s < 8 ? 3 : s < 16 ? 4 : s < 32 ? 5 : 6;
      VCHECK(big::find_bucket(s) == want, "bucket_of_size", "pow2:", s);
    }
  }
  for (size_t k = 0; k < M.n(400); k++)
  {
    ossia::sized_object_pool<std::vector<char>, ossia::container_memory_manager<std::vector<char>>, 10, 100, 1000> p;
    ossia::buffer_pool bp;
    ossia::object_pool<std::vector<int>> op;
    std::vector<std::vector<char>> out;
    std::vector<ossia::buffer_pool::buffer> bout;
    // multiset of objects released and not acquired again, by token
    std::multiset<int> inside;
    int tok = 1;
    std::string h;
    for (int o = 0; o < 40; o++)
    {
      int c = M.r.i(0, 7);
      size_t sz = M.r.pick(std::vector<int>{0, 1, 9, 10, 50, 99, 100, 500, 999, 1000, 3000});
      h += vp::str(" ", c, ":", sz);
      M.at("pool_model", h);
      switch (c)
      {
        case 0: case 1:
        {
          auto b = p.acquire_sized(sz);
          VCHECK(b.size() == sz, "acquire_sized", "size ", b.size(), " for ", sz, h);
          std::fill(b.begin(), b.end(), char(o));
          out.push_back(std::move(b));
          break;
        }
        case 2:
        {
          auto b = p.acquire_reserved(sz);
          VCHECK(b.capacity() >= sz, "acquire_reserved", "capacity ", b.capacity(), " for ", sz, h);
          out.push_back(std::move(b));
          break;
        }
        case 3:
          if (!out.empty()) { p.release(std::move(out.back())); out.pop_back(); }
          break;
        case 4:
        {
          auto b = bp.acquire(sz);
          VCHECK(b.size() == sz, "acquire_buffer", "size ", b.size(), " for ", sz, h);
          std::fill(b.begin(), b.end(), char(o));
          bout.push_back(std::move(b));
          break;
        }
        case 5:
          if (!bout.empty()) { bp.release(std::move(bout.back())); bout.pop_back(); }
          break;
        case 6:
        {
          auto v = op.acquire();
          if (inside.empty()) VCHECK(v.empty(), "acquire_from_empty_pool", h);
          else
          {
            bool ok = v.size() == 2 && inside.count(v[0]) && v[1] == -v[0];
            VCHECK(ok, "acquire_returns_a_released_object", "size ", v.size(), h);
            if (ok) inside.erase(inside.find(v[0]));
          }
          break;
        }
        case 7: inside.insert(tok); op.release(std::vector<int>{tok, -tok}); tok++; break;
      }
    }
    // distinct objects never share storage
    std::set<const void*> ptrs;
    bool alias = false;
    for (auto& v : out) if (v.capacity()) alias |= !ptrs.insert(v.data()).second;
    for (auto& v : bout) if (v.capacity()) alias |= !ptrs.insert(v.data()).second;
    VCHECK(!alias, "objects_do_not_share_storage", h);
    // drained: everything inside comes out once
    size_t n = inside.size();
    for (size_t i = 0; i < n; i++)
    {
      auto v = op.acquire();
      bool ok = v.size() == 2 && inside.count(v[0]);
      VCHECK(ok, "drained_object", h);
      if (ok) inside.erase(inside.find(v[0]));
    }
    VCHECK(op.acquire().empty(), "drained_pool_is_empty", h);
    M.seen(vp::hash_str(h));
  }
  // default size, shared instances, object destruction
  {
    M.at("pool_defaults");
    ossia::buffer_pool bp;
    VCHECK(bp.acquire().size() == 1024, "default_buffer_size");
    VCHECK(&ossia::buffer_pool::instance() == &ossia::buffer_pool::instance(), "pool_instance");
    VCHECK(&ossia::object_pool<std::string>::instance() == &ossia::object_pool<std::string>::instance(), "pool_instance");
    ossia::sized_object_pool<std::vector<int>, ossia::container_memory_manager<std::vector<int>>, 10> sp;
    VCHECK(sp.acquire_sized().size() == 1024 && sp.acquire_reserved().capacity() >= 1024, "default_sized");
    int before = tracked::live;
    {
      ossia::object_pool<tracked> tp;
      for (int i = 0; i < 10; i++) { tracked t; t.data.assign(100, i); tp.release(std::move(t)); }
      VCHECK(tracked::live - before == 10, "pool_keeps_objects", tracked::live - before);
      { auto t = tp.acquire(); VCHECK(t.data.size() == 100, "pool_keeps_content", t.data.size()); }
      VCHECK(tracked::live - before == 9, "acquired_object_leaves_pool", tracked::live - before);
    }
    VCHECK(tracked::live == before, "pool_destroys_objects", tracked::live - before);
  }
}
VP_SECTION(mt_pools)
{
  for (size_t k = 0; k < M.n(12); k++)
  {
    M.at("concurrent_pools", vp::str("round ", k));
    ossia::sized_object_pool<std::vector<char>, ossia::container_memory_manager<std::vector<char>>, 100, 1000> p;
    ossia::buffer_pool bp;
    std::atomic<int> bad{0};
    std::atomic<long> recycled{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 6; t++)
      ts.emplace_back([&, t, s = M.r.next()] {
        vp::rng r{s};
        for (int i = 0; i < 200; i++)
        {
          size_t n = r.i(1, 2000);
          auto a = p.acquire_sized(n);
          auto b = bp.acquire(n);
          if (a.size() != n || b.size() != n) bad++;
          if (a[0] != 0) recycled++;
          std::fill(a.begin(), a.end(), char(t + 1));
          std::fill(b.begin(), b.end(), char(t + 1));
          if (r.b(1, 4)) std::this_thread::yield();
          for (char c : a) if (c != char(t + 1)) { bad++; break; }
          for (char c : b) if (c != char(t + 1)) { bad++; break; }
          p.release(std::move(a));
          bp.release(std::move(b));
        }
      });
    for (auto& t : ts) t.join();
    VCHECK(bad == 0, "exclusive_buffers", bad.load());
    M.seen(vp::mix(k, recycled.load()));
  }
}
VP_SECTION(queues)
{
  for (size_t k = 0; k < M.n(300); k++)
  {
    ossia::spsc_queue<std::string, 16> q;
    std::deque<std::string> ref;
    int n = 0;
    for (int o = 0; o < 120; o++)
    {
      M.at("queue_model", vp::str("op ", o, " size ", ref.size()));
      if (M.r.b(55, 100)) { auto s = vp::str("some not so short element ", n++); q.enqueue(s); ref.push_back(s); }
      else
      {
        std::string s = "unchanged";
        bool got = q.try_dequeue(s);
        VCHECK(got == !ref.empty(), "dequeue_status", got);
        if (got && !ref.empty()) { VCHECK(s == ref.front(), "queue_order", s); ref.pop_front(); }
        else VCHECK(s == "unchanged", "failed_dequeue_keeps_target", s);
      }
      VCHECK(q.size_approx() == ref.size(), "queue_size", q.size_approx(), " ", ref.size());
    }
    M.seen(vp::mix(n, ref.size()));
  }
}
// Real threads through the single-producer queue (the queue itself is a
// third-party component that TSan cannot follow: run under ASan only).
VP_SECTION(queue_threads)
{
  for (size_t k = 0; k < M.n(30); k++)
  {
    M.at("queue_threads", vp::str("round ", k));
    ossia::spsc_queue<int> q;
    const int N = 3000;
    std::atomic<bool> bad{false};
    std::thread prod{[&] { for (int i = 0; i < N; i++) { q.enqueue(i); if (i % 97 == 0) std::this_thread::yield(); } }};
    int got = 0, empty = 0;
    auto end = std::chrono::steady_clock::now() + 60s;
    while (got < N && std::chrono::steady_clock::now() < end)
    {
      int v = -1;
      if (q.try_dequeue(v)) { if (v != got) bad = true; got++; }
      else { empty++; std::this_thread::yield(); }
    }
    prod.join();
    VCHECK(got == N && !bad, "queue_threads_fifo", got);
    M.seen(vp::mix(k, empty));
  }
}

VP_SECTION(mt_locks)
{
  static_assert(!std::is_same_v<ossia::mutex_t, void>);
  for (size_t k = 0; k < M.n(20); k++)
  {
    M.at("locked_view", vp::str("round ", k));
    std::vector<int> src{1, 2, 3};
    ossia::shared_mutex_t mut;
    {
      ossia::locked_container<std::vector<int>> v{src, mut};
      const auto& cv = v;
      VCHECK(v.size() == 3 && !v.empty() && v[1] == 2 && cv[2] == 3 && v.front() == 1 && cv.front() == 1, "locked_view_content");
      VCHECK(std::vector<int>(v.begin(), v.end()) == src && std::vector<int>(cv.begin(), cv.end()) == src && std::vector<int>(v.cbegin(), v.cend()) == src && std::vector<int>(cv.cbegin(), cv.cend()) == src, "locked_view_iteration");
      v[0] = 10; *(v.begin() + 1) = 20;
      VCHECK(src[0] == 10 && src[1] == 20, "locked_view_refers");
      bool got = false;
      std::thread{[&] { got = mut.try_lock(); if (got) mut.unlock(); }}.join();
      VCHECK(!got, "view_excludes_writers");
    }
    bool got = false;
    std::thread{[&] { got = mut.try_lock(); if (got) mut.unlock(); }}.join();
    VCHECK(got, "view_released");

    // writers keep the size and the sum invariant only under the write lock
    std::vector<int> c(16, 0);
    std::atomic<int> bad{0};
    std::atomic<bool> stop{false};
    std::vector<std::thread> ts;
    for (int t = 0; t < 2; t++)
      ts.emplace_back([&, s = M.r.next()] {
        vp::rng r{s};
        for (int i = 0; i < 200; i++)
        {
          ossia::write_lock_t l{mut};
          int d = r.i(-5, 5);
          c[r.i(0, 7)] += d; c[r.i(8, 15)] -= d;
          if (r.b(1, 4)) c.push_back(0), c.shrink_to_fit(), c.pop_back();
        }
        stop = true;
      });
    long reads = 0;
    std::atomic<long> areads{0};
    for (int t = 0; t < 3; t++)
      ts.emplace_back([&] {
        do
        {
          ossia::locked_container<std::vector<int>> v{c, mut};
          int sum = 0;
          for (int x : v) sum += x;
          if (sum != 0 || v.size() != 16) bad++;
          areads++;
        } while (!stop);
      });
    for (auto& t : ts) t.join();
    reads = areads;
    VCHECK(bad == 0, "readers_see_whole_writes", bad.load());
    M.seen(vp::mix(k, reads));
    // exclusive mutex
    ossia::mutex_t m;
    int count = 0;
    std::vector<std::thread> us;
    for (int t = 0; t < 4; t++)
      us.emplace_back([&] { for (int i = 0; i < 300; i++) { ossia::lock_t l{m}; count++; } });
    for (auto& t : us) t.join();
    VCHECK(count == 1200, "mutex_counts", count);
  }
}

VP_SECTION(timers)
{
  auto log = capture_log();
  using clk = std::chrono::steady_clock;
  for (size_t k = 0; k < M.n(6); k++)
  {
    int delay = M.r.i(1, 12), calls_wanted = M.r.i(2, 6);
    M.at("timer", vp::str("delay ", delay, "ms"));
    boost::asio::io_context ctx;
    std::vector<clk::time_point> at;
    clk::time_point start, stopped;
    std::string payload(100, 'x');
    bool same = true;
    {
      ossia::timer t{ctx};
      t.set_delay(std::chrono::milliseconds(delay));
      start = clk::now();
      t.start([&, payload] { at.push_back(clk::now()); same &= payload == std::string(100, 'x'); });
      VCHECK(at.empty(), "nothing_before_the_context_runs");
      while (int(at.size()) < calls_wanted && clk::now() - start < 20s) ctx.run_one_for(100ms);
      VCHECK(int(at.size()) >= calls_wanted, "timer_repeats", at.size());
      VCHECK(same, "timer_callback_state");
      auto prev = start;
      for (auto& a : at)
      {
        // high_resolution clock = system clock here: allow 1 ms of adjustment
        VCHECK(a - prev >= std::chrono::milliseconds(delay) - 1ms, "timer_never_early", std::chrono::duration<double, std::milli>(a - prev).count(), " < ", delay);
        prev = a;
      }
      VCHECK(log->take().empty(), "timer_quiet_while_running");
      size_t n = at.size();
      t.stop();
      std::this_thread::sleep_for(std::chrono::milliseconds(2 * delay + 2));
      ctx.restart(); ctx.poll();
      VCHECK(at.size() == n, "no_call_after_stop", at.size() - n);
      VCHECK(ctx.stopped(), "stopped_timer_leaves_no_work");
      log->take();
      // can be started again, with another delay
      int d2 = M.r.i(1, 5), calls2 = 0;
      t.set_delay(std::chrono::milliseconds(d2));
      ctx.restart();
      t.start([&] { calls2++; });
      auto s2 = clk::now();
      while (calls2 < 2 && clk::now() - s2 < 20s) ctx.run_one_for(100ms);
      VCHECK(calls2 >= 2 && at.size() == n, "timer_restarts", calls2);
      // restarted while pending: only the new callback remains
      int calls3 = 0, before = calls2;
      t.start([&] { calls3++; });
      auto s3 = clk::now();
      while (calls3 < 2 && clk::now() - s3 < 20s) ctx.run_one_for(100ms);
      VCHECK(calls3 >= 2 && calls2 == before, "restart_replaces_callback", calls2 - before);
      calls2 = calls3 = 0;
    }
    // destroyed: pending wait is dropped, the callback state is not touched
    ctx.restart(); ctx.poll();
    VCHECK(ctx.stopped(), "destroyed_timer_leaves_no_work");
    log->take();
    M.seen(vp::mix(delay, calls_wanted));
  }
}

VP_SECTION(contexts)
{
  auto log = capture_log();
  for (size_t k = 0; k < M.n(60); k++)
  {
    M.at("network_context", vp::str("round ", k));
    auto ctx = ossia::net::create_network_context();
    VCHECK(ctx && ossia::net::create_network_context() != ctx, "distinct_contexts");
    // poll runs what is ready, in order, and does not block
    std::vector<int> ran;
    int n = M.r.i(1, 20);
    for (int i = 0; i < n; i++) boost::asio::post(ctx->context, [&, i] { ran.push_back(i); });
    VCHECK(ran.empty(), "posted_work_is_deferred");
    ossia::net::poll_network_context(*ctx);
    bool ok = int(ran.size()) == n;
    for (int i = 0; ok && i < n; i++) ok = ran[i] == i;
    VCHECK(ok, "poll_runs_everything_in_order", ran.size(), " of ", n);
    // run blocks (also without work) until stopped, in this thread or another
    ctx = ossia::net::create_network_context();
    std::atomic<int> count{0};
    std::atomic<bool> finished{false};
    std::thread::id where;
    bool own = M.r.b();
    std::thread t;
    if (own) t = std::thread{[&, ctx] { ossia::net::run_network_context(*ctx); finished = true; }};
    else t = ossia::net::run_threaded_network_context(*ctx);
    auto tid = t.get_id();
    for (int i = 0; i < n; i++)
    {
      boost::asio::post(ctx->context, [&] { where = std::this_thread::get_id(); count++; });
      if (M.r.b(1, 5)) std::this_thread::sleep_for(1ms);
    }
    auto end = std::chrono::steady_clock::now() + 30s;
    while (count < n && std::chrono::steady_clock::now() < end) std::this_thread::sleep_for(200us);
    VCHECK(count == n, "running_context_executes_all", count.load(), " of ", n);
    VCHECK(where == tid, "runs_in_its_thread");
    if (own) { std::this_thread::sleep_for(1ms); VCHECK(!finished, "run_blocks_without_work"); }
    ossia::net::stop_network_context(*ctx);
    t.join();
    VCHECK(ctx->context.stopped(), "stopped");
    VCHECK(log->take().empty(), "quiet_context");
    // what a handler throws is reported with its message and does not escape
    ctx = ossia::net::create_network_context();
    std::string what = vp::str("failure ", k);
    int kind = M.r.i(0, 1);
    boost::asio::post(ctx->context, [&] { if (kind) throw std::runtime_error(what); throw 1234; });
    vp::no_throw("handler_exception_contained", [&] { ossia::net::run_network_context(*ctx); });
    auto l = log->take();
    VCHECK(l.size() == 1 && l[0].first == int(spdlog::level::err) && (!kind || l[0].second.find(what) != std::string::npos), "handler_exception_reported", l.size(), " ", l.empty() ? "" : l[0].second);
    M.seen(vp::mix(k, vp::mix(n, own * 2 + kind)));
  }
}

VP_SECTION(logging)
{
  auto c1 = capture_log();
  M.at("loggers");
  ossia::logger().error("hello {} {}", 1, "two");
  auto l = c1->take();
  VCHECK(l.size() == 1 && l[0].second == "hello 1 two", "log_goes_to_sink", l.size());
  VCHECK(ossia::logger_ptr().get() == &ossia::logger() && spdlog::get("ossia").get() == &ossia::logger(), "one_logger");
  VCHECK(ossia::logger().name() == "ossia", "logger_name");
  auto c2 = capture_log(); // replaces the sinks
  ossia::logger().info("a"); ossia::logger().warn("b"); ossia::logger().error("c");
  auto l2 = c2->take();
  VCHECK(c1->take().empty() && l2.size() == 3 && l2[0].second == "a" && l2[2].second == "c" && l2[1].first == int(spdlog::level::warn), "context_replaces_sinks", l2.size());
  { ossia::context plain; ossia::logger().error("d"); }
  VCHECK(c2->take().size() == 1, "plain_context_keeps_sinks");
  auto in = std::make_shared<spdlog::logger>("in", c1), out = std::make_shared<spdlog::logger>("out", c2);
  ossia::net::network_logger nl{in, out};
  VCHECK(nl.inbound_logger == in && nl.outbound_logger == out && !nl.inbound_listened_logger && !nl.outbound_listened_logger, "network_logger_members");
  ossia::net::network_logger none;
  VCHECK(!none.inbound_logger && !none.outbound_logger && !none.inbound_listened_logger && !none.outbound_listened_logger, "network_logger_default");
  auto cp = nl;
  VCHECK(cp.inbound_logger == in && cp.outbound_logger == out, "network_logger_copy");
  VCHECK(ossia::get_pid() == int(getpid()), "pid", ossia::get_pid());
  vp::no_throw("paths", [&] { (void)ossia::get_exe_path(); (void)ossia::get_module_path(); });
  {
    std::atomic<bool> go{false};
    std::thread t{[&] { while (!go) std::this_thread::yield(); }};
    vp::no_throw("thread_priority", [&] { ossia::set_thread_realtime(t); });
    go = true; t.join();
  }
  VCHECK(!ossia::net::zeroconf_supported(), "no_zeroconf_here");
  VCHECK(ossia::net::list_minuit_devices().empty() && ossia::net::list_oscquery_devices().empty(), "zeroconf_lists_nothing");
  vp::no_throw("zeroconf_server", [&] {
    auto s = ossia::net::make_zeroconf_server("d", "_minuit._tcp", "n", 1, 2);
    ossia::net::zeroconf_server s2{std::move(s)}, s3;
    s3 = std::move(s2);
  });
  M.seen(1);
}

template <typename E, typename Base, typename A>
static void exc(const char* name, const A& text)
{
  M.at("exceptions", vp::str(name, " ", text));
  try { throw E(text); VCHECK(false, "throws"); }
  catch (const Base& b)
  {
    VCHECKC(b.what() == std::string(text), "message_kept", name, b.what());
    VCHECKC(dynamic_cast<const E*>(&b) && dynamic_cast<const std::exception*>(&b), "dynamic_type", name, "");
    E copy(dynamic_cast<const E&>(b)); E other("other"); other = copy;
    VCHECKC(copy.what() == std::string(text) && other.what() == std::string(text), "message_copied", name, "");
  }
  catch (...) { VCHECKC(false, "exception_base", name, ""); }
}
static std::string rnd_text()
{
  std::string s;
  for (int n = M.r.i(0, 40); n-- > 0;) s += M.r.pick(std::string("abcXYZ 0129{}()%\"\\/:\n"));
  return s;
}
VP_SECTION(errors)
{
  for (size_t k = 0; k < M.n(300); k++)
  {
    auto s = rnd_text();
    exc<ossia::parse_error, std::runtime_error>("parse_error", s);
    exc<ossia::connection_error, std::runtime_error>("connection_error", s);
    exc<ossia::invalid_node_error, std::logic_error>("invalid_node_error", s);
    exc<ossia::node_not_found_error, std::runtime_error>("node_not_found_error", s);
    exc<ossia::bad_request_error, std::runtime_error>("bad_request_error", s);
    exc<ossia::invalid_value_type_error, std::logic_error>("invalid_value_type_error", s.c_str());
    exc<ossia::execution_error, std::runtime_error>("execution_error", s.c_str());
    exc<ossia::invalid_access_error, std::runtime_error>("invalid_access_error", s.c_str());

    int line = M.r.i(-5, 100000);
    auto file = rnd_text(), det = rnd_text();
    auto want = [&](std::string n) { return file + " l." + std::to_string(line) + ": Preset Exception: " + n + (det.empty() ? "" : " (" + det + ")"); };
    M.at("preset_exceptions", vp::str(line, "|", file, "|", det));
    ossia::ossiaException e0{line, file, det};
    ossia::ossiaException_InvalidJSON e1{line, file, det};
    ossia::ossiaException_InvalidXML e2{line, file, det};
    ossia::ossiaException_InvalidAddress e3{line, file, det};
    VCHECK(e0.what() == want("Preset Exception"), "preset_message", e0.what());
    VCHECK(e1.what() == want("Invalid JSON"), "preset_message_json", e1.what());
    VCHECK(e2.what() == want("Invalid XML"), "preset_message_xml", e2.what());
    VCHECK(e3.what() == want("Invalid address"), "preset_message_address", e3.what());
    VCHECK(std::string(ossia::ossiaException(line, file).what()) == file + " l." + std::to_string(line) + ": Preset Exception: Preset Exception", "preset_message_no_details");
    try { throw ossia::ossiaException_InvalidJSON(line, file, det); }
    catch (const ossia::ossiaException& x) { VCHECK(x.what() == want("Invalid JSON"), "preset_caught_as_base"); }
    M.seen(vp::hash_str(s + file + det));
  }
}
VP_SECTION(type_tables)
{
  using vt = ossia::val_type;
  M.at("type_tables");
  // the order is an interface: it is shared with the C enumeration and bindings
  VCHECK(int(vt::FLOAT) == 0 && int(vt::INT) == 1 && int(vt::VEC2F) == 2 && int(vt::VEC3F) == 3 && int(vt::VEC4F) == 4 && int(vt::IMPULSE) == 5 && int(vt::BOOL) == 6 && int(vt::STRING) == 7 && int(vt::LIST) == 8 && int(vt::CHAR) == 9 && int(vt::NONE) == 127, "val_type_order");
  VCHECK(int(ossia::access_mode::BI) == 0 && int(ossia::access_mode::GET) == 1 && int(ossia::access_mode::SET) == 2, "access_mode_order");
  VCHECK(int(ossia::bounding_mode::FREE) == 0 && int(ossia::bounding_mode::CLIP) == 1 && int(ossia::bounding_mode::WRAP) == 2 && int(ossia::bounding_mode::FOLD) == 3 && int(ossia::bounding_mode::LOW) == 4 && int(ossia::bounding_mode::HIGH) == 5, "bounding_mode_order");
  VCHECK(ossia::repetition_filter::ON == true && ossia::repetition_filter::OFF == false, "repetition_filter_values");
  struct row { std::string got, want; std::vector<vt> types; };
  std::vector<row> t{
      {ossia::generic_buffer_type(), "buffer", {vt::STRING}}, {ossia::filesystem_path_type(), "filepath", {vt::STRING}}, {ossia::url_type(), "url", {vt::STRING}},
      {ossia::float_array_type(), "vecf", {vt::LIST, vt::VEC2F, vt::VEC3F, vt::VEC4F}}, {ossia::float_list_type(), "floatArray", {vt::LIST}},
      {ossia::integer_list_type(), "integerArray", {vt::LIST}}, {ossia::string_list_type(), "stringArray", {vt::LIST}}, {ossia::list_type(), "list", {vt::LIST}}};
  for (auto& r : t)
  {
    VCHECKC(r.got == r.want, "extended_type_name", r.want, r.got);
    VCHECKC(ossia::underlying_type(r.got) == r.types, "extended_type_underlying", r.want, "");
    for (auto& bad : {r.want + " ", r.want.substr(1), std::string(1, char(std::toupper(r.want[0]))) + r.want.substr(1), r.want + r.want})
      if (std::none_of(t.begin(), t.end(), [&](auto& x) { return x.want == bad; }))
        VCHECKC(ossia::underlying_type(bad).empty(), "extended_type_unknown", bad, "");
  }
  VCHECK(ossia::underlying_type("").empty(), "extended_type_empty");
  M.seen(2);
}
VP_MAIN
