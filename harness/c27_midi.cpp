// The MIDI device: parameters, messages and the tree between them.
#include "values.hpp"
#include "vp.hpp"
#include <libremidi/libremidi.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/context.hpp>
#include <ossia/protocols/midi/detail/midi_impl.hpp>
#include <ossia/protocols/midi/midi.hpp>
#include <ossia/network/domain/domain.hpp>
#include <map>
#include <memory>
#include <set>
#include <spdlog/sinks/base_sink.h>
#include <spdlog/spdlog.h>
using vp::M;
using namespace ossia::net;
namespace mi = ossia::net::midi;
using ai = mi::address_info;
using bytes = std::vector<unsigned char>;

static const char* const tname[] = {"on", "on", "off", "off", "control", "control", "program", "program", "pitchbend"};
struct key
{
  int chan{};
  ai::Type t{};
  int note{};
  auto operator<=>(const key&) const = default;
  std::string path() const
  {
    std::string s = "/" + std::to_string(chan) + "/" + tname[int(t)];
    if (each())
      s += "/" + std::to_string(note);
    return s;
  }
  bool each() const { return t == ai::Type::NoteOn_N || t == ai::Type::NoteOff_N || t == ai::Type::CC_N || t == ai::Type::PC_N; }
  bool pair() const { return t == ai::Type::NoteOn || t == ai::Type::NoteOff || t == ai::Type::CC; }
};
static ai::Type whole(int k) { return std::vector<ai::Type>{ai::Type::NoteOn, ai::Type::NoteOff, ai::Type::CC, ai::Type::PC, ai::Type::PB}[k]; }
static ai::Type one(int k) { return std::vector<ai::Type>{ai::Type::NoteOn_N, ai::Type::NoteOff_N, ai::Type::CC_N, ai::Type::PC_N}[k]; }
static const unsigned char status[] = {0x90, 0x80, 0xB0, 0xC0, 0xE0};
static int kind(ai::Type t)
{
  for (int k = 0; k < 5; k++)
    if (whole(k) == t || (k < 4 && one(k) == t))
      return k;
  return -1;
}

static std::string hex(const bytes& b)
{
  std::string s;
  char t[8];
  for (auto c : b)
  {
    std::snprintf(t, sizeof t, "%02x ", c);
    s += t;
  }
  return s;
}
using V = std::string; // the text of a value
static V from(const ossia::value& v) { return mv::S(v); }
static V num(int a) { return from(ossia::value{a}); }
static V pairv(int a, int b) { return from(std::vector<ossia::value>{a, b}); }

static auto& bus() { return libremidi::vp_bus::instance(); }
struct capture final : spdlog::sinks::base_sink<std::mutex>
{
  int n{};
  void sink_it_(const spdlog::details::log_msg&) override { n++; }
  void flush_() override { }
};

struct bench
{
  mi::midi_protocol* proto{};
  libremidi::midi_in* in{};
  std::unique_ptr<mi::midi_device> dev;
  std::vector<std::pair<std::string, V>> got, seen; // callbacks of parameters, of the device
  explicit bench(mi::midi_info::Type t)
  {
    bus().sent.clear();
    auto p = std::make_unique<mi::midi_protocol>(std::make_shared<ossia::net::network_context>(), mi::midi_info{t, "bus", 0});
    proto = p.get();
    in = bus().ins.back();
    dev = std::make_unique<mi::midi_device>(std::move(p));
    dev->set_name("midi");
    dev->on_message.connect<&bench::on_message>(*this);
  }
  ~bench() { dev->on_message.disconnect<&bench::on_message>(*this); }
  void on_message(const parameter_base& p)
  {
    auto& mp = dynamic_cast<const mi::midi_parameter&>(p);
    seen.push_back({key{mp.info().channel, mp.info().type, mp.info().note}.path(), from(p.value())});
  }
  void receive(const bytes& b)
  {
    libremidi::message m;
    m.bytes = b;
    m.bytes.shrink_to_fit();
    if (in->m_open && in->m_cb)
      in->m_cb(m);
  }
};

static bytes message(int kind, int chan, int a, int b)
{
  bytes m{(unsigned char)(status[kind] | (chan - 1)), (unsigned char)a};
  if (kind != 3)
    m.push_back(b);
  return m;
}
// a few channels and numbers, so that things meet, and any of them
static int a_chan() { return M.r.i(0, 2) ? M.r.pick(std::vector<int>{1, 2, 16}) : M.r.i(1, 16); }
static int a_note() { return M.r.i(0, 2) ? M.r.pick(std::vector<int>{0, 1, 64, 126, 127}) : M.r.i(0, 127); }
static key a_key()
{
  int k = M.r.i(0, 4);
  if (k == 4 || M.r.b())
    return {a_chan(), whole(k), 0};
  return {a_chan(), one(k), a_note()};
}

VP_SECTION(full_tree)
{
  for (auto t : {mi::midi_info::Type::Input, mi::midi_info::Type::Output})
  {
    M.at("tree", "full tree");
    bench w{t};
    auto& root = w.dev->get_root_node();
    VCHECK(root.children().empty(), "tree.empty", root.children().size());
    for (int again = 0; again < 2; again++)
    {
      VCHECK(w.dev->create_full_tree(), "tree.full", "refused");
      std::size_t n = 0;
      auto check = [&](const key& k) {
        n++;
        auto nd = find_node(root, k.path());
        if (!VCHECK(nd, "tree.full", "no ", k.path()))
          return;
        auto p = dynamic_cast<mi::midi_parameter*>(nd->get_parameter());
        if (!VCHECK(p, "tree.full", "no parameter at ", k.path()))
          return;
        VCHECK(p->info().channel == k.chan && p->info().type == k.t && p->info().note == k.note, "tree.address", k.path());
        VCHECK(&p->get_node() == nd && &nd->get_device() == w.dev.get(), "tree.address", k.path());
        auto want = k.t == ai::Type::PC_N ? ossia::val_type::IMPULSE : k.pair() ? ossia::val_type::LIST : ossia::val_type::INT;
        VCHECK(p->get_value_type() == want && p->value().get_type() == want, "tree.type", k.path());
        VCHECK(nd->children().size() == (k.each() || k.t == ai::Type::PB ? 0u : 128u), "tree.full", k.path(), " ", nd->children().size());
      };
      VCHECK(root.children().size() == 16, "tree.full", root.children().size());
      for (int c = 1; c <= 16; c++)
      {
        auto ch = root.find_child(std::to_string(c));
        if (!VCHECK(ch && ch->children().size() == 5, "tree.full", "channel ", c))
          continue;
        for (int k = 0; k < 5; k++)
        {
          check({c, whole(k), 0});
          for (int x = 0; k < 4 && x < 128; x++)
            check({c, one(k), x});
        }
        // the messages a channel builds
        auto cn = dynamic_cast<mi::channel_node*>(ch);
        int note = a_note(), vel = a_note();
        for (bool on : {true, false})
        {
          auto ms = on ? cn->note_on(note, vel) : cn->note_off(note, vel);
          key a{c, on ? ai::Type::NoteOn : ai::Type::NoteOff, 0}, b{c, on ? ai::Type::NoteOn_N : ai::Type::NoteOff_N, note};
          VCHECK(&ms[0].dest.value.get() == find_node(root, a.path())->get_parameter(), "tree.messages", c);
          VCHECK(&ms[1].dest.value.get() == find_node(root, b.path())->get_parameter(), "tree.messages", c);
          VCHECK(from(ms[0].message_value) == pairv(note, vel) && from(ms[1].message_value) == num(vel), "tree.messages", c);
        }
      }
      M.seen(vp::mix(n, again));
    }
    VCHECK(w.got.empty() && bus().sent.empty(), "tree.quiet", bus().sent.size());
  }
}

// ------------------------------------------------------------------- output
VP_SECTION(output)
{
  for (int i = 0; i < M.n(60, 400); i++)
  {
    M.at("output", "pushes");
    bench w{mi::midi_info::Type::Output};
    bool full = M.r.i(0, 9) == 0;
    if (full)
      w.dev->create_full_tree();
    for (int s = 0; s < 60; s++)
    {
      auto k = a_key();
      auto p = find_or_create_node(*w.dev, k.path()).get_parameter();
      if (!VCHECK(p, "output.parameter", k.path()))
        continue;
      auto data = [&]() -> int {
        switch (M.r.i(0, 9))
        {
          case 0: return M.r.i(-300, 300);
          case 1: return M.r.pick(std::vector<int>{-1, 128, 255, 256, 320, INT_MIN, INT_MAX});
          default: return a_note();
        }
      };
      auto clip = [](int x) { return x < 0 ? 0 : x > 127 ? 127 : x; };
      bool other = M.r.i(0, 4) == 0; // a number of another type
      auto number = [&](int& x) -> ossia::value {
        if (!other)
          return x;
        switch (M.r.i(0, 2))
        {
          case 0: x = M.r.i(0, 127); return float(x) + (M.r.b() ? 0.25f : 0.f);
          case 1: x = M.r.i(0, 1); return bool(x);
          default: x = M.r.i(0, 127); return char(x);
        }
      };
      bus().sent.clear();
      w.got.clear();
      bytes want;
      ossia::value v;
      int c = k.chan, x = data(), y = data();
      auto before = from(p->value());
      int kd = kind(k.t);
      bool short_ = false;
      if (k.pair())
      {
        auto a = number(x), b = number(y);
        std::vector<ossia::value> l{a, b};
        int m = M.r.i(0, 7);
        if (m == 0)
        {
          l.resize(M.r.i(0, 1));
          short_ = true;
        }
        else if (m == 1)
          l.push_back(3);
        else if (m == 2 && !other)
        {
          // vectors are lists of numbers too
          x = M.r.i(0, 127);
          y = M.r.i(0, 127);
          v = ossia::make_vec(float(x), float(y));
        }
        if (!v.valid())
        {
          l.shrink_to_fit();
          v = l;
        }
        want = message(kd, c, clip(x), clip(y));
      }
      else if (k.t == ai::Type::PB)
      {
        x = M.r.i(0, 16383);
        v = x;
        want = message(kd, c, x & 127, x >> 7);
      }
      else if (k.t == ai::Type::PC_N)
      {
        v = M.r.i(0, 2) ? ossia::value{ossia::impulse{}} : ossia::value{1};
        want = message(kd, c, k.note, 0);
      }
      else
      {
        v = number(x);
        want = k.t == ai::Type::PC ? message(kd, c, clip(x), 0) : message(kd, c, k.note, clip(x));
      }
      std::string what = k.path() + " " + ossia::value_to_pretty_string(v);
      M.at("output", what);
      int how = M.r.i(0, 2);
      bool okay = vp::no_throw("output.throws", [&] {
        if (how == 0)
          p->push_value(v);
        else if (how == 1)
          p->push_value(ossia::value{v});
        else
        {
          p->set_value(v);
          VCHECK(bus().sent.empty(), "output.set", "setting sends");
          p->push_value();
        }
      });
      if (!okay)
        continue;
      if (short_)
        VCHECK(bus().sent.empty(), "output.short", what, " sent ", hex(bus().sent.front().bytes));
      else if (VCHECK(bus().sent.size() == 1, "output.count", what, " sent ", bus().sent.size()))
        VCHECK(bus().sent[0].bytes == want, "output.bytes", what, " sent ", hex(bus().sent[0].bytes), " not ", hex(want));
      VCHECK(p->value().get_type() == p->get_value_type(), "output.type", what, " left ", ossia::value_to_pretty_string(p->value()));
      // sending again sends the same
      if (!short_)
      {
        bus().sent.clear();
        p->push_value();
        VCHECK(bus().sent.size() == 1 && bus().sent[0].bytes == want, "output.again", what);
      }
      // nothing comes in on an output
      auto now = from(p->value());
      p->pull_value();
      w.receive(message(kd, c, a_note(), a_note()));
      VCHECK(from(p->value()) == now, "output.pull", what);
      M.seen(vp::mix(vp::hash_str(what), how));
    }
    // raw messages
    for (int s = 0; s < 10; s++)
    {
      auto p = w.dev->get_root_node().get_parameter();
      if (!VCHECK(p, "output.raw", "no root parameter"))
        break;
      bytes b;
      std::vector<ossia::value> l;
      for (int n = M.r.i(0, 6); n > 0; n--)
      {
        b.push_back(M.r.i(0, 255));
        l.push_back(int(b.back()));
      }
      bus().sent.clear();
      bool list = M.r.i(0, 5);
      vp::no_throw("output.throws", [&] { list ? p->push_value(l) : p->push_value(M.r.i(0, 255)); });
      if (!list || b.empty())
        VCHECK(bus().sent.empty(), "output.raw", "sent ", bus().sent.size());
      else
        VCHECK(bus().sent.size() == 1 && bus().sent[0].bytes == b, "output.raw", hex(b));
      // and directly
      bus().sent.clear();
      libremidi::message m;
      m.bytes = b;
      w.proto->push_value(m);
      VCHECK(bus().sent.size() == 1 && bus().sent[0].bytes == b, "output.direct", hex(b));
    }
  }
}

// ------------------------------------------------------------------ history
struct model
{
  struct item
  {
    node_base* n{};
    parameter_base* p{};
    V v;
    bool loose{}; // its value is not known
    std::vector<std::pair<parameter_base::callback_index, int>> cbs;
  };
  bench w{mi::midi_info::Type::Input};
  std::map<key, item> items;
  std::set<int> channels;
  std::map<key, V> last; // what was received
  std::vector<std::pair<std::string, V>> want;
  std::vector<bytes> registered, drained;
  bool reg{}, learn{};
  int next{};
  std::vector<std::pair<key, int>> order;

  void adopt(const key& k)
  {
    auto nd = find_node(*w.dev, k.path());
    if (!VCHECK(nd, "tree.created", k.path()))
      return;
    auto& it = items[k];
    if (it.n)
      return;
    it.n = nd;
    it.p = nd->get_parameter();
    VCHECK(it.p, "tree.created", k.path(), " has no parameter");
    it.v = from(it.p->value());
  }
  // the node of k and those above
  void expect_node(const key& k)
  {
    channels.insert(k.chan);
    if (k.each())
      adopt({k.chan, whole(kind(k.t)), 0});
    adopt(k);
  }
  void check_tree()
  {
    std::size_t n = 0;
    std::set<std::string> paths;
    std::function<void(node_base&, std::string)> rec = [&](node_base& nd, std::string at) {
      for (auto& c : nd.children())
      {
        n++;
        auto p = at + "/" + c->get_name();
        VCHECK(paths.insert(p).second, "tree.twice", p);
        rec(*c, p);
      }
    };
    rec(w.dev->get_root_node(), "");
    VCHECK(n == items.size() + channels.size(), "tree.nodes", n, " nodes, not ", items.size() + channels.size());
    for (auto& [k, it] : items)
      VCHECK(paths.count(k.path()), "tree.nodes", "no ", k.path());
    for (int c : channels)
      VCHECK(paths.count("/" + std::to_string(c)), "tree.nodes", "no ", c);
  }
  void drop(std::function<bool(const key&)> f)
  {
    for (auto it = items.begin(); it != items.end();)
      it = f(it->first) ? items.erase(it) : std::next(it);
  }
  void observe(const key& k)
  {
    auto& it = items.at(k);
    auto path = k.path();
    auto* got = &w.got;
    it.cbs.push_back({it.p->add_callback([path, got](const ossia::value& v) { got->push_back({path, from(v)}); }), 0});
  }
  void deliver(const key& k, V v)
  {
    auto it = items.find(k);
    if (it == items.end() || it->second.cbs.empty())
      return;
    for (std::size_t i = 0; i < it->second.cbs.size(); i++)
      want.push_back({k.path(), v});
    it->second.v = v;
    it->second.loose = false;
    device.push_back({k.path(), v});
  }
  std::vector<std::pair<std::string, V>> device;

  static bool valid(const bytes& b)
  {
    if (b.empty() || b[0] < 0x80 || b[0] >= 0xF0)
      return false;
    auto s = b[0] & 0xF0;
    std::size_t n = s == 0xC0 ? 2 : s == 0xA0 || s == 0xD0 ? 1 : 3;
    if (b.size() < n)
      return false;
    for (std::size_t i = 1; i < n; i++)
      if (b[i] > 127)
        return false;
    return true;
  }
  void receive(const bytes& b)
  {
    w.got.clear();
    w.seen.clear();
    want.clear();
    device.clear();
    auto tree_before = items.size();
    w.receive(b);
    if (valid(b))
    {
      int c = (b[0] & 15) + 1, k = -1;
      for (int i = 0; i < 5; i++)
        if (status[i] == (b[0] & 0xF0))
          k = i;
      if (learn)
      {
        channels.insert(c);
        if (k == 4)
          expect_node({c, ai::Type::PB, 0});
        else if (k >= 0)
          expect_node({c, one(k), b[1]});
      }
      else
      {
        if (reg)
          registered.push_back(b);
        if (k >= 0)
        {
          V all = k == 3 ? num(b[1]) : k == 4 ? num(b[2] * 128 + b[1]) : pairv(b[1], b[2]);
          last[{c, whole(k), 0}] = all;
          deliver({c, whole(k), 0}, all);
          if (k < 4)
          {
            V each = k == 3 ? from(ossia::value{ossia::impulse{}}) : num(b[2]);
            if (k < 3)
              last[{c, one(k), b[1]}] = each;
            deliver({c, one(k), b[1]}, each);
          }
        }
      }
    }
    (void)tree_before;
    VCHECK(w.got == want, "input.observers", hex(b), " called ", w.got.size(), " not ", want.size(), w.got.empty() ? "" : " first " + w.got[0].first);
    VCHECK(w.seen == device, "input.device", hex(b), " told ", w.seen.size(), " not ", device.size());
  }
  void check_values()
  {
    for (auto& [k, it] : items)
      if (!it.loose)
        VCHECK(from(it.p->value()) == it.v, "input.value", k.path());
  }
  void drain()
  {
    struct port
    {
      using value_type = libremidi::message;
      std::vector<libremidi::message> v;
      void push_back(const libremidi::message& m) { v.push_back(m); }
    } p;
    w.proto->clone_value(p);
    std::vector<bytes> g;
    for (auto& m : p.v)
      g.push_back(m.bytes);
    VCHECK(g == registered, "input.registered", g.size(), " not ", registered.size());
    registered.clear();
  }
};

VP_SECTION(history)
{
  for (int i = 0; i < M.n(60, 500); i++)
  {
    M.at("history", "case");
    model m;
    std::string log;
    std::uint64_t h = 0;
    bool hostile = M.r.i(0, 2) == 0;
    auto cap = std::make_shared<capture>();
    if (M.r.i(0, 3) == 0)
      m.w.proto->set_logger({std::make_shared<spdlog::logger>("in", cap), std::make_shared<spdlog::logger>("out", cap)});
    for (int s = 0; s < 120; s++)
    {
      int op = M.r.i(0, 19);
      h = vp::mix(h, op);
      auto known = [&]() -> std::optional<key> {
        if (m.items.empty())
          return {};
        auto it = m.items.begin();
        std::advance(it, M.r.i(0, int(m.items.size()) - 1));
        return it->first;
      };
      if (op <= 1)
      {
        auto k = a_key();
        M.at("history", "create " + k.path());
        bool okay = vp::no_throw("tree.throws", [&] { find_or_create_node(*m.w.dev, k.path()); });
        if (okay)
          m.expect_node(k);
      }
      else if (op == 2)
      {
        // any name at any level
        static const std::vector<std::string> names{"0", "1", "16", "17", "64", "127", "128", "255", "256", "300", "-1", "-5", "1x", "x", "", "on", "off", "control", "program", "pitchbend", "note", "CC", "1.1", "+4", "007", "99999999999999999999", "on.1", " 3"};
        auto name = M.r.pick(names);
        node_base* at = &m.w.dev->get_root_node();
        std::optional<key> under;
        int level = M.r.i(0, 2), chan = 0;
        if (level >= 1 && !m.channels.empty())
        {
          auto it = m.channels.begin();
          std::advance(it, M.r.i(0, int(m.channels.size()) - 1));
          chan = *it;
          at = at->find_child(std::to_string(chan));
        }
        if (level == 2)
          if ((under = known()))
            at = m.items.at(*under).n, chan = under->chan;
        if (!VCHECK(at, "tree.nodes", "channel lost"))
          return;
        auto path = (under ? under->path() : chan ? "/" + std::to_string(chan) : "") + " + " + name;
        M.at("history", "create " + path);
        bool exists = at->find_child(name);
        int num = -1;
        for (int x = 0; x < 128; x++)
          if (std::to_string(x) == name)
            num = x;
        node_base* r{};
        if (!vp::no_throw("tree.throws", [&] { r = at->create_child(name); }))
          continue;
        bool want = false;
        key k{chan, {}, 0};
        if (exists)
          ;
        else if (!chan)
          want = num >= 1 && num <= 16;
        else if (!under)
        {
          for (int x = 0; x < 5; x++)
            if (name == tname[int(whole(x))])
              want = true, k.t = whole(x);
        }
        else if (!under->each() && under->t != ai::Type::PB)
        {
          want = num >= 0;
          k.t = one(kind(under->t));
          k.note = num;
        }
        VCHECK(bool(r) == want, "tree.create", path, r ? " created" : " refused");
        if (r)
          VCHECK(r->get_name() == name, "tree.name", path, " is called ", r->get_name());
        if (want && r)
        {
          if (!chan)
            m.channels.insert(num);
          else
            m.adopt(k);
        }
        h = vp::mix(h, vp::hash_str(path));
      }
      else if (op <= 4)
      {
        if (auto k = known())
        {
          M.at("history", "observe " + k->path());
          m.observe(*k);
        }
      }
      else if (op == 5)
      {
        if (auto k = known(); k && !m.items.at(*k).cbs.empty())
        {
          M.at("history", "forget " + k->path());
          auto& it = m.items.at(*k);
          it.p->remove_callback(it.cbs.back().first);
          it.cbs.pop_back();
        }
      }
      else if (op == 6)
      {
        // removal of a node, with what observes it
        if (auto k = known(); k && M.r.b())
        {
          M.at("history", "remove " + k->path());
          VCHECK(m.items.at(*k).n->get_parent()->remove_child(*m.items.at(*k).n), "tree.remove", k->path());
          auto kk = *k;
          m.drop([&](const key& o) { return o == kk || (!kk.each() && o.chan == kk.chan && kind(o.t) == kind(kk.t)); });
        }
        else if (!m.channels.empty() && M.r.i(0, 3) == 0)
        {
          int c = *m.channels.begin();
          M.at("history", "remove channel");
          VCHECK(m.w.dev->get_root_node().remove_child(std::to_string(c)), "tree.remove", c);
          m.channels.erase(c);
          m.drop([&](const key& o) { return o.chan == c; });
        }
        m.check_tree();
      }
      else if (op == 7)
      {
        if (auto k = known())
        {
          M.at("history", "pull " + k->path());
          auto& it = m.items.at(*k);
          m.w.got.clear();
          it.p->pull_value();
          if (auto l = m.last.find(*k); l != m.last.end())
          {
            it.v = l->second;
            it.loose = false;
            VCHECK(from(it.p->value()) == it.v, "input.pull", k->path());
            VCHECK(m.w.got.size() == it.cbs.size(), "input.pull", "observers called ", m.w.got.size());
          }
          else if (k->t != ai::Type::PC_N)
            it.loose = true;
        }
      }
      else if (op == 8)
      {
        m.learn = M.r.i(0, 2) == 0;
        m.w.proto->set_learning(m.learn);
        VCHECK(m.w.proto->learning() == m.learn, "learn.flag", m.learn);
      }
      else if (op == 9)
      {
        if (M.r.i(0, 4) == 0)
        {
          m.w.proto->enable_registration();
          m.reg = true;
        }
        m.drain();
      }
      else if (op == 10)
      {
        if (auto k = known())
        {
          // an input sends nothing
          bus().sent.clear();
          auto& it = m.items.at(*k);
          it.p->push_value();
          VCHECK(bus().sent.empty(), "input.sends", k->path());
        }
      }
      else if (op == 11 && hostile)
      {
        bytes b;
        for (int n = M.r.i(0, 5); n > 0; n--)
          b.push_back(M.r.i(0, 255));
        if (!b.empty() && M.r.b())
          b[0] = M.r.pick(std::vector<int>{0x80, 0x9F, 0xB1, 0xC0, 0xCF, 0xE1, 0xF0, 0xF8, 0xFF, 0xA0, 0xD1});
        M.at("hostile", hex(b));
        m.receive(b);
      }
      else if (op == 12 && M.r.i(0, 3) == 0)
      {
        // the port is closed and opened again
        VCHECK(m.w.proto->set_info({mi::midi_info::Type::Output, "bus", 0}), "ports.switch", "refused");
        VCHECK(m.w.proto->get_info().type == mi::midi_info::Type::Output, "ports.info", "wrong");
        VCHECK(!m.w.in->m_open, "ports.closed", "the input stays open");
        if (auto k = known(); k && M.r.b())
        {
          // nodes may go in between
          VCHECK(m.items.at(*k).n->get_parent()->remove_child(*m.items.at(*k).n), "tree.remove", k->path());
          auto kk = *k;
          m.drop([&](const key& o) { return o == kk || (!kk.each() && o.chan == kk.chan && kind(o.t) == kind(kk.t)); });
        }
        VCHECK(m.w.proto->set_info({mi::midi_info::Type::Input, "bus", 3}), "ports.switch", "refused");
        VCHECK(m.w.proto->get_info().type == mi::midi_info::Type::Input && m.w.proto->get_info().port == 3, "ports.info", "wrong");
        VCHECK(m.w.in->m_open, "ports.opened", "the input stays closed");
      }
      else
      {
        int k = M.r.i(0, 4);
        // mostly towards what exists
        auto o = known();
        int c = o && M.r.i(0, 3) ? o->chan : a_chan(), x = o && M.r.i(0, 3) ? o->note : a_note();
        if (o && M.r.i(0, 3))
          k = kind(o->t);
        auto b = message(k, c, x, a_note());
        M.at("history", "receive " + hex(b));
        m.receive(b);
        h = vp::mix(h, vp::hash_str(hex(b)));
      }
      if (s % 8 == 0)
      {
        M.at("history", "check");
        m.check_values();
        m.check_tree();
      }
    }
    m.check_values();
    m.check_tree();
    m.drain();
    // observed values are the last received even after everything was rebuilt
    if (M.r.i(0, 9) == 0)
    {
      m.w.dev->create_full_tree();
      m.items.clear();
      m.w.got.clear();
      m.learn = false;
      m.w.proto->set_learning(false);
      for (int s = 0; s < 10; s++)
      {
        auto k = a_key();
        m.adopt(k);
        m.observe(k);
      }
      for (int s = 0; s < 40; s++)
        m.receive(message(M.r.i(0, 4), a_chan(), a_note(), a_note()));
      m.check_values();
    }
    M.seen(h);
  }
}

// --------------------------------------------------------------- both sides
VP_SECTION(through)
{
  for (int i = 0; i < M.n(40, 300); i++)
  {
    M.at("through", "case");
    bench out{mi::midi_info::Type::Output}, in{mi::midi_info::Type::Input};
    auto devs = mi::midi_protocol::scan();
    VCHECK(devs.size() == 2 && devs[0].type == mi::midi_info::Type::Input && devs[1].type == mi::midi_info::Type::Output, "ports.scan", devs.size());
    bool learn = M.r.b();
    if (learn)
    {
      // the tree of one becomes that of the other by what it sends
      in.proto->set_learning(true);
      std::set<key> ks;
      for (int s = 0; s < 20; s++)
      {
        auto k = a_key();
        auto p = find_or_create_node(*out.dev, k.path()).get_parameter();
        int x = a_note();
        if (k.pair())
          p->push_value(std::vector<ossia::value>{x, a_note()});
        else
          p->push_value(ossia::value{x});
        if (k.t == ai::Type::PB)
          ks.insert(k);
        else
        {
          ks.insert({k.chan, whole(kind(k.t)), 0});
          ks.insert({k.chan, one(kind(k.t)), k.each() ? k.note : x});
        }
      }
      std::size_t n = 0;
      for (auto& c : in.dev->get_root_node().children())
        for (auto& t : c->children())
          n += 1 + t->children().size();
      VCHECK(n == ks.size(), "learn.nodes", n, " not ", ks.size());
      for (auto& k : ks)
        VCHECK(find_node(*in.dev, k.path()), "learn.nodes", "no ", k.path());
      in.proto->set_learning(false);
    }
    for (int s = 0; s < 30; s++)
    {
      auto k = a_key();
      M.at("through", k.path());
      auto p = find_or_create_node(*out.dev, k.path()).get_parameter();
      auto q = find_or_create_node(*in.dev, k.path()).get_parameter();
      std::vector<V> got;
      bool watch = M.r.b();
      parameter_base::callback_index cb;
      if (watch)
        cb = q->add_callback([&](const ossia::value& v) { got.push_back(from(v)); });
      ossia::value v = k.t == ai::Type::PC_N ? ossia::value{ossia::impulse{}}
                       : k.pair()            ? ossia::value{std::vector<ossia::value>{a_note(), a_note()}}
                       : k.t == ai::Type::PB ? ossia::value{M.r.i(0, 16383)}
                                             : ossia::value{a_note()};
      p->push_value(v);
      if (watch)
      {
        VCHECK(got.size() == 1 && got[0] == from(v), "through.value", k.path(), " ", ossia::value_to_pretty_string(v), " called ", got.size());
        q->remove_callback(cb);
        p->push_value();
        VCHECK(got.size() == 1, "through.forgotten", k.path());
      }
      if (k.t != ai::Type::PC_N)
      {
        q->pull_value();
        VCHECK(from(q->value()) == from(v), "through.pull", k.path());
      }
      M.seen(vp::mix(vp::hash_str(k.path()), vp::hash_str(ossia::value_to_pretty_string(v))));
    }
  }
}
VP_MAIN
