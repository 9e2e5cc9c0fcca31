#pragma once
// In-process MIDI bus: what goes out of a midi_out is recorded and handed to the
// callback of every open midi_in.
#include <libremidi/api.hpp>
#include <libremidi/message.hpp>
#include <functional>
#include <mutex>
#include <string>
#include <vector>
namespace libremidi
{
class midi_in;
struct vp_bus
{
  std::recursive_mutex mut;
  std::vector<midi_in*> ins;
  std::vector<message> sent;
  static vp_bus& instance() { static vp_bus b; return b; }
};
class midi_in
{
public:
  std::function<void(const message&)> m_cb;
  bool m_open{};
  midi_in(API, std::string) { auto& b = vp_bus::instance(); std::lock_guard l{b.mut}; b.ins.push_back(this); }
  ~midi_in()
  {
    auto& b = vp_bus::instance();
    std::lock_guard l{b.mut};
    for (auto it = b.ins.begin(); it != b.ins.end(); ++it)
      if (*it == this) { b.ins.erase(it); break; }
  }
  void open_port(unsigned, std::string) { m_open = true; }
  void close_port() { m_open = false; }
  void set_callback(std::function<void(const message&)> f) { m_cb = std::move(f); }
  unsigned get_port_count() { return 1; }
  std::string get_port_name(unsigned) { return "bus"; }
};
class midi_out
{
public:
  bool m_open{};
  midi_out(API, std::string) {}
  void open_port(unsigned, std::string) { m_open = true; }
  void close_port() { m_open = false; }
  unsigned get_port_count() { return 1; }
  std::string get_port_name(unsigned) { return "bus"; }
  void send_message(const message& m)
  {
    auto& b = vp_bus::instance();
    std::lock_guard l{b.mut};
    b.sent.push_back(m);
    for (auto* i : b.ins)
      if (i->m_open && i->m_cb)
        i->m_cb(m);
  }
};
}
