#pragma once
// Minimal POSIX implementation of oscpack's UDP sockets (loopback tests only).
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <netdb.h>
#include <poll.h>
#include <stdexcept>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>
namespace oscpack
{
class IpEndpointName
{
public:
  static constexpr unsigned long ANY_ADDRESS = 0xFFFFFFFF;
  static constexpr int ANY_PORT = -1;
  IpEndpointName() = default;
  IpEndpointName(int p) : port{p} {}
  IpEndpointName(unsigned long a, int p) : address{a}, port{p} {}
  IpEndpointName(const char* name, int p = ANY_PORT) : port{p}
  {
    in_addr a{};
    if (std::strcmp(name, "localhost") == 0)
      name = "127.0.0.1";
    if (inet_aton(name, &a))
      address = ntohl(a.s_addr);
  }
  unsigned long address{ANY_ADDRESS};
  int port{ANY_PORT};
  enum { ADDRESS_STRING_LENGTH = 17, ADDRESS_AND_PORT_STRING_LENGTH = 23 };
  sockaddr_in to_sockaddr() const
  {
    sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_addr.s_addr = address == ANY_ADDRESS ? INADDR_ANY : htonl(address);
    s.sin_port = port == ANY_PORT ? 0 : htons(port);
    return s;
  }
  friend bool operator==(const IpEndpointName& a, const IpEndpointName& b) { return a.address == b.address && a.port == b.port; }
};
class PacketListener
{
public:
  virtual ~PacketListener() = default;
  virtual void ProcessPacket(const char* data, int size, const IpEndpointName& remote) = 0;
};
class TimerListener
{
public:
  virtual ~TimerListener() = default;
  virtual void TimerExpired() = 0;
};
namespace detail
{
struct Implementation
{
  int fd{-1};
  Implementation()
  {
    fd = ::socket(AF_INET, SOCK_DGRAM, 0);
    if (fd < 0)
      throw std::runtime_error("unable to create udp socket");
  }
  ~Implementation() { if (fd >= 0) ::close(fd); }
  Implementation(const Implementation&) = delete;
  void Connect(const IpEndpointName& e)
  {
    auto s = e.to_sockaddr();
    if (::connect(fd, (sockaddr*)&s, sizeof s) < 0)
      throw std::runtime_error("unable to connect udp socket");
  }
  void Bind(const IpEndpointName& e)
  {
    auto s = e.to_sockaddr();
    if (::bind(fd, (sockaddr*)&s, sizeof s) < 0)
      throw std::runtime_error("unable to bind udp socket");
  }
  int LocalPort() const
  {
    sockaddr_in s{};
    socklen_t l = sizeof s;
    ::getsockname(fd, (sockaddr*)&s, &l);
    return ntohs(s.sin_port);
  }
  long ReceiveFrom(IpEndpointName& r, char* d, std::size_t n)
  {
    sockaddr_in s{};
    socklen_t l = sizeof s;
    auto res = ::recvfrom(fd, d, n, 0, (sockaddr*)&s, &l);
    if (res >= 0)
    {
      r.address = ntohl(s.sin_addr.s_addr);
      r.port = ntohs(s.sin_port);
    }
    return res;
  }
};
template <typename Impl>
class UdpSocket
{
public:
  Impl impl_;
  virtual ~UdpSocket() = default;
  void Connect(const IpEndpointName& e) { impl_.Connect(e); }
  void Bind(const IpEndpointName& e) { impl_.Bind(e); }
  void SetEnableBroadcast(bool b) { int v = b; ::setsockopt(impl_.fd, SOL_SOCKET, SO_BROADCAST, &v, sizeof v); }
  void SetAllowReuse(bool b) { int v = b; ::setsockopt(impl_.fd, SOL_SOCKET, SO_REUSEADDR, &v, sizeof v); }
  void Send(const char* d, std::size_t n) { ::send(impl_.fd, d, n, 0); }
  void SendTo(const IpEndpointName& e, const char* d, std::size_t n)
  {
    auto s = e.to_sockaddr();
    ::sendto(impl_.fd, d, n, 0, (sockaddr*)&s, sizeof s);
  }
  int LocalPort() const { return impl_.LocalPort(); }
};
template <typename Impl>
class SocketReceiveMultiplexer
{
  Impl* m_s{};
  PacketListener* m_l{};
  int m_pipe[2]{-1, -1};
  std::atomic_bool m_break{};

public:
  SocketReceiveMultiplexer() { if (::pipe(m_pipe) != 0) throw std::runtime_error("pipe"); }
  ~SocketReceiveMultiplexer() { ::close(m_pipe[0]); ::close(m_pipe[1]); }
  void AttachSocketListener(Impl* s, PacketListener* l) { m_s = s; m_l = l; }
  void DetachSocketListener(Impl*, PacketListener*) { m_s = nullptr; m_l = nullptr; }
  void AttachPeriodicTimerListener(int, TimerListener*) {}
  void Run()
  {
    std::vector<char> buf(65536);
    pollfd fds[2] = {{m_s->fd, POLLIN, 0}, {m_pipe[0], POLLIN, 0}};
    while (!m_break)
    {
      if (::poll(fds, 2, -1) < 0)
      {
        if (errno == EINTR)
          continue;
        throw std::runtime_error("poll");
      }
      if (m_break || (fds[1].revents & POLLIN))
        break;
      if (fds[0].revents & POLLIN)
      {
        IpEndpointName r;
        auto n = m_s->ReceiveFrom(r, buf.data(), buf.size());
        if (n > 0)
        {
          // exact-size copy: lets ASan see a read past the datagram
          std::vector<char> exact(buf.data(), buf.data() + n);
          m_l->ProcessPacket(exact.data(), int(n), r);
        }
      }
    }
  }
  void Break() { m_break = true; }
  void AsynchronousBreak()
  {
    m_break = true;
    char c = 0;
    (void)!::write(m_pipe[1], &c, 1);
  }
};
template <typename Impl>
class UdpTransmitSocket : public UdpSocket<Impl>
{
public:
  UdpTransmitSocket(const IpEndpointName& e) { this->Connect(e); }
};
template <typename Impl>
class UdpListeningReceiveSocket : public UdpSocket<Impl>
{
  SocketReceiveMultiplexer<Impl> m_mux;
  PacketListener* m_l;

public:
  UdpListeningReceiveSocket(const IpEndpointName& e, PacketListener* l) : m_l{l}
  {
    this->Bind(e);
    m_mux.AttachSocketListener(&this->impl_, m_l);
  }
  ~UdpListeningReceiveSocket() override { m_mux.DetachSocketListener(&this->impl_, m_l); }
  void Run() { m_mux.Run(); }
  void Break() { m_mux.Break(); }
  void AsynchronousBreak() { m_mux.AsynchronousBreak(); }
};
}
using UdpSocket = detail::UdpSocket<detail::Implementation>;
using UdpTransmitSocket = detail::UdpTransmitSocket<detail::Implementation>;
using UdpListeningReceiveSocket = detail::UdpListeningReceiveSocket<detail::Implementation>;
}
