#pragma once
#include <oscpack/ip/UdpSocket.h>
#include <oscpack/osc/OscReceivedElements.h>
namespace oscpack
{
class OscPacketListener : public PacketListener
{
protected:
  virtual void ProcessBundle(const ReceivedBundle& b, const IpEndpointName& ep)
  {
    for (auto i = b.ElementsBegin(); i != b.ElementsEnd(); ++i)
      if (i->IsBundle())
        ProcessBundle(ReceivedBundle(*i), ep);
      else
        ProcessMessage(ReceivedMessage(*i), ep);
  }
  virtual void ProcessMessage(const ReceivedMessage& m, const IpEndpointName& ep) = 0;

public:
  void ProcessPacket(const char* data, int size, const IpEndpointName& ep) override
  {
    ReceivedPacket p(data, size);
    if (p.IsBundle())
      ProcessBundle(ReceivedBundle(p), ep);
    else
      ProcessMessage(ReceivedMessage(p), ep);
  }
};
}
