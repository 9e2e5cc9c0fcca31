#pragma once
#include <oscpack/osc/OscReceivedElements.h>
#include <ostream>
namespace oscpack
{
inline std::ostream& operator<<(std::ostream& os, const ReceivedMessage& m)
{
  os << m.AddressPattern() << " ,";
  for (auto it = m.ArgumentsBegin(), e = m.ArgumentsEnd(); it != e; ++it)
    os << it->TypeTag();
  return os;
}
inline std::ostream& operator<<(std::ostream& os, const ReceivedPacket& p)
{
  return os << "packet(" << p.Size() << ")";
}
}
