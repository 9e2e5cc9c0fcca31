#pragma once
namespace libremidi
{
enum class API { UNSPECIFIED, LINUX_ALSA, DUMMY };
inline constexpr API default_platform_api() { return API::DUMMY; }
}
