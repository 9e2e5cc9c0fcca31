#pragma once
#define OSSIA_EXPORT
#define OSSIA_NO_EXPORT
#define OSSIA_DEPRECATED __attribute__((__deprecated__))
#define OSSIA_DEPRECATED_EXPORT OSSIA_DEPRECATED
#define OSSIA_DEPRECATED_NO_EXPORT OSSIA_DEPRECATED
