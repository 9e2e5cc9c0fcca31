#pragma once
#define OSSIA_SHARED_MUTEX_AVAILABLE
#define OSSIA_PROTOCOL_MIDI
#define OSSIA_PROTOCOL_OSC
#define OSSIA_PROTOCOL_MINUIT
#define OSSIA_PROTOCOL_OSCQUERY
#define OSSIA_PROTOCOL_WEBSOCKETS
#define OSSIA_PROTOCOL_HTTP
#define OSSIA_DATAFLOW
#define OSSIA_C
#define OSSIA_EDITOR
