#pragma once
#define OSSIA_EXPORT
#define OSSIA_NO_EXPORT
#define OSSIA_DEPRECATED
