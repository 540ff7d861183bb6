#pragma once
// stands in for the file CMake generates from src/ossia-config.hpp.in
#define OSSIA_SHARED_MUTEX_AVAILABLE
#define OSSIA_DATAFLOW
#define OSSIA_EDITOR
