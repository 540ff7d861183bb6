// Stand-in for the libremidi dependency (not in the sandbox).
#pragma once
namespace libremidi
{
enum class API { UNSPECIFIED };
}
