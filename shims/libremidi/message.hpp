// Stand-in for the libremidi dependency (not in the sandbox): the message type.
#pragma once
#include <cstdint>
#include <vector>
namespace libremidi
{
using midi_bytes = std::vector<unsigned char>;
enum class message_type : uint8_t
{
  INVALID = 0x0, NOTE_OFF = 0x80, NOTE_ON = 0x90, POLY_PRESSURE = 0xA0, CONTROL_CHANGE = 0xB0,
  PROGRAM_CHANGE = 0xC0, AFTERTOUCH = 0xD0, PITCH_BEND = 0xE0
};
inline uint8_t clamp(uint8_t val, uint8_t min, uint8_t max) { return val > max ? max : val < min ? min : val; }
struct message
{
  midi_bytes bytes;
  double timestamp{};
  static message make(uint8_t type, uint8_t channel, uint8_t a, uint8_t b)
  {
    message m;
    m.bytes = {(unsigned char)(type | (channel - 1)), a, b};
    return m;
  }
  static message note_on(uint8_t channel, uint8_t note, uint8_t velocity) { return make(0x90, channel, note, velocity); }
  static message note_off(uint8_t channel, uint8_t note, uint8_t velocity) { return make(0x80, channel, note, velocity); }
  static message control_change(uint8_t channel, uint8_t c, uint8_t v) { return make(0xB0, channel, c, v); }
  message_type get_message_type() const { return bytes.empty() ? message_type::INVALID : (message_type)(bytes[0] & 0xF0); }
  int get_channel() const { return (bytes[0] & 0xF) + 1; }
};
}
