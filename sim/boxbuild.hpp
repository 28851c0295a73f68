#pragma once

#include "boxes.hpp"

#include "shiguredo/mp4/box.hpp"

namespace sim {

// sets the reserved bits of a payload to what the format prescribes (the constructors take no values for them)
void canonical(const Node& n, Bytes& payload);
// a box with the field values of that payload; choice selects between equivalent ways of describing it
shiguredo::mp4::Box* build_box(const Node& n, const Bytes& payload, std::uint64_t choice, bool* understated = nullptr);
// (understated: version 0 is asked for whatever the payload's version; set to true when a value does not fit that version)
// a description that contradicts itself or that its fields cannot hold, made and written
void offer_contradiction(int which, std::uint64_t n, std::ostream& os);
constexpr int kContradictionCount = 14;
extern const char* const kContradictions[kContradictionCount];

}  // namespace sim
