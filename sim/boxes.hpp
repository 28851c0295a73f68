// Format-level knowledge, independent of the library: payloads of every supported box kind, box trees, expected listing.
#pragma once

#include <string>
#include <vector>

#include "core.hpp"

namespace sim {

using Bytes = std::vector<std::uint8_t>;

struct BoxKind {
  const char* type;   // four bytes
  bool container;     // the reader descends into it
};
constexpr int kUnknownKind = 0;   // kind 0: a type the library does not know
const std::vector<BoxKind>& box_kinds();
int kind_of(const char* type);    // -1 if there is none
std::string kind_type(int kind, std::uint64_t seed);   // kind 0 draws its type from the seed

// Payload of a box of that kind without its children. relaxed: also forms that are valid but that re-encoding is not
// promised to reproduce (short descriptor lengths, nested descriptors of other tags).
Step large_box(std::uint64_t round, Rng& r);  // kinds that list things, in turn, with more entries than 16 bits count
int pick_class(Rng& r);   // size class: 0 tiny .. 3 hundreds, rarely 4 thousands and 5 beyond 16-bit counts
Bytes box_payload(int kind, std::uint64_t seed, int cls, std::size_t children, bool relaxed, bool under_wave = false);

struct Node {
  int kind = 0;
  std::string type;
  int hdr = 0;            // 0: 32-bit size, 1: 64-bit size, 2: to the end of the file
  Bytes data;
  std::vector<Node> kids;
  std::uint64_t seed = 0;
  int cls = 0;
  bool under_wave = false;
  std::uint64_t offset = 0, size = 0;   // set by layout
  int depth = 0;
};
// steps {"box", {kind, depth, hdr, seed, cls}} in pre-order
std::vector<Node> build_tree(const std::vector<Step>& steps, bool relaxed);
void gen_tree(Rng& r, std::vector<Step>* out, int budget, int max_depth);
// trees of an extreme shape: deep chains, hundreds of siblings, a long last box that runs to the end of the file
void gen_shape(Rng& r, std::vector<Step>* out, int max_depth, bool open_end);
Bytes encode_tree(std::vector<Node>& roots);          // also fills offset, size, depth
void walk(const std::vector<Node>& roots, const std::function<void(const Node&)>& f);

struct Line {
  int depth = 0;
  std::string type;
  std::uint64_t offset = 0, size = 0;
  std::string text = {};   // what follows the size: the fields
  bool operator==(const Line& o) const { return depth == o.depth && type == o.type && offset == o.offset && size == o.size; }
};
// what a report states about the fields of a box (boxtext.cpp)
std::string box_text(const std::string& type, const std::uint8_t* payload, std::size_t n, bool under_wave);
std::string type_text(const std::string& type);       // how the reader prints a type
std::vector<Line> expected_lines(const std::vector<Node>& roots);
bool parse_lines(const std::string& text, std::vector<Line>* out, std::string* bad);
std::string line_text(const Line& l);
// Lists a file the writers produced, without the library: containers by the format's rules.
struct ByteSource;
void list_boxes(const ByteSource& b, std::uint64_t at, std::uint64_t end, int depth, bool wave, std::vector<Line>* out, std::vector<std::uint64_t>* tops);

}  // namespace sim
