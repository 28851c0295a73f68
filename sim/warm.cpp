#include <spdlog/spdlog.h>

namespace sim {
void warm_up_mux();
void warm_up_read();
void warm_up() {
  const auto level = spdlog::get_level();
  spdlog::set_level(spdlog::level::off);
  warm_up_mux();
  warm_up_read();
  spdlog::set_level(level);
}
}  // namespace sim
