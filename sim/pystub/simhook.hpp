// what the bound library sees of the simulator
#pragma once
namespace simh {
void body(char const *name);
struct Guard { unsigned long at; Guard(); ~Guard(); Guard(Guard const &) = delete; };
} // namespace simh
#define SIM_BODY(n) ::simh::body(n)
