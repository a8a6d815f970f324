// Simulated MPI: the ranks of a world are threads of this process, message
// delivery order and completion are decided by a seeded scheduler.
#ifndef SIMMPI_HPP
#define SIMMPI_HPP
#include <mpi.h>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

struct Options {
    uint64_t seed     = 1;
    int max_delay     = 0;    // ticks a message may be held back (per channel FIFO is kept)
    int rendezvous    = 0;    // percentage of sends that read the buffer only when matched
    int yield         = 0;    // percentage of MPI_Test calls that sleep a little
};

struct World;
World *create(int size, const Options &o);
MPI_Comm comm(World *w, int rank);
void destroy(World *w);                 // leaks on purpose if something is still posted
// called for every event under the world's lock
void set_log(World *w, std::function<void(const std::string &)> f);
// adds fields (",\"k\":v...") to the events of a message's data
void set_describe(World *w, std::function<std::string(int tag, const void *data, std::size_t len)> f);
// messages sent but never received
std::vector<std::string> leftovers(World *w);
uint64_t ticks();
}
#endif
