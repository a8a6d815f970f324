#ifndef DRIVER_HPP
#define DRIVER_HPP
#include <cstdint>
#include <map>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

struct Val {                    // a user buffer as written in a scenario
    int t = 0;                  // hxhim_data_t
    bool null = false;          // null pointer
    Bytes b;
    std::size_t nlen = 0;       // length passed with a null pointer
};

std::vector<std::string> split(const std::string &s, char c = ' ');
Bytes unhex(const std::string &s);
std::string hex(const void *p, std::size_t n);
Val parse_val(const std::string &s);
std::string jbytes(const void *p, std::size_t n);
std::string jval(int t, const void *p, std::size_t n);
std::string jstr(const std::string &s);
std::string dkey(double d);     // order preserving 8 bytes of a double, as a JSON array

// logs one event (adds the sequence number); slot() reserves a place
std::size_t slot();
void fill(std::size_t at, const std::string &json);
void emit(const std::string &json);

// commands of unit.cpp: direct use of library parts
std::string message_header(int tag, const void *data, std::size_t len);
bool unit_command(int rank, const std::vector<std::string> &w);
#endif
