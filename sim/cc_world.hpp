// The compiler as a simulated process: its files, standard streams, clock,
// memory and sudden death.
#pragma once
#include <string>
#include <vector>
#include "core.hpp"

namespace sim {

enum Io { IO_OPEN_IN, IO_RESOLVE, IO_READ, IO_OPEN_OUT, IO_WRITE, IO_CLOSE_OUT, IO_STDOUT, IO_N };
extern const char *IO_NAME[];

struct Plan
{
    int hard = -1;          // kind of call that fails
    uint32_t at = 0;        // ... the at-th one
    bool persist = false;   // ... and all later ones
    bool partial = false;   // (write) transfers a part first
    int err = 5;
    uint32_t benign = 0;    // 1 in `benign` transfers is short or interrupted
    int64_t kill_call = -1; // dies at this call
    uint64_t kill_step = 0; // dies after this many basic blocks
    AllocMode amode = ALLOC_OFF;
    uint64_t anth = 0;
    bool noise = false;
    const char *lang = nullptr;
    std::string cwd;        // default: the scratch directory
    uint64_t clock = 1700000000;
    int pid = 4242;
    uint64_t steps = 0;     // step limit (0: default)
};
struct RunOut
{
    bool killed = false;    // by the plan
    int status = 0;         // exit status; 128+n for signal n
    std::string err, out;   // standard error, standard output
    uint32_t n[IO_N] = {};  // calls seen
    uint32_t calls = 0, fired = 0, benign = 0;
    uint64_t allocs = 0, steps = 0;
    bool alloc_fired = false;
};
// argv: protogen model [output]
RunOut run_cli(const std::string &model, const std::string &output, const Plan &p);
// several compilers at the same time: the turn goes from one to another, by
// the tape, at every call they make and between any two basic blocks
struct Cli { std::string model, out; Plan plan; };
std::vector<RunOut> run_together(const std::vector<Cli> &v);

std::string scratch();      // fixed-length absolute directory of this worker, with in/ and out/
void clean_scratch();
bool exists(const std::string &path);
std::string read_file(const std::string &path);
void write_file(const std::string &path, const std::string &bytes);
std::string mask(const std::string &s); // scratch path replaced, for the log
std::vector<std::string> files_of(const std::string &dir); // regular files, by name
std::string list_dir(const std::string &dir);
} // namespace sim
