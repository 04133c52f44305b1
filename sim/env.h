// The simulated environment: every source of nondeterminism the analysed
// process can see (heap layout and contents, allocation failure, clocks,
// random numbers, file reads, file writes, standard output) is decided here
// from a plan drawn off the choice tape.
#pragma once
#include "core.h"

enum IoKind { IO_NONE = 0, IO_EIO, IO_SHORT, IO_EINTR, IO_EOF, IO_ENOSPC, IO_FLIP, IO_EIO_ONCE, IO_FULL_ONCE };

struct IoFault { int kind = 0; ll at = 0; };        // at: call index (reads) or byte offset (writes)

struct EnvPlan {
    // heap
    int layout = 0;            // 0 ascending, 1 descending, 2 shuffled, 3 never reused
    ull layoutSeed = 0;
    int fill = 0;              // contents of fresh memory: 0 zero, 1 0xAA, 2 0xFF, 3 pseudo-random
    bool poison = false;       // overwrite freed memory
    int guard = 0;             // one block in so many ends where mapped memory ends and is unmapped when freed
    ll failAlloc = -1;         // index of the first allocation that fails
    bool failForever = false;
    ll failMinSize = 0;        // only allocations of at least this size are counted
    // clocks
    int clock = 0;             // 0 steady, 1 frozen, 2 coarse, 3 jumps forward, 4 realtime jumps backward
    ull clockSeed = 0;
    // random numbers handed out by rand()
    int rnd = 0; ull rndSeed = 0;
    // input files (index counts read calls on simulated files)
    std::vector<IoFault> reads;
    // output files and standard output
    std::vector<IoFault> writes;   // on files
    std::vector<IoFault> outs;     // on standard output
    int openFail = 0;              // errno for the n-th open of a simulated file
    ll openFailAt = -1;
    ll closeFailAt = -1; int closeFail = 0;   // errno for the n-th close of a simulated file that was written
    int renameFail = 0;            // errno for every renaming of a simulated file
    bool mkdirFail = false;
    int stackFill = 0;
    std::string str() const;
};

enum Counter { K_ALLOC, K_ALLOCFAIL, K_CLOCK, K_CLOCKFAULT, K_RAND, K_READ, K_READ_EIO, K_READ_SHORT, K_READ_EINTR, K_READ_EOF, K_READ_FLIP,
               K_WRITE, K_WRITE_FAULT, K_WRITE_SHORT, K_WRITE_EINTR, K_OUT, K_OUT_FAULT, K_OPEN, K_OPENFAIL, K_LAYOUT, K_FILL, K_SYSTEM, K_WRITE_EIO, K_HEAPFULL, K_GUARD, K_CLOSEFAIL, K_RENAMEFAIL, K_N };
extern const char* counterName[K_N];

struct CallResult {
    int code = -1;             // exit code, -1 when killed
    int sig = 0;               // signal, 0 when none
    bool returned = false;     // the callee returned normally (library calls)
    std::string out;           // what reached standard output / the returned string
    bool truncated = false;
    ll k[K_N] = {0};
    ll readBytes = 0, virtualNs = 0;
    std::string how() const;
};

// Runs fn in a child process under the plan and returns what it produced.
CallResult libcall(const EnvPlan& p, const std::function<std::string()>& fn, int cpu_s = 20);
// Runs the command-line program under the plan (argv without argv[0]).
CallResult progcall(const EnvPlan& p, const std::vector<std::string>& args, int cpu_s = 20);

// scratch directory of this process; paths below it are simulated storage
const std::string& scratch();
void scratchWrite(const std::string& rel, const std::string& data);
std::string scratchRead(const std::string& rel);
void scratchClean();
EnvPlan benignEnv(Tape& tp);   // random but legal environment: layout, contents, clocks, random numbers
