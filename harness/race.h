// Controlled execution of two (or more) threads of real code, with happens-before race detection.
//
// The harness is compiled with -fsanitize=thread, which turns every load, store and atomic operation
// of the code under test (templates of the standard library included) into a call; race_rt.cpp supplies these
// calls in place of the runtime of the compiler.  Every schedule runs in a forked process: the bodies are real
// threads that hand over to each other, one runs at a time, and a thread is preempted only where the schedule
// says so.  All accesses to memory that is not the thread's own (its stack, what it allocated itself) are
// checked with vector clocks, so a schedule in which nothing conflicts stands for every interleaving of it.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace race {
struct Result {
    bool ok = false;                    // the process ended as it should
    std::string death;                  // how it ended otherwise
    std::vector<std::string> out;       // what the bodies returned ("!..." for an exception)
    std::vector<long> shared;           // accesses to shared memory per body
    std::vector<long> globals;          // those of them to writable global variables
    bool raced = false;
    std::string race;                   // first conflict
};
// order: the order in which the bodies are started; the first one is preempted before its k-th access
// (counting from 1; all shared accesses, or with onlyGlobals those to globals), 0: not at all
Result run(const std::vector<std::function<std::string()>>& bodies, const std::vector<int>& order, long k = 0, bool onlyGlobals = false);
}
