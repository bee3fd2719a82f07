// mc.hpp - small explicit, stateless model-checking kernel used by every harness in this directory.
//
// A "scenario" is a closed system around the real code.  It asks choose(n) at every point where the
// environment (operation, argument, interleaving, buffer boundary ...) may decide; the kernel runs the
// scenario once per element of the complete choice tree (depth first, no sampling).  Scenarios may call
// mc::visit(hash) to prune on an already expanded state (only sound if the hash identifies the state).
// Every scenario runs in its own forked worker so that a crash, an assertion or a hang of the code under
// test is an observation (with the choice prefix that led to it), not the end of the check.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation { std::string key, msg; };
struct Prune {};

// ---- environment choices -------------------------------------------------------------------------
int choose(int n);                       // returns every value in 0..n-1, one per execution
uint64_t pathHash();                     // identifies the choices made so far in this execution
inline bool flip() { return choose(2) == 1; }
template<class T> const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
int range(int lo, int hi);               // inclusive

// ---- observations --------------------------------------------------------------------------------
void op(const std::string &s);           // describe one step of the current execution (for replays)
void checked(uint64_t n = 1);            // number of individual property evaluations
void step(uint64_t n = 1);               // transitions taken
bool visit(uint64_t h);                  // true when h is new within this scenario
void state(uint64_t h);                  // count a distinct state (no pruning)
void sample(const std::string &s);       // keep a few examples for the evidence file
[[noreturn]] void fail(const std::string &key, const std::string &msg);
inline void require(bool ok, const std::string &key, const std::string &msg) { checked(); if (!ok) fail(key, msg); }
#define MC_REQUIRE(cond, key, stream) do { ::mc::checked(); if (!(cond)) { std::ostringstream mc_o_; mc_o_ << stream; ::mc::fail(key, mc_o_.str()); } } while (0)

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
inline uint64_t hashStr(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h, s.size()); }

// ---- configuration -------------------------------------------------------------------------------
bool thorough();
extern int execTimeout;                  // seconds without a finished execution that count as a hang

// ---- registration --------------------------------------------------------------------------------
struct Reg { Reg(const std::string &name, std::function<void()> body, int splitDepth = 0); };
void add(const std::string &name, std::function<void()> body);

// run f in a forked child, used where the *expected* behaviour is that the program stops.
struct ChildResult { bool exited; int code; int sig; std::string out; bool timedOut; };
ChildResult inChild(std::function<void(std::ostream&)> f, int timeoutSec = 20);
bool inReplay();
} // namespace mc

void mc_register();                      // each harness defines this and calls mc::add(...)
#endif
