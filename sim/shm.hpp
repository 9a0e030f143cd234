#pragma once
#include <atomic>
#include <cstdint>
#include <string>
namespace sim {
constexpr int exit_violation = 77;
constexpr uint32_t max_tape = 1u << 18;
constexpr uint32_t max_stats = 256;
constexpr uint32_t cov_size = 1u << 18;
constexpr uint32_t set_bits = 22;
constexpr uint32_t trace_cap = 1u << 20;
constexpr uint32_t max_samples = 4;

struct StatSlot { std::atomic<uint64_t> key; std::atomic<uint64_t> val; char name[48]; };

struct Shared {                 // shared by all processes of one check
    StatSlot stats[max_stats];
    uint8_t cov[cov_size];
    std::atomic<uint64_t> next_batch;
    std::atomic<uint64_t> runs_done, steps_done, nontrivial;
    std::atomic<uint64_t> first_bad;   // lowest run index with a violation, ~0 if none
    std::atomic<uint32_t> stop;
    std::atomic<uint64_t> set_count[3];
    std::atomic<uint64_t> sets[3][1u << set_bits];
};
struct Channel {                // one per executing process
    std::atomic<uint32_t> tape_len;
    std::atomic<uint64_t> run_index;
    uint64_t final_hash;
    uint32_t violated;
    char vclass[64];
    char vmsg[4096];
    uint32_t trace_len;
    char trace[trace_cap];
    uint32_t tape[max_tape];
};
extern Channel* shm_chan;
struct ShmFacade {              // what core.cpp uses
    uint8_t* cov;
    std::atomic<uint32_t>& tape_len;
    uint64_t& final_hash;
};
extern ShmFacade* shm;
extern Shared* shared;
extern uint32_t num_guards;
std::atomic<uint64_t>* shm_stat(const char* name);
void shm_distinct(int set, uint64_t h);
void shm_set_violation(const char* cls, const char* msg);
void shm_set_trace(const std::string&);
} // namespace sim
