#pragma once
#include "hist.hpp"
#include <functional>
// Sets up hooks (history recording, matcher spies, solver control) for a node-level run.
void node_setup(const Plan & p);
extern World W;
extern const Plan * g_plan;
extern int g_group;                       // current incarnation
extern P2 g_map_origin;                   // truth pose that is the map origin
// driver actions
int node_boot(const std::string & map_file);
bool settle(i64 limit_ns);                // until the executor is idle; false on timeout
u64 send_scan(const Op & o, bool wait);
u64 send_pose(const Op & o);
u64 send_req(int action, const std::string & file);
bool wait_req(u64 id, i64 limit_ns);
Snap probe(bool must = true);             // SAVE through the service, decode the file
void make_map(const Op & o);              // synthesise a map file
void crash_node();
bool common_op(const Op & o);             // faults and the like; false if not one of those
void run_paced(const Plan & p);
void run_concurrent(const Plan & p);
void run_track(const Plan & p);
P2 in_map(const P2 & world);
P2 odom_lookup(i64 stamp, bool & ok);
extern i64 probe_t;                          // when it was sent
extern u64 probe_seq;                        // H.seq when the last probe was answered
