"""Per-property configuration of run.py."""
CHECKS = {}

def J(pkg, name, files, **kw):
    d = dict(pkg=pkg, name=name, files=files); d.update(kw); return d

TECH = {
    "ref": "runtime monitoring: online oracle (reference model) over instrumented executions under randomized and adversarial workloads",
    "ref+race": "runtime monitoring: online oracle over instrumented executions, plus the Go race detector",
    "trace": "runtime monitoring: trace-specification checker over recorded event logs of randomized, jittered and fault-injected executions",
    "trace+race": "runtime monitoring: trace-specification checker over recorded event logs, plus the Go race detector",
    "san": "runtime monitoring: oracle plus sanitizers (race detector, AddressSanitizer, checkptr)",
}
NOTE = "Holds on the executions explored (counts in the evidence file); inputs and schedules not generated are not covered. Trusts the Go toolchain, the harness's reference model and, where a hash is involved, the absence of 64-bit collisions unless the case injects them."

def C(prop, rule, jobs, require=(), tech="ref", note="", **kw):
    CHECKS[prop] = dict(rule=rule, jobs=jobs, require=list(require), technique=TECH[tech], note=(note + " " + NOTE).strip(), **kw)

RC = ["riblt/common.go", "riblt/c01.go", "riblt/c05.go"]
def R(f, **kw): return J("riblt", "riblt_test", RC + ["riblt/%s.go" % f] if f else RC, **kw)

C("C01", "one random set pair, symbol type and batching of arrivals and decoding attempts; non-trivial when the difference is non-empty and decoding completed; distinct by sizes, batching and coded symbols used",
  [R("")], ["completed", "symbols_recovered", "completed_adversarial", "near_miss_completed"])
C("C02", "one set pair driven with a given batching, decoder state compared with a reference peeling decoder after every attempt, or an average-overhead sample; non-trivial with 2+ differences; distinct by sizes, batching and symbols needed",
  [R("c02")], ["attempts_compared", "partial_states", "completed"])
C("C03", "one random set encoded in several orders, split in two, and sketched at several sizes; non-trivial when non-empty; distinct by type, sizes and set",
  [R("c03")], ["cells_compared", "cells_folded", "colliding_sets"])
C("C04", "one set pair and sketch size; subtract and decode compared with reference peeling and with rateless decoding; non-trivial with 1+ differences; distinct by sizes and outcome",
  [R("c04")], ["successes", "failures_reported", "symbols_returned", "extreme_hash_sets"])
C("C05", "one 64-bit hash (extreme, sparse or random) checked in stream, sketch and decoder over all positions below m, or a mixed set, or a density sample; distinct by hash",
  [R("")], ["positions", "mixed_cells", "density_symbols", "far_density_symbols"])
C("C06", "one history of rounds of use and reset, every round compared operation by operation with fresh instances; distinct by the round shapes",
  [R("c06")], ["comparisons_after_reset", "reset_with_work_outstanding"])
C("C07", "one session in which all inputs, produced coded symbols and reported symbols are re-inspected after every few operations, or concurrent instances over shared symbols under the race detector; distinct by sizes",
  [R("c07", modes=["plain", "race"])], ["immutability_checks", "reported_symbols_tracked", "concurrent_instances", "results_kept"], "ref+race")

def L(f, **kw):
    return [J(p, p + "_test", ["lt/common.go", "lt/%s.go" % f], subst={"LTPKG": p}, **kw) for p in ("lt", "iblt")]

C("C08", "one session of several senders with different windows, one or two decoders, local additions, repeated and missed codewords; every transaction handed out judged; distinct by sizes and number handed out",
  L("dec"), ["transactions_handed_out", "cascades", "local_additions", "results_reread"])
C("C09", "one session, or one dependency chain unlocked at once, with the decoder compared with a reference peeling decoder after every addition; distinct by sizes and number handed out",
  L("dec"), ["transactions_handed_out", "status_checks", "cascades", "membership_queries", "big_chains"])
C("C10", "one encoder history judging every codeword against the window model, or a uniformity sample over positions and pairs; distinct by sizes",
  L("enc"), ["codewords_judged", "uniformity_samples", "huge_windows", "spread_windows"])
C("C11", "one history of additions, re-additions, productions and resets against the window model; distinct by sizes and final window",
  L("enc"), ["additions", "refusals", "displacements", "resets", "window_inspections", "huge_windows"])
C("C12", "one history through a bounded memory with probes at the forgetting boundary, or a long run with the retained heap measured; distinct by sizes",
  L("dec"), ["boundary_probes", "decoded_again_after_forgetting", "long_run_transactions", "large_memories"])
C("C13", "one sequence containing colliding transactions and damaged codewords; distinct by sizes",
  L("dec"), ["handed_out_under_collisions", "damaged_codewords", "latest_of_colliding", "successor_of_forgotten"])

def D(f, **kw): return J("ldpc", "ldpc_test", ["ldpc/common.go", "ldpc/%s.go" % f], **kw)
CHECKS["C12"]["jobs"].append(D("dec")); CHECKS["C13"]["jobs"].append(D("dec"))

C("C14", "one session of crafted or encoder-made codewords and local additions, compared with a reference peeling decoder after every step, or a chain unlocked at once; distinct by sizes and number handed out",
  [D("dec")], ["transactions_handed_out", "status_checks", "cascades", "local_additions", "big_chains", "results_reread", "forgetting_histories"])
C("C15", "one group of 1 to 8 concurrent decoders over the same codewords, each releasing records on its own schedule; every result compared with a reference that never releases; distinct by sizes and release counts",
  [D("dec", modes=["plain", "race"])], ["expired_transactions", "unexpired_transactions", "released_before_decoding", "released_after_decoding", "concurrent_decoders"], "ref+race")
C("C16", "one encoder history judged against the window model, or a uniformity sample over positions and pairs; distinct by sizes and final window",
  [D("enc")], ["codewords_judged", "uniformity_samples", "resets", "refusals", "displacements", "empty_codewords", "huge_windows", "spread_windows"])
C("C17", "one batch of loads, XORs, lengths or concurrent loads compared with an independent BLAKE2b/XOR computation, run plain and under the race detector, checkptr and AddressSanitizer; distinct by content",
  [D("tx", modes=["plain", "race", "checkptr", "asan"])], ["loads", "xors", "lengths_tried", "concurrent_loads"], "san")

DES = J("des", "des_test", ["des/des.go"])
C("C18", "one workload of up to 12000 messages (ties, zero and huge delays, loopbacks, nested and direct scheduling) whose every delivery is compared with a sorted-list reference; distinct by modules, deliveries, ties and end time",
  [DES], ["deliveries", "simultaneous_deliveries", "loopback_deliveries", "bursts"], "trace")
C("C19", "one workload run whole and again in random segments (stop times before, at, just before and after due times), or with messages added between segments; distinct by deliveries, segments and overshoots",
  [DES], ["segments", "overshoots", "deliveries", "injections", "bursts"], "trace")

def NS(**kw): return J("newsim", "main", ["newsim/net.go", "newsim/flow.go", "newsim/tests.go"], **kw)
C("C20", "one network (2-10 nodes, all topology classes, jittered order-preserving links, 1-64 shards, with and without flooding) judged at every message, then run for diameter phases of two full shard cycles per link; or a run of the real event simulator; distinct by shape and message count",
  [NS()], ["registrations", "codeword_delivered", "ack_delivered", "initialBroadcast_delivered", "phases", "real_simulator_events"], "trace")
C("C21", "one pull network (2-14 nodes) judged at every message and run until quiet, or a run of the real event simulator; distinct by shape and message count",
  [NS()], ["registrations", "announce_delivered", "request_delivered", "response_delivered", "initialBroadcast_delivered", "real_simulator_events"], "trace")
C("C22", "one link with a dictated randomizer (hashes exactly on shard boundaries) and arbitrary offers to both ends, each block and acknowledgement compared with the set model; distinct by shards, randomizer and rounds",
  [NS()], ["rounds", "blocks_reconciled", "receiver_only_returned", "common_transactions"], "trace")
C("C23", "one configuration run three times (plain, plain, with metric resets), traces compared and every counter checked after every message; repeated runs of the real simulator and of the program; distinct by shape",
  [NS(mainpkg="newsim")], ["metric_comparisons", "metric_resets", "runs_compared", "program_runs"], "trace")
C("C43", "one network of coded links (2-7 nodes, jittered order-preserving links, all overheads, bursts of arrivals), every codeword and acknowledgement judged against the window; distinct by shape, overhead and message count",
  [NS()], ["blocks", "burst_codewords", "codewords_with_open_window", "acknowledgements", "late_codewords"], "trace")

def SIM(**kw): return J("simulator", "main", ["simulator/net.go", "simulator/tests.go"], **kw)

C("C24", "one network (2-8 nodes, all topology classes, jittered order-preserving links, random thresholds, overheads, smoothing, synchronization) judged at every message, or a run of the real event simulator; distinct by shape and message count",
  [SIM()], ["registrations", "offers", "offers_delayed", "codeword_delivered", "ack_delivered", "quantiles_compared", "networks_quiet", "real_simulator_events"], "trace")
C("C25", "one network judged at every message, or one real server whose peers are scripted (withheld, batched and early acknowledgements, arbitrary incoming blocks) compared with the link model after every message; distinct by configuration and message count",
  [SIM()], ["blocks_started", "blocks_received", "blocks_received_with_loss", "window_full", "codewords_sent", "ack_delivered", "blocks_covered"], "trace")
C("C26", "one configuration run three times, traces and metrics compared, and with two other seeds; repeated runs of the real simulator and of the program; distinct by shape",
  [SIM(mainpkg="simulator")], ["runs_compared", "seeds_compared", "program_runs", "special_seeds"], "trace")

def NODE(**kw): return J("node", "main", ["node/common.go", "node/tests.go", "node/stats.go", "node/prog.go"], **kw)
VT = "Node goroutines run on virtual time (testing/synctest), so timing expectations are exact; the program runs use real time and only ask for eventual delivery."

C("C27", "one node among scripted peers or one line of real nodes, over wires that split and delay the byte stream arbitrarily, the key split at every byte; or a chain of real node programs on loopback between two scripted clients; distinct by shape and counts",
  [NODE(mainpkg="node", modes=["plain", "race"])], ["handshakes", "key_splits", "codewords_heard", "transactions_relayed", "transactions_across_nodes", "program_runs", "late_transactions", "passed_on_reread"], "trace+race", VT)
C("C28", "the distribution loop with tapped peers joining over time; one scripted peer compared with a reference receiver, including avalanches of thousands of transactions; several peers releasing batches at once; distinct by shape and counts",
  [NODE(modes=["plain", "race"])], ["distributed", "late", "decoded", "windows_covered", "storms", "joins", "passed_on_reread"], "trace+race", VT)
C("C29", "one link fed codewords at chosen instants (hopeless, late and timely ones, with loss reports, with the node's output stalled), loss values in outgoing codewords summed and compared; distinct by timeouts and counts",
  [NODE(modes=["plain", "race"])], ["losses_counted", "losses_reported_by_peer", "received_codewords", "stalls", "concurrent_links"], "trace+race", VT)
C("C30", "one link run for 20-60 simulated seconds, every codeword attributed to its sending tick and the controller replayed over the observed history, with loss reports and stalls of the connection; distinct by parameters",
  [NODE(mainpkg="node")], ["ticks", "codewords_sent", "codewords_dropped", "queue_filled", "floor_reached", "loss_reports", "program_rates", "prompt_first_codewords"], "trace", VT)
C("C35", "one controller with scripted peers of which transactions and codewords of chosen ages arrive at chosen instants, every report it logs compared with the history; distinct by warm-up, peers and counts",
  [NODE(mainpkg="node")], ["total_reports", "latency_reports", "link_reports", "transactions_measured", "program_stats"], "trace", VT)

MICRO = "Each call is also made from several goroutines at once and compared with the same runs done one by one."
C("C31", "one call configuration (block size, overlap, runs, codewords of the first sender), called concurrently and compared with sequential reference runs; distinct by configuration and result",
  [J("microbenchmarks", "microbenchmarks", ["micro/tests.go"], modes=["plain", "race"])], ["one_sender_runs", "two_sender_runs", "too_few_successful", "transactions"], "ref+race", MICRO)

def TB(**kw): return J("testbed", "main", ["testbed/cloud.go", "testbed/tests.go", "testbed/prog.go"], mainpkg="testbed", exit_is_violation=True, **kw)
CL = "The providers and the image list are stand-ins that keep an inventory, answer slowly, in pages and in error, and record every request; the code under test runs in the process or as the real program behind an HTTPS proxy that reaches only the stand-ins."
C("C32", "one operation (stop, restart, start; each provider; function or real program with its flags and its confirmation question) on one random inventory, the changing requests received compared with those due; distinct by operation and servers",
  [TB(modes=["plain", "race"])], ["stops", "restarts", "starts", "aws_stops", "aws_starts", "servers_stopped", "servers_restarted", "confirmed", "declined", "refused"], "trace+race", CL)
C("C33", "one server list written and read back, or one listing of a random inventory written, read back and compared with the inventory; distinct by size and shape",
  [TB(modes=["plain", "race"])], ["files", "servers_written", "listings", "servers_listed", "program_listings"], "trace+race", CL)
C("C34", "one burst of concurrent image lookups with 0-4 failing fetches of three kinds, or one fan-out with failing calls; distinct by shape",
  [TB(modes=["plain", "race"])], ["lookups", "failed_fetches", "failed_lookups", "fanouts", "calls"], "trace+race", CL)
C("C36", "one loopback testbed of 1-7 SSH machines taken through installing, running (once or more), measuring and downloading with the real program, with machines that refuse, the commands executed against stand-ins; distinct by topology size, arguments and failures",
  [J("testbed", "main", ["testbed/cloud.go", "testbed/tests.go", "testbed/prog.go", "testbed/exp.go"], mainpkg="testbed", modes=["plain", "race"])], ["installs", "runs", "nodes_started", "peers_wired", "delays", "logs", "unreachable", "different_ports", "keys"], "trace+race", "Commands sent to the machines are really executed, by a shell that finds only stand-ins, as an unprivileged user in a scratch directory.")

C("C37", "one run of the benchmark program (number of differences, set size, number of tests) whose averages are compared with a sample of differences reconciled by the harness (8 standard deviations); distinct by parameters and result",
  [J("riblt", "riblt_test", ["riblt/c37.go"], mainpkg="benchmark")], ["benchmarks", "tests_averaged", "set_sizes", "refused"])
C("C38", "one run of a simulation program on a random topology file and random parameters, every printed figure compared with the same network built and run by the harness; or one judged network whose latency percentiles are compared with the registrations seen; distinct by parameters and figures",
  [J("newsim", "main", ["newsim/net.go", "newsim/flow.go", "newsim/tests.go", "newsim/stats.go", "lib/progstats.go"], mainpkg="newsim"),
   J("simulator", "main", ["simulator/net.go", "simulator/tests.go", "simulator/stats.go", "lib/progstats.go"], mainpkg="simulator")],
  ["programs_compared", "figures_compared", "latency_quantiles", "reports_compared", "overlap_files", "bad_topologies"])
C("C39", "one microbenchmark program run, the rows it prints compared with the simulation run by the harness (of the slow two-sender program the first dozen rows); distinct by row",
  [J("microbenchmarks", "microbenchmarks", ["micro/tests.go", "micro/progs.go"], mainpkg="microbenchmarks/" + p, subst={"PROG": '"%s"' % p}, shards=1) for p in ("calc", "overlap", "twosenders", "lossy")],
  ["programs", "rows_compared"])

SCR = J("des", "des_test", ["scripts/tests.go"], mainpkg="node")
C("C40", "one topology generated by a script (size, degree, kind, latency table), judged for shape and delays; distinct by output",
  [SCR], ["topologies", "testbed_topologies", "delays_from_table", "delays_by_default"])
C("C41", "the analysis scripts run on one set of node logs, made up in the nodes' format or written by real nodes on loopback, every figure compared; distinct by logs",
  [SCR], ["analyses", "figures_compared", "trace_lines", "edges_compared", "real_logs"])

EXPS = ("simple", "decoding", "detect-loss", "detect-loss-overlap", "soliton-sample", "windowed-lt", "overlap/analysis-exp", "controller", "new-controller", "overlap/streams")
C("C42", "one run of an experiment program with random parameters, its figures compared with an ideal code simulated by the harness (7 standard deviations), its rate reports balanced against codewords and losses; distinct by program, parameters and figures",
  [J("experiments", "experiments_test", ["exp/tests.go"], mainpkg="experiments/" + p, subst={"PROG": '"%s"' % p.split("/")[-1]}, shards=2) for p in EXPS],
  ["programs_run", "figures_compared", "reports_balanced", "window_moves"])

C("C44", "one run of the node program with drawn parameters, among scripted peers of which some listen, some late, and some connect; or a run with an address it cannot listen at; distinct by parameters and links",
  [J("node", "main", ["node/common.go", "node/tests.go", "node/stats.go", "node/prog.go", "node/conf.go"], mainpkg="node")], ["configurations", "links_in", "links_out", "peers_late", "peers_absent", "windows_compared", "degrees_compared", "memories", "timeouts", "rates", "unusable_addresses"], "trace")
C("C45", "one simulated network, with or without links, stepped delivery by delivery; arrival times of each node tested against the exponential law, bursts counted, runs with the same parameters on different networks compared; distinct by size, burst and rate",
  [J("newsim", "main", ["newsim/load.go", "lib/load.go"]), J("simulator", "main", ["simulator/load.go", "lib/load.go"])], ["intervals", "distributions", "arrivals_compared", "runs_kind0", "runs_kind1", "runs_kind2", "runs_kind3", "lt_runs_linkstrue", "lt_runs_linksfalse"], "trace")
