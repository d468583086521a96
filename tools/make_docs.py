"""Write properties.jsonl and MANIFEST.json from one table.

    /opt/venv/bin/python tools/make_docs.py
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.statements import S  # noqa: E402

PY = "/opt/venv/bin/python"

SIM = "pysim/sim/simulator.py"
LOG = "pysim/sim/logger.py"
PP = "pysim/models/pingpong/"
TT = "pysim/models/tag_time/"
RF = "pysim/models/rfid/"
STD, OBJ, HND, CHN = RF + "epcstd.py", RF + "objects.py", RF + "handlers.py", RF + "channel.py"
CONF, RCLI, RPROC = RF + "configurator.py", RF + "cli.py", RF + "processing.py"

KERNEL_TESTS = ("The tests run one echo program and a handful of queue operations")
RFID_TESTS = ("No test runs the RFID model")
TT_TESTS = ("One test compares one Monte-Carlo scenario with fixed parameters (and fails at the pinned commit)")

P = []


def prop(pid, title, statement, over, text, why, mechanism, observe, level_note, state=()):
    assert len(title) <= 80, (pid, len(title))
    files = []
    for _, where in mechanism:
        f = where.split(":")[0]
        if f not in files:
            files.append(f)
    P.append(dict(
        line=dict(
            id=pid, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe, hook_needed=None,
                **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))),
        note=level_note))


# ---------------------------------------------------------------- the kernel

prop("C01", *S["C01"],
     ["programs", "schedules"],
     "every finite program of events, including ties, zero delays, very close and very large delays, and handlers that schedule and call others",
     KERNEL_TESTS + "; ties, zero delays and floating point sums appear only for some programs.",
     [("event queue ordering", SIM + ":EventQueue"), ("main loop", SIM + ":Kernel.build_runner"), ("scheduling", SIM + ":Kernel.schedule")],
     ["order, time and arguments of handler calls"],
     "Random event programs against a sorted-list reference; up to some 40 events per program and bursts of several hundred.")

prop("C02", *S["C02"],
     ["histories", "schedules"],
     "every program that mixes scheduling and cancelling, from the initializer and from handlers, including events of the same time",
     KERNEL_TESTS + "; cancellation is exercised on two or three events, not on histories with ties and repeated cancellation.",
     [("cancellation", SIM + ":Kernel.cancel"), ("lazy removal", SIM + ":EventQueue.cancel"), ("skipping cancelled events", SIM + ":EventQueue.pop")],
     ["order of handler calls", "list of future events", "counts of the statistics"],
     "Random histories of scheduling and cancelling against a reference.")

prop("C03", *S["C03"],
     ["inputs", "histories"],
     "every mix of valid and invalid requests made from the initializer or from a running handler",
     KERNEL_TESTS + " and make only valid requests.",
     [("validation", SIM + ":Kernel.schedule")],
     ["exception raised by the request", "events that run"],
     "Random mixes of requests of all kinds of defects.")

prop("C04", *S["C04"],
     ["configurations", "programs"],
     "every program under every combination of limits and stops",
     KERNEL_TESTS + " without limits.",
     [("limits", SIM + ":Kernel.stop_conditions"), ("stop request", SIM + ":Kernel.stop"), ("result", SIM + ":ExecutionStats")],
     ["exit reason and statistics of the result", "handled events"],
     "Random programs and streams with several limits in competition; real time by short runs only.")

prop("C05", *S["C05"],
     ["programs", "configurations"],
     "every kind of context, initializer arguments and finalizer, and every pair of runs",
     KERNEL_TESTS + ", one run at a time.",
     [("run life cycle", SIM + ":Kernel.build_runner"), ("proxy and context", SIM + ":Simulator"), ("kernel construction", SIM + ":build_simulation")],
     ["what initializer, handlers and finalizer see", "value and context of the result"],
     "Random programs in one or two runs compared with the reference.")

prop("C06", *S["C06"],
     ["histories"],
     "every history of operations on the queue",
     "The queue tests push and pop a few fixed events; cancellation of past, repeated or unknown identifiers appears in none.",
     [("event queue", SIM + ":EventQueue")],
     ["every public operation of the queue after each step"],
     "Model-based histories of up to 60 operations against a dictionary model.")

prop("C07", *S["C07"],
     ["configurations", "histories"],
     "every configuration of levels, outputs, colours, names and run identifiers, and every sequence of records and set-ups",
     "No test configures the logger.",
     [("logger set-up and formatting", LOG + ":ModelLogger"), ("configuration", LOG + ":ModelLoggerConfig")],
     ["lines on the console and in files", "names of files"],
     "Random configurations and records; each output is compared with the lines of a reference.")

# ---------------------------------------------------------------- ping-pong

prop("C08", *S["C08"],
     ["configurations", "schedules"],
     "every setting of delay, interval, loss probability, number of pings and limits, and every pattern of losses",
     "The tests compare a few statistics of runs with fixed settings within wide tolerances.",
     [("clients and channel", PP + "model.py"), ("handlers", PP + "handlers.py"), ("statistics", PP + "handlers.py:finalize")],
     ["results of runs"],
     "Exact for loss 0 and 1 and for the answered pings determined by the result; loss probability at 7 sigma over 4000 pings.")

prop("C09", *S["C09"],
     ["inputs", "configurations"],
     "every command line with one, none or several varied options in any order and with repetitions",
     "No test runs a command line of a model.",
     [("ping-pong series", PP + "cli.py:cli_run"), ("ping-pong tables", PP + "processing.py"), ("tag reading series", TT + "cli.py:cli_run"),
      ("tag reading tables", TT + "processing.py"), ("RFID series", RCLI + ":cli_run"), ("RFID tables", RPROC)],
     ["printed tables and exit codes", "files of plots"],
     "Generated command lines run in-process; values exact where the run has no randomness.")

# ---------------------------------------------------------------- tag reading time

prop("C10", *S["C10"],
     ["configurations", "schedules"],
     "every setting of probabilities, durations and number of chunks, and every pattern of losses",
     TT_TESTS + ".",
     [("states and transitions", TT + "model.py"), ("handlers", TT + "handlers.py")],
     ["reading times of runs"],
     "Exact without losses; statistical (7-8 sigma) with losses, steps read from the digits of the time.")

prop("C11", *S["C11"],
     ["inputs"],
     "all probabilities in (0, 1], durations and numbers of chunks",
     TT_TESTS + "; the analytical formulas are not compared with anything.",
     [("analytical model", TT + "analitical_model.py")],
     ["returned mean times"],
     "Compared with exact rational arithmetic for 2000 random phases per run, to 1e-6.")

prop("C12", *S["C12"],
     ["inputs", "schedules"],
     "all probabilities and durations, any number of chunks, all random choices",
     TT_TESTS + ".",
     [("matrices and walk", TT + "mc.py")],
     ["matrices", "returned mean times"],
     "Matrices exactly; averages at 7-9 sigma.")

prop("C13", *S["C13"],
     ["inputs"],
     "all numbers of words, chunk sizes, link parameters of the standard and bit error rates",
     TT_TESTS + " with the parameters given, not derived.",
     [("derived parameters", TT + "calculate_params.py")],
     ["derived parameters"],
     "Against an independent reference of the air interface, to 1e-9.")

# ---------------------------------------------------------------- air interface

prop("C14", *S["C14"],
     ["inputs"],
     "every command with every combination of fields, every reply with arbitrary contents",
     RFID_TESTS + " or encodes a command.",
     [("command encoding", STD + ":Command"), ("field encoding", STD + ":encode_ebv"), ("replies", STD + ":Reply"), ("bytes", STD + ":to_bytes")],
     ["bit strings, lengths and contents"],
     "Against a bit-level reference written from the standard, 10000 cases per run.")

prop("C15", *S["C15"],
     ["inputs", "configurations"],
     "all link parameters of the standard, all commands and replies, all subsets of given parameters",
     RFID_TESTS + " or computes a duration.",
     [("frames", STD + ":ReaderFrame"), ("tag frames", STD + ":TagFrame"), ("helpers", STD + ":command_duration"), ("table", STD + ":get_elementary_timings")],
     ["durations"],
     "Against a reference of PIE and tag frames, relative precision 1e-9.")

prop("C16", *S["C16"],
     ["inputs"],
     "all link parameters of the standard and all kinds of slots and access operations",
     RFID_TESTS + " or computes a timing.",
     [("link timings", STD + ":link_t"), ("tolerance table", STD + ":get_frt"), ("slots", STD + ":slot_duration")],
     ["timings"],
     "Against formulas of the standard; within 1.1% of the borders of the tolerance table only its exact points are checked.")

# ---------------------------------------------------------------- tags and readers

prop("C17", *S["C17"],
     ["histories", "programs"],
     "all sequences of commands with arbitrary fields and changes of power",
     RFID_TESTS + " or sends a command to a tag.",
     [("tag states", OBJ + ":Tag"), ("power", OBJ + ":Tag.set_power")],
     ["state and reply after every command"],
     "Random and guided command sequences against a reference state machine; uniformity at 7 sigma.")

prop("C18", *S["C18"],
     ["histories", "configurations"],
     "all histories of inventories and pauses of power, all persistence times",
     RFID_TESTS + ".",
     [("persistence", STD + ":Session"), ("power changes", OBJ + ":Tag.set_power"), ("sessions of a tag", OBJ + ":Tag")],
     ["answers of a tag after power returns"],
     "Random histories of power and inventories against a reference; pauses equal to the persistence are left out.")

prop("C19", *S["C19"],
     ["inputs"],
     "all memory contents, banks, start words and lengths",
     RFID_TESTS + " or reads memory.",
     [("reading", OBJ + ":Tag"), ("reply", STD + ":ReadReply")],
     ["reply to Read"],
     "Random memories and requests against a slice of bytes.")

prop("C20", *S["C20"],
     ["histories", "configurations"],
     "all sequences of replies, timeouts and power switches, all settings of a reader",
     RFID_TESTS + ".",
     [("reader states", OBJ + ":_ReaderState"), ("rounds and slots", OBJ + ":_ReaderRound"), ("reader", OBJ + ":Reader"), ("listeners", OBJ + ":Listeners")],
     ["commands, state, timeouts and announcements of the reader"],
     "Random event sequences against a reference reader.")

prop("C21", *S["C21"],
     ["histories", "configurations"],
     "all courses of collisions, single and empty slots, all steps and initial Q",
     RFID_TESTS + ".",
     [("adjusting state", OBJ + ":_ReaderAdjust"), ("floating Q", HND), ("tags", OBJ + ":Tag")],
     ["Q of every command and of every tag"],
     "Whole runs with real tags and scripted answers against a reference of the algorithm.")

prop("C22", *S["C22"],
     ["inputs"],
     "all positions, directions, velocities along the wall, materials and wavelengths",
     RFID_TESTS + " or computes a gain.",
     [("two-ray path loss", CHN + ":two_ray_pathloss"), ("reflection", CHN + ":reflection"), ("patterns and BER", CHN)],
     ["path gains, coefficients and error rates"],
     "Against an independent computation of the model.")

prop("C23", *S["C23"],
     ["configurations", "histories"],
     "all geometries, powers, gains, losses and air parameters, all moments of a run",
     RFID_TESTS + ".",
     [("link budget", OBJ + ":Medium"), ("power records", HND), ("SNR and BER", CHN)],
     ["computed powers and ratios", "power records of tags"],
     "Against an independent link budget, to 1e-6 dB where rays do not cancel.")

prop("C24", *S["C24"],
     ["configurations", "histories"],
     "all settings of population, link, rounds and power, and all courses of a run",
     RFID_TESTS + ".",
     [("statistics", OBJ + ":Statistics"), ("recording", HND), ("result", CONF)],
     ["statistics of runs"],
     "Statistics recomputed from a trace of every command and reply of random runs.")

prop("C25", *S["C25"],
     ["schedules", "configurations"],
     "all link parameters, populations and power cycles, and all courses of answers",
     RFID_TESTS + ".",
     [("transactions", HND), ("transaction timing", OBJ + ":Transaction"), ("power cycle", HND), ("power samples", HND)],
     ["times of commands, deliveries, samples and switches"],
     "Every time of random runs recomputed to 1e-9 s.")

prop("C26", *S["C26"],
     ["inputs", "configurations"],
     "all prefixes, lengths, numbers of tags and settings",
     RFID_TESTS + " or generates a tag.",
     [("generator", OBJ + ":Generator"), ("numbering", OBJ + ":inc_hex_string")],
     ["identifiers of tags and of received replies"],
     "Up to 4099 tags per generator; identifiers of whole runs.")

prop("C27", *S["C27"],
     ["configurations"],
     "all subsets of settings and arguments with arbitrary values",
     RFID_TESTS + " or configures it.",
     [("configuration", CONF)],
     ["parameters of the model, its tags and its first command"],
     "Random subsets of settings; every parameter is looked up in the built model.")

prop("C28", *S["C28"],
     ["configurations", "inputs"],
     "all sets of well-formed and malformed packages next to the shipped models",
     "No test starts the command line.",
     [("discovery and dispatch", "pysim/main.py")],
     ["output and exit code of the command line"],
     "Generated packages of eight kinds.")

prop("C29", *S["C29"],
     ["schedules", "configurations"],
     "all numbers and kinds of simultaneous replies, all signal-to-noise ratios, all random choices",
     RFID_TESTS + ".",
     [("delivery", OBJ + ":Transaction"), ("reception", OBJ + ":Reader.receive"), ("handling", HND)],
     ["received replies", "next commands"],
     "Counts over 1500 repetitions at 6.5 sigma; the collision rule exactly.")

prop("C30", *S["C30"],
     ["histories", "configurations", "schedules"],
     "all settings, all runs made before, all observers and all moments of a cut",
     "No test repeats a run.",
     [("kernel", SIM + ":Kernel.build_runner"), ("models", OBJ), ("model state", CONF)],
     ["everything said on the air and all statistics"],
     "Repetition in the same and in another process, exact comparison.")

prop("C31", *S["C31"],
     ["configurations", "histories"],
     "all numbers, positions and gains of antennas, switching times and power cycles",
     RFID_TESTS + ".",
     [("antenna switching", HND), ("antennas of a reader", OBJ + ":Reader.select_next_antenna")],
     ["antenna and powers of every record"],
     "Random readers of one to four antennas.")

prop("C32", *S["C32"],
     ["inputs", "configurations"],
     "all link parameters of the standard, words, chunks, scenarios and bit error rates",
     TT_TESTS + "; nothing compares the models with each other.",
     [("durations and probabilities", TT + "calculate_params.py:build_messages_df"), ("analysis", TT + "analitical_model.py:run_analitica"),
      ("Monte-Carlo", TT + "mc.py:run_multiple_models"), ("simulation", TT + "cli.py:run_multiple_simulation")],
     ["mean times of the three models"],
     "The experiment of experiments/analitical_graphs.ipynb with random parameters; 9 sigma with errors, 300 readings a point.")

prop("C33", *S["C33"],
     ["inputs"],
     "all results of runs and series, names, extensions and numbers",
     "No test touches the processing of results or figures.",
     [("tag reading results", TT + "processing.py:result_processing"), ("RFID plot", RPROC + ":plot_results"),
      ("figures", "pysim/experiments/utility/graphs_style.py:savefig"), ("axes", "pysim/experiments/utility/graphs_style.py:set_axes_formatter")],
     ["standard output", "files written", "lines of the saved figures"],
     "Generated results through the public processing functions; the pixels of figures are not compared, the values of their lines are.")

prop("C34", *S["C34"],
     ["inputs", "histories"],
     "all models, settings, combinations of limits and log settings, and all subsets of the options of the command lines",
     "No test runs a model with a limit or a log, or by its command line.",
     [("entry points", PP + "cli.py:run_model"), ("entry points", TT + "cli.py:run_model"), ("entry points", CONF + ":run_model"),
      ("command lines", RCLI + ":cli_run"), ("simulation builder", SIM + ":build_simulation")],
     ["results and statistics of the runs", "log files", "standard output"],
     "Random runs of all three models, differential against the kernel; defaults that take minutes are not run.")

prop("C35", *S["C35"],
     ["histories", "configurations"],
     "all sets of generators, intervals, paths, speeds, limits and moments",
     "No test generates tags.",
     [("traffic", HND + ":generate_tag"), ("traffic", HND + ":remove_tag"), ("movement", HND + ":_update_power"),
      ("generators", OBJ + ":Generator")],
     ["tags, positions and counters of the model at any moment", "end of the run"],
     "Runs of up to half a second of simulated time with one to three generators.")

prop("C36", *S["C36"],
     ["histories", "inputs"],
     "all models and settings, all commands, replies and tags",
     "No test reads a log or a text of an object.",
     [("log", HND + ":finish_transaction"), ("log", OBJ + ":Tag"), ("log", PP + "model.py:Client"), ("log", TT + "model.py:State"),
      ("texts", STD + ":Command")],
     ["messages of the log with the simulated times", "texts of objects"],
     "The wording of the messages is that of the pinned commit; numbers and moments are compared with the observed run.")


def main():
    from harness import core
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p["line"], ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        pid = p["line"]["id"]
        prop_ = core.load(pid)
        note = p["note"]
        if prop_.assumptions:
            note += " Assumes: " + " ".join(prop_.assumptions)
        checks.append(dict(
            property=pid,
            quick_cmd=f"{PY} run.py check {pid} --tier quick",
            thorough_cmd=f"{PY} run.py check {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique="property-based testing (Hypothesis): " + TECH[pid],
            level="exploration", level_note=note))
    manifest = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
                    notes="Pure Python: the checks import /repo's working tree directly, nothing is built. "
                          "Every failure is shrunk and written to replays/; 'run.py replay FILE' runs it again.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


TECH = {
    "C01": "generated event programs against a reference simulator",
    "C02": "generated histories against a reference simulator",
    "C03": "generated valid and invalid requests, rejection oracle",
    "C04": "generated programs and limits against a reference simulator",
    "C05": "generated life cycles and pairs of runs against a reference",
    "C06": "stateful model-based testing against a dictionary model",
    "C07": "generated configurations and records against a reference formatter",
    "C08": "generated runs, invariants over the history, statistical oracle",
    "C09": "generated command lines, differential against separate runs",
    "C10": "generated runs, exact and statistical oracle",
    "C11": "generated parameters, differential against exact rational arithmetic",
    "C12": "generated parameters, differential and statistical oracle",
    "C13": "generated parameters, differential against a reference",
    "C14": "generated fields, differential against a bit-level reference",
    "C15": "generated link parameters, differential against a reference",
    "C16": "generated link parameters, differential against the formulas of the standard",
    "C17": "stateful model-based testing against a reference state machine",
    "C18": "generated power histories against a reference",
    "C19": "generated memories and requests against a reference",
    "C20": "stateful model-based testing against a reference reader",
    "C21": "generated runs against a reference of the algorithm",
    "C22": "generated geometry, differential, symmetry and bounds",
    "C23": "generated links and runs, differential against a link budget",
    "C24": "generated runs, statistics recomputed from a trace",
    "C25": "generated runs, times recomputed from a trace",
    "C26": "generated generators, uniqueness invariant",
    "C27": "generated settings, mapping oracle and isolation",
    "C28": "generated packages, expected list and dispatch",
    "C29": "generated transactions, statistical oracle; collision invariant",
    "C30": "metamorphic: repetition, observation, cut, other process",
    "C31": "generated runs against a reference of the order of antennas",
    "C32": "differential property-based testing of three models and an exact expectation",
    "C33": "generated results, round-trip of printed, saved and plotted values",
    "C34": "generated limits, log settings and command lines, differential against the kernel and explicit defaults",
    "C35": "generated traffic, invariants over the history",
    "C36": "generated runs, the log against an independent trace; texts of objects differing in one field",
}

if __name__ == "__main__":
    main()
