SIM = "Generated-input search, no proof: absence of a violation holds for the generated cases only. Trusts the harness's reference model and reference terminal, and the interposed device calls."
TECH = {
 "C01": ("stateful property-based testing: random Screen histories, real output executed by a reference terminal and compared with a layout model after every refresh", SIM),
 "C02": ("model-based property testing: random text and positions against a layout model, all cells and the cursor compared after every call", SIM),
 "C03": ("stateful property-based testing: random drawing and window-size changes against a layout model and a reference terminal showing junk after each change", SIM),
 "C07": ("fault-injecting property-based testing: random write faults during refreshes, display compared with the model after recovery", SIM),
 "C04": ("stateful property-based testing: random attribute and text histories over terminal types, real output executed by a reference terminal and compared character by character with an attribute model", SIM),
 "C05": ("model-based property testing: random movements (counts up to 2^64) and clears, display and cursor of a reference terminal compared with a plain prediction after every call", SIM),
 "C06": ("fault-injecting property-based testing: random write histories and device write faults, delivered bytes matched against the concatenation of the calls' bytes", SIM),
 "C10": ("property-based testing: generated terminal descriptions with overlapping key sequences and generated input, compared event by event with a longest-match reference decoder", SIM),
 "C11": ("property-based testing: generated and corrupted mouse reports, compared event by event with a reference decoder; no input may make reading panic", SIM),
 "C12": ("stateful property-based testing: random input cut into random arrivals and mixed reading operations, all input accounted for in order", SIM),
 "C13": ("stateful property-based testing on a virtual clock: random arrival times, interruptions and timeouts against a prediction of what each wait returns and when", SIM),
 "C20": ("model-based property testing: random operation histories on SequenceMap compared with a sorted reference map", SIM),
 "C21": ("model-based property testing: random operation histories on SignalSet, plus all pairs of sets exhaustively, compared with a set model", SIM),
 "C22": ("property-based testing plus exhaustive small sizes: Cursor and Size operations compared with plain predictions", SIM),
 "C23": ("property-based testing plus exhaustive ranges: control character and prefix functions compared with plain predictions and round trips", SIM),
 "C14": ("stateful property-based testing on a virtual clock: signals injected at random times, during waits and reads and at the entry of device calls, reports compared with what is owed", SIM),
 "C15": ("stateful property-based testing: random nested prepare and restore histories from random initial settings, state snapshots compared", SIM),
 "C18": ("fault-injecting property-based testing: terminal descriptions with random capabilities missing, broken or unusual, every operation's result and output compared with what the description supports", SIM),
 "C19": ("differential property-based testing: one random program run through every interface form, outputs and state compared", SIM),
 "C17": ("fault-injecting stateful property-based testing: each random history and way of ending (drop, panics with guards, failing open) runs in a process of its own, settings, handlers, descriptors, display and exit status compared with those before", SIM),
 "C16": ("property-based testing against the kernel's line discipline: random configurations and initial settings of a real pseudo-terminal, typed characters and sent modes compared with what the configuration says", SIM),
 "C09": ("stateful and concurrent property-based testing: lock histories against a model of two poisonable locks, and random multi-threaded programs, under random yields or with one thread paused at generated instructions, whose output must be each unit whole and in order", SIM), "C08": ("property-based testing of generated programs: random term_write! statements are generated, compiled with the current tree and run with random values, outputs, results and evaluations compared with the documented calls", SIM),
 "C08": ("property-based testing of generated programs: random term_write! statements are generated, compiled with the current tree and run with random values; outputs, results and evaluations compared with the documented calls", SIM),
 "C24": ("property-based testing, metamorphic: histories of several instances interleaved in generated orders and threads, compared step by step with each history played alone; also all at once on real ptys", SIM),
}
