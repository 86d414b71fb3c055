"""What each property's check runs: harness, sanitizer flavor, groups."""

PROPS = {
    "C01": dict(
        runs=[dict(harness="view")],
        rule="random chains of view operations on guarded strided arrays; a decision is one element of one "
             "intermediate compared with the index model, or one guard byte; distinct = (operation, rank, "
             "element size, layout class)"),
    "C02": dict(
        runs=[dict(harness="half", tiers=("quick",)),
              dict(harness="half", flavor="plain", tiers=("thorough",))],
        rule="operand bit patterns (all for unary functions and conversions, rows or samples for binary ones) "
             "against an exact oracle; distinct = (function, operand classes, rounding situation)"),
    "C03": dict(
        runs=[dict(harness="encoding")],
        rule="edge-dense values of every input type, ring and precision, in random strided layouts; distinct = "
             "(type, ring, precision class, layout class, value class)"),
    "C04": dict(
        runs=[dict(harness="kernels")],
        rule="random kernel calls on guarded strided arrays under perturbed splitting; a decision is one result "
             "array compared with the residue model; distinct = (kernel, ring, layout class, split)"),
    "C05": dict(
        runs=[dict(harness="serde")],
        rule="round trips and mutated serialized forms; a decision is one value read back and compared, or one "
             "malformed form refused; distinct = (type family, shape class, chunking, mutation)"),
    "C08": dict(
        runs=[dict(harness="ops", scale=0.75, tiers=("quick",)),
              dict(harness="ops", tiers=("thorough",))],
        rule="random straight-line programs over the secure-operation API, with a plaintext "
             "model over Z_2^k of every intermediate; a decision is one revealed intermediate "
             "value compared element-wise at every party; distinct = (protocol, ring, operation "
             "variant, rank)"),
    "C06": dict(
        runs=[dict(harness="cost"), dict(harness="utils", group="cexpr")],
        rule="kernel calls on random shapes with their declared rounds and bits against the communicator's counters, "
             "and random cost expressions evaluated and read back from their printed form; distinct = (protocol, "
             "kernel, ring) and expression sizes"),
    "C26": dict(
        runs=[dict(harness="utils", group="bits"), dict(harness="utils", group="circuit"),
              dict(harness="utils", group="pack"), dict(harness="utils", group="open")],
        rule="edge-dense words of every type and width against bit-by-bit restatements; distinct = (function, word "
             "type, width, stride)"),
    "C27": dict(
        runs=[dict(harness="utils", group="lowmc"), dict(harness="utils", group="waksman"),
              dict(harness="hlo", group="prf-*")],
        rule="random keys, seeds, shapes and layouts against an independent cipher model; all permutations of up to "
             "7 packets (8 thorough) and random ones simulated through the published topology; distinct = "
             "(ring, data complexity, rank) and network size"),
    "C18": dict(
        runs=[dict(harness="hal", group="fxp-*", scale=3)],
        rule="operands log-uniform over each function's domain and at its ends; a decision is one element compared with "
             "the double-precision reference; distinct = (protocol, function, ring, precision, visibilities)"),
    "C19": dict(
        runs=[dict(harness="hal", group="int-*"), dict(harness="hlo", group="pw-*")],
        rule="random calls with edge-dense ring operands; a decision is one revealed element compared with the model; "
             "distinct = (protocol, function, ring, visibilities and share forms, rank)"),
    "C20": dict(
        runs=[dict(harness="hlo", group="sort-*"), dict(harness="hlo", group="uniform-*")],
        rule="random operands with ties, visibilities, axes and sort configurations; a decision is one element of a "
             "revealed result judged against the stable order or multiset; distinct = (protocol, function, ring, "
             "visibilities, rank)"),
    "C21": dict(
        runs=[dict(harness="hlo", group="move-*")],
        rule="random calls on random shapes; a decision is one revealed element compared with the index model; "
             "distinct = (protocol, function, ring, visibilities, rank)"),
    "C22": dict(
        runs=[dict(harness="hlo", group="dot-*")],
        rule="random calls on random shapes; a decision is one revealed element compared with the sum of products; "
             "distinct = (protocol, function, ring, visibilities)"),
    "C31": dict(
        runs=[dict(harness="hlo", group="agg-*")],
        rule="random tables with repeated keys; a decision is one key, sum or average of one group; distinct = "
             "(protocol, function, ring, visibilities)"),
    "C07": dict(
        runs=[dict(harness="io", group="share-*"), dict(harness="io", group="uniform-*")],
        rule="random inputs; a decision is one reconstructed or revealed element, or one stream of share words judged "
             "for uniformity; distinct = (protocol, ring, input type, visibility, owner, rank)"),
    "C24": dict(
        runs=[dict(harness="io", group="colo-*")],
        rule="random histories of setting and synchronising; a decision is one element of one variable at one party or "
             "one message searched; distinct = (protocol, ring, colocation, rounds, variables)"),
    "C09": dict(
        runs=[dict(harness="forms", group="forms-*")],
        rule="random programs; a decision is one value examined in its raw shares at all parties; distinct = (protocol, "
             "ring, operation, share form)"),
    "C13": dict(
        runs=[dict(harness="sched", group="sched-*"), dict(harness="sched", group="large-*")],
        rule="random programs, each under several random timings; a decision is one message matched with its receiver or "
             "one schedule's results compared; distinct = (protocol, ring, operation)"),
    "C14": dict(
        runs=[dict(harness="sched", group="prg-*")],
        rule="random programs; a decision is one draw compared with the others of its stream, or one stream compared "
             "between its holders; distinct = (protocol, ring, operation, forked)"),
    "C25": dict(
        runs=[dict(harness="sched", group="fork-*"), dict(harness="sched", group="registry")],
        rule="random trees of forks running random programs, random registry histories; a decision is one program's results "
             "or one object compared with the model; distinct = (protocol, ring, forks)"),
    "C10": dict(
        runs=[dict(harness="priv", group="trunc-*", flavor="plain")],
        rule="edge-dense values under random shift, sign hint, share form and truncation mode; a decision is one element "
             "compared with the floor; distinct = (protocol, ring, mode, sign, bits, range)"),
    "C11": dict(
        runs=[dict(harness="priv", group="pattern-*", flavor="plain"), dict(harness="hal", group="pat-*", flavor="plain"), dict(harness="hlo", group="pat-*", flavor="plain")],
        rule="the same program or function on several sets of secrets; a decision is one run's traffic compared with the "
             "first's; distinct = (protocol, function, ring, visibilities)"),
    "C17": dict(
        runs=[dict(harness="priv", group="mask-*", flavor="plain")],
        rule="the same operation on two constant secrets and on random ones; a decision is one statistic of one stream or "
             "pair of streams; distinct = (protocol, ring, operation, owner)"),
    "C28": dict(
        ub=True,
        runs=[dict(harness=h, scale=s) for h, s in
              (("view", 1), ("encoding", 0.2), ("kernels", 0.25), ("serde", 0.2), ("cost", 0.2), ("utils", 0.3), ("ops", 0.12),
               ("hal", 0.12), ("hlo", 0.12), ("io", 0.15), ("forms", 0.15), ("sched", 0.1), ("half", 0.2), ("beaver", 0.1), ("tamper", 0.1))],
        keys=r"^(ub|crash|hang):",
        rule="a cross section of all workloads under AddressSanitizer and UBSan; a decision is one workload case without a "
             "report; distinct = the situations of those workloads"),
    "C23": dict(
        runs=[dict(harness=h, scale=sc, flavor="tsan", **({"group": g} if g else {})) for h, g, sc in
              (("sched", "fork-*", 0.03), ("sched", "sched-*", 0.02), ("sched", "prg-*", 0.01), ("sched", "registry", 0.02),
               ("ops", "", 0.01), ("kernels", "", 0.05), ("trace", "", 0.03), ("io", "colo-*", 0.1), ("beaver", "", 0.02),
               ("hal", "int-*", 0.01), ("hlo", "sort-*", 0.01))],
        keys=r"^(?!hang:|ub:)",
        rule="a cross section of the workloads under ThreadSanitizer with every parallel region split over threads; a decision "
             "is one case without a report; distinct = the situations of those workloads"),
    "C29": dict(
        runs=[dict(harness="trace")],
        rule="random trees of contexts, forks and actions under random trace flags; a decision is one record or one log line "
             "compared with the model; distinct = (protocol, flags, depth, module)"),
    "C15": dict(
        runs=[dict(harness="beaver", group="bv-*")],
        rule="random histories of requests to each dealer, with replays, spawns and faults; a decision is one request's "
             "relation checked; distinct = (dealer, parties, kind, ring, replay state, size class)"),
    "C16": dict(
        runs=[dict(harness="tamper", group="tm-*")],
        rule="random programs and deals, each run honestly and then with changed messages; a decision is one tampered run; "
             "distinct = (dealer, parties, ring, message kind, alteration, outcome)"),
}
