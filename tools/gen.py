#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []),
        _t=technique, _n=note, _l=level))

MC = "explicit-state model checking: exhaustive bounded enumeration against an exponent-level reference model, every trace replayed on the real code"
ADV = "exhaustive bounded enumeration of adversarial files with the verdict of an exponent-level model, each replayed on the real verifier"

prop("C01", "A phase 1 contribution updates every parameter exactly",
 "Initialization writes the documented file whose parameters are all powers of the secrets 1, for the requested power. A contribution to any file multiplies the i-th parameter of each section by exactly the right power of its fresh secrets, increments the contribution count, copies the earlier contribution records unchanged, and appends a record whose points, proofs of knowledge (bound to the previous record's hash) and hash are those of the documented format. The input file is left as it was.",
 ["inputs", "histories"], "every power, number of earlier contributions, starting parameters (new or transformed) and secrets",
 "the tests run one history of three contributions at one power with random secrets and look only at the verdict of the verifier, which does not determine the file",
 ["phase1/phase1.go", "phase1/utils.go", "phase1/contribution.go", "common/keypair.go"],
 [("scaling of the sections by running powers, record and public keys", "phase1/phase1.go Contribute"), ("batches of powers", "phase1/utils.go scaleG1, scaleG2")],
 MC, "powers 1-4 (init 1-8), 0-2 and 254-256 earlier contributions, both bases, every word of length 3 over {random,1,-1,out of range} for the draws; trusts gnark-crypto's group operations and encodings")
prop("C02", "Every honest phase 1 ceremony is accepted by the verifier",
 "A file obtained from the initial file, or from a transformed Powers of Tau file, by any number of at least one honest contribution is accepted by the phase 1 verification against that starting point, whatever the secrets and whatever randomness the verifier draws.",
 ["inputs", "histories"], "every power, number of contributions up to the capacity of the format, starting point, secrets, and randomness of the verifier",
 "the tests verify three contributions at one power once; a verifier that wrongly rejects depends on lengths, counts and drawn values",
 ["phase1/phase1.go", "phase1/utils.go", "phase1/contribution.go"],
 [("pairing checks of the chain and of aggregated sections", "phase1/phase1.go Verify; phase1/utils.go verifyContribution, linearCombinationG1/G2")],
 MC, "powers 1-5, 1-4 and 127..257 contributions, both bases, every word of length 3 of draws")
prop("C03", "Phase 1 verification rejects parameters that aren't the powers",
 "Phase 1 verification succeeds only when the parameters are exactly the consecutive powers of tau in both groups, and of alpha and beta times those powers, for the tau, alpha and beta of the last contribution (starting from the generators), all of them valid points encoded in the documented form. Any file with one or more parameters altered, swapped, missing, duplicated, belonging to other secrets or to another starting point is rejected.",
 ["inputs"], "every file whose parameters differ from those of the ceremony it claims to be",
 "no test gives the verifier a wrong file; the wrong files are a combinatorial space in which the aggregated checks could cancel",
 ["phase1/phase1.go", "phase1/utils.go"],
 [("random linear combinations of each section and pairing of their ratio", "phase1/utils.go linearCombinationG1/G2; phase1/phase1.go Verify"), ("binding of the first points", "phase1/phase1.go Verify")],
 ADV, "powers 1-3, every site, every pair in a section for cancelling errors, every tail and prefix, section-wide and cross-section replacements, invalid encodings")
prop("C04", "Phase 1 verification rejects forged contribution chains",
 "Phase 1 verification succeeds only when there is at least one contribution and each contribution updates the points of the preceding one (the first one those of the starting point) by nonzero secrets whose knowledge it proves, with proofs bound to the preceding record's hash and to their role, and has the right hash. Dropping, duplicating, reordering, replaying or altering contributions, or forging one without knowing its secrets, is detected.",
 ["inputs", "histories"], "every transcript that isn't one of honest contributions leading to the parameters",
 "no test gives the verifier a forged transcript",
 ["phase1/utils.go", "phase1/contribution.go", "common/keypair.go", "phase1/phase1.go"],
 [("proof of knowledge, update and hash checks of each contribution", "phase1/utils.go verifyContribution"), ("hash of a contribution", "phase1/contribution.go computeHash")],
 ADV, "chains of 1-3 contributions; every field by an alphabet, every pair of fields (one contribution), all sequences of contributions up to one more than the chain with every header count")
prop("C05", "A phase 2 contribution updates every parameter exactly",
 "A phase 2 contribution multiplies delta in both groups by its fresh secret and every Z and private-key parameter by the inverse of that secret, increments the contribution count, leaves the other header fields and the earlier records unchanged, and appends a record whose delta, proof of knowledge (bound to the previous record's hash) and hash are those of the documented format. The input file is left as it was.",
 ["inputs", "histories"], "all dimensions of the circuit, numbers of earlier contributions, alignments of the file and secrets",
 "the tests run three contributions on one circuit and look only at the verdict of the verifier",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/contribution.go", "phase2/header.go", "common/keypair.go"],
 [("scaling by the inverse of delta and record", "phase2/phase2.go Contribute; phase2/utils.go scale")],
 MC, "domains 2-8, 0-7 private wires, 0-5 and 63..256 earlier contributions, every alignment of records against buffers, every word of length 3 of draws")
prop("C06", "Every honest phase 2 ceremony is accepted by the verifier",
 "A file obtained from an initialized phase 2 file by any number of at least one honest contribution is accepted by the phase 2 verification against that initial file, whatever the dimensions of the circuit, the secrets and the randomness of the verifier.",
 ["inputs", "histories"], "all dimensions, numbers of contributions, alignments, secrets and randomness of the verifier",
 "the tests verify three contributions on one circuit; wrong rejections depend on the size and alignment of the file",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/contribution.go"],
 [("aggregated comparison with the origin and chain of contributions", "phase2/phase2.go Verify; phase2/utils.go aggregate, verifyContribution")],
 MC, "domains 2-8, 0-8 private wires, 1-6 and 63..257 contributions, every alignment of the records against the 4096-byte buffers, origins with points at infinity")
prop("C07", "Phase 2 verification rejects parameters not derived from the origin",
 "Phase 2 verification succeeds only when the header describes the origin's circuit, delta in both groups is that of the last contribution, and every Z and private-key parameter is the origin's one times the inverse of delta, all of them valid points. Any file with parameters altered, swapped, missing, duplicated, left un-updated or derived from another origin is rejected.",
 ["inputs"], "every file whose header or parameters differ from those of the ceremony it claims to be",
 "no test gives the verifier a wrong file",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/header.go"],
 [("aggregation and ratio check", "phase2/utils.go verifyParameter, aggregate"), ("comparison of headers", "phase2/header.go Equal")],
 ADV, "domains 2-8, 0-5 private wires, 1-2 contributions; every site, pairs, tails, prefixes, header fields, encodings, origins")
prop("C08", "Phase 2 verification rejects forged contribution chains",
 "Phase 2 verification succeeds only when there is at least one contribution and each contribution updates the delta of the preceding one (the first one the origin's) by a nonzero secret whose knowledge it proves, with a proof bound to the preceding record's hash, and has the right hash. Dropping, duplicating, reordering, replaying or altering contributions, or forging one without knowing its secret, is detected.",
 ["inputs", "histories"], "every transcript that isn't one of honest contributions leading to the parameters",
 "no test gives the verifier a forged transcript",
 ["phase2/utils.go", "phase2/contribution.go", "common/keypair.go", "phase2/phase2.go"],
 [("proof of knowledge, update and hash checks of each contribution", "phase2/utils.go verifyContribution")],
 ADV, "chains of 1-3 contributions; every field and pair of fields by an alphabet, all sequences up to one more than the chain with every header count")
prop("C09", "Printed contribution hashes are stable, correct attestations",
 "The hash printed when contributing, in either phase, is the SHA-256 of the record written for the contribution, and every later verification prints the same hashes in the order of the contributions. Later contributions never change an earlier record.",
 ["histories"], "every history of contributions and verifications",
 "the tests never look at the output nor at the records",
 ["phase1/phase1.go", "phase1/contribution.go", "phase2/phase2.go", "phase2/contribution.go"],
 [("hash of a record", "computeHash in phase1/contribution.go and phase2/contribution.go"), ("copy of earlier records", "Contribute in both phases")],
 MC, "histories of 4 contributions after 0-3 earlier ones, in both phases, with the outputs of every step")
prop("C10", "Phase 2 initialization encodes exactly the circuit",
 "Initializing phase 2 for a circuit writes exactly the documented files: the header with the circuit's dimensions and a power-of-two domain covering its constraints, delta = 1, the vanishing-polynomial terms, the private-key terms, the phase 1 parameters in Lagrange basis, and the A, B (both groups) and L evaluations of every wire for the circuit's constraint matrices at the secrets of phase 1. Wires that occur in no constraint, repeated terms, every coefficient and lazily stored constraints are treated as the constraint matrices say.",
 ["inputs", "programs"], "every circuit and every phase 1 file large enough",
 "the tests initialize for one circuit and check nothing about the files but that the ceremony completes",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/lagrange.go", "lagrange/g1.go", "lagrange/g2.go"],
 [("accumulation of the evaluations", "phase2/utils.go processEvaluations, processPVCKK, accumulateG1/G2"), ("vanishing polynomial", "phase2/utils.go processDeltaAndZ"), ("split of L", "phase2/utils.go filterL")],
 MC, "all circuits over small families (1-9 constraints, all sets of coefficients, wires in any position, repeated terms), phase 1 files of equal and larger powers")
prop("C11", "Initialization from a split circuit equals that from the whole one",
 "Initializing phase 2 from the split form of a circuit writes the same three files, byte by byte, as initializing it from the circuit in one file, for every batch size and however the parts were split.",
 ["inputs", "configurations"], "every circuit, every batch size",
 "the tests compare nothing and use one circuit with one batch size",
 ["phase2/parted.go", "phase2/utils.go"],
 [("processing of the constraints of a loaded split circuit", "phase2/parted.go")],
 MC, "a family of plain and lazified circuits with every batch size up to one more than the number of constraints")
prop("C12", "Extracted keys are the canonical Groth16 keys of the circuit",
 "The proving and verifying keys extracted at the end of a ceremony are exactly the Groth16 keys that a trusted setup of the circuit with the combined secrets of all contributors would produce. They have the elements and order the proof system's own key format demands, so that proofs for every satisfying assignment verify and other public inputs don't.",
 ["inputs", "histories", "programs"], "every circuit without commitments and every ceremony",
 "the tests prove and verify once with one circuit, which many wrong keys would survive",
 ["keys/keys.go", "phase2/utils.go"],
 [("assembly of the keys from the final parameters and the evaluations", "keys/keys.go ExtractKeys")],
 "differential explicit-state exploration: every ceremony in a bounded space, keys compared byte by byte with the reference trusted setup run on the same secrets",
 "all ceremonies of 1-2 contributions per phase over a family of circuits; the reference is gnark's own setup with scripted secrets")
prop("C13", "Split keys hold the same keys as the whole ones",
 "The keys extracted in split form consist of the same elements as the keys extracted in one piece from the same files, in the layout which the proof system's own split dump has.",
 ["inputs", "histories", "programs"], "every circuit and every ceremony",
 "the tests only check that loading the split keys and proving works for one circuit",
 ["keys/keys.go"], [("writing of the parts", "keys/keys.go ExtractSplitKeys")],
 "differential explicit-state exploration against the reference split setup on the same secrets",
 "the family of circuits of C12 and its ceremonies")
prop("C14", "Circuits with commitments get working, exact keys",
 "For circuits that commit to some of their wires, the ceremony puts each wire into exactly one of the public, private and committed groups, and the extracted keys, whole or split, contain the commitment information and satisfy the relations which the proof system demands of them.",
 ["inputs", "programs"], "every circuit with a commitment to any set of private and public wires",
 "no test has a commitment",
 ["phase2/utils.go", "phase2/parted.go", "keys/keys.go"],
 [("split of L", "phase2/utils.go filterL"), ("commitment info and key", "keys/keys.go")],
 MC, "all circuits of a family with every subset of committed wires")
prop("C15", "Transforming a Powers of Tau file keeps exactly its parameters",
 "Transforming a Powers of Tau response of any power to any power not above it writes the documented phase 1 file without contributions whose parameters are the leading ones of each of its sections.",
 ["inputs"], "every pair of powers and every content",
 "no test runs the transformation",
 ["phase1/phase1.go", "phase1/utils.go"], [("positions of the sections", "phase1/phase1.go Transform; phase1/utils.go transformG1/G2")],
 MC, "all pairs of powers up to 6, points in general position")
prop("C16", "Conversion to Lagrange basis is exact under every schedule",
 "Converting the powers of a point to the Lagrange basis of a domain gives, for every input vector, every power-of-two size and every number of processors, exactly the inverse discrete Fourier transform of the input, whatever the interleaving of its parallel workers, and terminates.",
 ["inputs", "schedules", "configurations"], "every input vector, size, number of processors and interleaving",
 "the tests convert one size on one machine",
 ["lagrange/g1.go", "lagrange/g2.go"], [("recursive butterflies split among goroutines", "lagrange/g1.go, lagrange/g2.go")],
 "systematic exploration of schedules of the real code under a controlled scheduler, basis vectors, all sizes and processor counts",
 "sizes 1-64 (all basis vectors), processor counts 1-100, all schedules of the goroutines within 1-4 deviations from the default order, for sizes 2-64")
prop("C17", "Parallel work is partitioned exactly and awaited",
 "Splitting n iterations among any number of workers calls the work on disjoint ranges which together are exactly 0..n-1, and returns only after all the work has finished, under every interleaving.",
 ["inputs", "schedules", "configurations"], "every number of iterations and workers and every interleaving",
 "the tests run it with the machine's number of processors and the sizes of one circuit",
 ["common/parallelize.go"], [("ranges and wait group", "common/parallelize.go Parallelize")],
 "systematic exploration of schedules of the real code under a controlled scheduler",
 "n 0-40 by workers 1-17 for the partition; all interleavings at synchronization for 2 goroutines, within bounds for up to 5")
prop("C18", "A truncated input never yields a result that looks complete",
 "A command reading a file cut off at any byte fails, or produces exactly what it produces from the whole file; it never reports success with different output.",
 ["fault_sequences", "inputs"], "every file of the ceremony cut at every byte",
 "no test has a damaged file",
 ["phase1/contribution.go", "phase1/header.go", "phase1/phase1.go", "phase2/contribution.go", "phase2/phase2.go", "phase2/utils.go", "keys/keys.go"],
 [("complete reads with errors returned", "readers in phase1, phase2 and keys")],
 "fault enumeration: every truncation point of every input of every command", "all lengths of all inputs of all commands for small circuits", "fault_enumeration")
prop("C19", "A failed write is never reported as success",
 "When an output file of a command can't be written completely, whichever operation on it fails, the command fails.",
 ["fault_sequences", "crash_points"], "every output of every command failing from every byte on",
 "no test has a failing write",
 ["phase1/phase1.go", "phase1/utils.go", "phase2/phase2.go", "phase2/utils.go", "phase2/parted.go", "phase2/lagrange.go", "keys/keys.go"],
 [("flushes with their errors returned", "all writers")],
 "fault enumeration: every byte at which writing can fail, in every output of every command", "file size limits at every byte (small files) or every block boundary", "fault_enumeration")
prop("C20", "Inputs are preserved and old outputs don't matter",
 "Commands leave their input files unchanged, refuse to write over them, and refuse to write two outputs into one file, and overwrite existing outputs completely, so that the result depends neither on what was there before nor on the names of the files.",
 ["histories", "configurations"], "every command, every pairing of inputs and outputs and every state of the output files before",
 "the tests write to other names and start from whatever is there without looking",
 ["common/outputs.go", "phase1/phase1.go", "phase2/phase2.go", "phase2/utils.go", "phase2/parted.go", "keys/keys.go"],
 [("comparison of the names before creating the outputs", "common/outputs.go"), ("truncating creation", "os.Create in all writers")],
 MC, "all coincidences of an output with an input (same name, other spelling, links) and old outputs that are shorter, longer or equal")
prop("C21", "Secrets are fresh, uniform and never silently missing",
 "Every secret of a contribution, and every coefficient of a verification, comes in full from the operating system's source of randomness and is used once; if the source fails the command fails.",
 ["fault_sequences", "inputs"], "every draw, every answer or failure of the source",
 "the tests can't see where secrets come from and never make the source fail",
 ["phase1/phase1.go", "phase1/utils.go", "phase2/phase2.go", "phase2/utils.go", "common/keypair.go"],
 [("sampling with the error checked", "SetRandom in all of these")],
 "fault enumeration: failure of the entropy source at every draw of every command; exact tracking of draws into secrets", "all draws of contributions and verifications of small files", "fault_enumeration")
prop("C22", "The command line accepts exactly what it can do and reports failure",
 "Each command accepts exactly its documented arguments within the supported ranges, does the same as the corresponding operation, and exits with a status other than zero when arguments or files are wrong; wrong arguments leave no files behind.",
 ["inputs", "configurations"], "every command, number of arguments and value of the numeric arguments at the edges of its range",
 "the tests don't run the command line",
 ["main.go", "actions.go"], [("checks of the arguments", "actions.go")],
 MC, "all commands with 0-7 arguments and every numeric argument over an alphabet of edge values")
prop("C23", "Capacity limits are enforced, not exceeded silently",
 "Initializing phase 2 succeeds exactly when the phase 1 file has enough powers for the circuit's domain, and a phase 1 file at the format's maximal number of contributions is refused rather than wrapped around.",
 ["inputs", "configurations"], "every combination of power and number of constraints, every count of contributions",
 "the tests use one circuit that fits",
 ["phase2/utils.go", "phase2/parted.go", "phase1/phase1.go"],
 [("comparison of the domain with the power", "phase2/utils.go processHeader; phase2/parted.go processHeaderParted"), ("maximal count", "phase1/phase1.go Contribute")],
 MC, "all numbers of constraints 1-40 against powers 1-6, whole and split")
prop("C24", "Results don't depend on the internal batch size",
 "Contributions and verifications give the same results for files that need any number of processing batches as for those that fit in one, including the detection of errors anywhere near a boundary between batches.",
 ["inputs", "configurations"], "every relation between the number of parameters and the batch size",
 "batches hold a million points, so the tests never see a second one",
 ["phase1/utils.go", "phase2/utils.go"], [("batched loops", "phase1/utils.go scaleG1/G2, linearCombinationG1/G2; phase2/utils.go scale, aggregate")],
 "explicit-state exploration of the real code compiled with a small batch size", "batch sizes 2-7 by powers 1-4 and domains 2-16 with 0-9 private wires, with every adversarial modification of the parameters of the smaller ones")
prop("C25", "The exported verifier contract has the verifying key",
 "The exported Solidity contract contains exactly the constants of the verifying key it was exported from, in the order and sign its verification equation needs.",
 ["inputs", "histories"], "every verifying key",
 "no test looks at the exported contract",
 ["keys/keys.go"], [("reading of the key and export", "keys/keys.go ExportSol")],
 MC, "the keys of all ceremonies of the family of circuits")
prop("C26", "Keys are never assembled from files of different circuits",
 "Extracting keys fails when the phase 2 file and the evaluations next to it don't belong to the same circuit.",
 ["histories", "configurations"], "every pair of circuits initialized in the same directory",
 "the tests have one circuit",
 ["keys/keys.go"], [("comparison of the dimensions of the evaluations", "keys/keys.go")],
 MC, "all ordered pairs of circuits of a family with different dimensions; pairs of equal dimensions are a known finding")

prop("C27", "No result depends on the schedule or the number of processors",
 "Every command gives the same, correct result for every number of processors and every interleaving of the goroutines it starts: contributions and initializations write the same files and verifications reach the same verdicts. No two goroutines access the same data without synchronization.",
 ["schedules", "configurations"], "every command, number of processors and interleaving",
 "the tests run one interleaving on one machine",
 ["common/parallelize.go", "phase1/utils.go", "phase2/utils.go", "lagrange/g1.go", "lagrange/g2.go"],
 [("work given to goroutines", "callers of common.Parallelize in phase1/utils.go and phase2/utils.go; lagrange/g1.go, lagrange/g2.go")],
 "systematic exploration of schedules of the real code under a controlled scheduler, with the race detector on the same operations",
 "powers 1-4, 1-33 processors; all schedules within 1-2 deviations at synchronization, iterations or statements")

prop("C28", "An interrupted command leaves nothing that passes for complete",
 "If a command fails or is ended at any point while it writes its outputs, then every command which later takes what it left either fails or does exactly what it does with complete outputs: nothing unfinished is continued, verified or turned into keys. The inputs are intact, and running the command again gives the complete outputs.",
 ["crash_points"], "every command, every point between or within its operations on files at which it ends, every command that takes its outputs",
 "the tests never interrupt anything",
 ["phase1/phase1.go", "phase2/phase2.go", "phase2/utils.go", "phase2/parted.go", "keys/keys.go"],
 [("order in which the outputs are created and written", "phase1/phase1.go; phase2/phase2.go Initialize, Contribute; phase2/utils.go processLagrange, processEvaluations, processPVCKK; keys/keys.go"), ("complete reading of the files", "phase1/phase1.go, phase2/phase2.go, keys/keys.go")],
 "exhaustive crash-point enumeration: the real code on a package os that stops all changes of files at a chosen operation and byte, then every consumer on each state left", "ceremonies of 3 small circuits (4 in the thorough tier), every operation on files, every byte (quick: every 3rd or 11th and all near the ends of a write)", "fault_enumeration")
prop("C29", "Failing or partial reads never change a result",
 "When the system fails to open, position or read a file at any point, the command fails or its result is what it would have been; when reads return fewer bytes than asked for, the result is the same as ever.",
 ["fault_sequences", "inputs"], "every command, every operation by which it reads its files, failing or partial",
 "the tests read local files, which the system always delivers in full",
 ["phase1/phase1.go", "phase1/utils.go", "phase1/header.go", "phase1/contribution.go", "phase2/phase2.go", "phase2/utils.go", "phase2/header.go", "phase2/contribution.go", "keys/keys.go"],
 [("every error of reading is returned", "the decoders and readers of phase1, phase2, keys"), ("complete reads", "io.ReadFull in phase1/header.go, phase2/header.go, phase1/contribution.go, phase2/contribution.go")],
 "exhaustive fault enumeration: the real code on a package os in which every single open, seek and read fails or is cut short", "all commands on ceremonies of 4 circuits, every operation; failing once or persistently; 13 patterns of short reads and each single short read", "fault_enumeration")

prop("C30", "An accepted ceremony contains every contribution it prints the hash of",
 "Whatever happened to the files between the contributions, when the verifier of either phase accepts a file and prints the hash that a contribution has printed, that contribution is in the file with its secret in the final parameters, and all contributions printed before it are those its contributor was given. Files that result from contributions only are accepted.",
 ["operation_sequences", "inputs"], "every interleaving of honest contributions and moves of an adversary with secrets of its own, replay, rollback and splicing, up to a depth",
 "the tests run one honest ceremony and never one with an adversary between the contributions",
 ["phase1/phase1.go", "phase1/utils.go", "phase1/contribution.go", "phase2/phase2.go", "phase2/utils.go", "phase2/contribution.go", "common/keypair.go"],
 [("the records are chained", "verifyContribution in phase1/utils.go and phase2/utils.go, GenSP in common/keypair.go"), ("the hash covers the record", "computeHash in phase1/contribution.go and phase2/contribution.go")],
 "explicit-state exploration of the ceremony protocol with an adversary, each honest move and each verification run on the real code", "both phases, all sequences of at most 3 moves (thorough: 4) of about 20 kinds, states merged when files, history and attested hashes are the same", "model_checking")
prop("C31", "No command reveals the secrets it samples",
 "Nothing that a contribution or key extraction writes to files, standard output or standard error, in success, failure or crash, contains a sampled secret or the randomness it is made of. What it says depends on the secrets only in the hash.",
 ["fault_sequences", "inputs"], "every operation on files and every draw of randomness failing, every point at which an input ends",
 "the tests don't look at what is printed and never let a contribution fail",
 ["common/keypair.go", "phase1/phase1.go", "phase1/utils.go", "phase2/phase2.go", "phase2/utils.go", "keys/keys.go"],
 [("secrets are local to the contribution", "Contribute in phase1/phase1.go and phase2/phase2.go"), ("errors and traces have no secrets", "GenPublicKey in common/keypair.go")],
 "exhaustive fault enumeration: the real code on a package os that shows everything written, each operation and draw failing, with a monitor that searches all output for the secrets", "commands with secrets on ceremonies of 4 circuits, every operation, every draw, cut or changed inputs; encodings: bytes, Montgomery, hexadecimal, decimal, base 64", "fault_enumeration")

impl = set(open(os.path.join(root, "tools", "implemented.txt")).read().split())
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[], notes="check.sh builds the model checker (mc/) against /repo's working tree on every run; see DESIGN.md")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] in impl:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=p["_t"], level=p["_l"], level_note=p["_n"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="no check yet"))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
