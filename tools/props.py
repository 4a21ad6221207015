"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "numba_pokemon_prngs/"
UNIT = "The unit tests sample a handful of seeds, states and arguments; the guarantee quantifies over all of them."


def prop(id, title, statement, over, text, why, files, mech, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": [P + f for f in files],
                        "state": [{"name": a, "meaning": b, "where": P + c} for a, b, c in state],
                        "mechanism": [{"name": a, "where": P + b} for a, b in mech], "hook_needed": None}}


PROPS = [
    prop("C01", "Forward LCRNGs follow their documented recurrence and outputs",
         "Every forward linear congruential generator offered by the library advances its seed by seed*multiplier+increment modulo its word size with the constants of the game it models, and its half-word output is the high half of the new seed. This holds for every seed, however the seed is passed in, with and without compilation, and after re-initialisation.",
         ["inputs", "configurations"], "all seeds of the word size, as Python or NumPy integers; compiled and uncompiled mode",
         UNIT + " No test passes NumPy integers or re-initialises.",
         ["lcrng/__init__.py", "lcrng/lcrng32.py", "lcrng/lcrng64.py"],
         [("next, next_u16/next_u32, re_init", "lcrng/lcrng32.py"), ("parameter table", "lcrng/__init__.py")],
         [("seed", "current state word", "lcrng/lcrng32.py")]),
    prop("C02", "Reverse LCRNGs are the exact inverse of their forward partner",
         "Stepping a generator forwards and then its reverse partner once from the resulting seed always returns the original seed, and the other way round. The reverse generators have the same outputs, jumps and bounded draws as a generator with the inverse recurrence.",
         ["inputs", "configurations"], "all seeds; every forward/reverse pair; both modes",
         UNIT + " An error in the inverse constants for one pair can only be seen from the relation for all seeds.",
         ["lcrng/__init__.py", "lcrng/lcrng32.py", "lcrng/lcrng64.py", "compatability.py"],
         [("reverse constants from the modular inverse", "lcrng/lcrng32.py"), ("mod_inv", "compatability.py")]),
    prop("C03", "Jumping n states equals n single steps",
         "A jump by any non-negative count leaves a linear congruential generator on exactly the seed that as many single steps would, for the general jump and for jumps prepared for a fixed count. Counts beyond the period wrap around like repeated stepping.",
         ["inputs", "configurations"], "all seeds and all 32/64-bit counts, as Python or NumPy integers; both modes",
         "The tests jump by at most 1234567890 from sampled seeds and never use prepared jumps; high table entries and large counts are never reached.",
         ["lcrng/lcrng32.py", "lcrng/lcrng64.py"],
         [("jump: binary decomposition over a precomputed table", "lcrng/lcrng32.py"), ("const_jump", "lcrng/lcrng64.py")]),
    prop("C04", "LCRNG bounded draws are in range and use the stated distribution",
         "A bounded draw consumes exactly one step and returns a value below the maximum: the high half modulo the maximum for modulo generators, the high half divided by (range/maximum + 1) for reciprocal generators, and the widening multiply-shift of the documented 64-bit generators. Draws prepared for a fixed maximum agree with general draws.",
         ["inputs", "configurations"], "all seeds and every maximum from 1 up; every generator; both modes",
         "Only maxima 2, 5, 25, 100 and 256 are sampled, and prepared draws are untested.",
         ["lcrng/lcrng32.py", "lcrng/lcrng64.py", "lcrng/__init__.py"],
         [("next_rand by distribution", "lcrng/lcrng32.py"), ("const_rand", "lcrng/lcrng64.py")]),
    prop("C05", "The Mersenne Twister is MT19937",
         "Seeding, state regeneration and tempering of the Mersenne Twister are those of the reference MT19937 for every seed and every reachable state. Each draw returns the next tempered word and regenerates exactly when the block of 624 words is exhausted.",
         ["inputs", "histories"], "all 32-bit seeds, all 624-word states, all read positions; both modes",
         UNIT + " The tests check a few seeds and the first outputs only.",
         ["mersenne_twister/mt.py"], [("re_init, shuffle, next", "mersenne_twister/mt.py")],
         [("state, index", "624 words and read position", "mersenne_twister/mt.py")]),
    prop("C06", "The SIMD Mersenne Twister is SFMT19937 in both implementations",
         "Seeding with period certification, state regeneration and 64-bit output of the SIMD-oriented Mersenne Twister are those of the reference SFMT19937 for every seed and state. The vector-intrinsic implementation used when compiling and the plain one compute the same states and outputs.",
         ["inputs", "histories", "configurations"], "all 32-bit seeds, all states, all read positions; both implementations",
         UNIT + " Period certification depends on rare seeds that no sample hits.",
         ["mersenne_twister/sfmt.py"], [("shuffle (SSE2 intrinsics / plain)", "mersenne_twister/sfmt.py"), ("period certification", "mersenne_twister/sfmt.py")],
         [("state, index", "624 words and read position", "mersenne_twister/sfmt.py")]),
    prop("C07", "Tiny Mersenne Twister matches TinyMT32 and stays within 32 bits",
         "Seeding, stepping and tempering of the tiny Mersenne Twister are those of the reference TinyMT32 with the games' parameters for every seed and state. Every draw is a 32-bit value, compiled or not.",
         ["inputs", "configurations"], "all 32-bit seeds and all 128-bit states; both modes",
         UNIT, ["mersenne_twister/tinymt.py"], [("re_init, next_state, temper", "mersenne_twister/tinymt.py")],
         [("state", "four words", "mersenne_twister/tinymt.py")]),
    prop("C08", "advance(n) is n discarded draws for every generator",
         "Advancing any generator by n leaves it in exactly the state n discarded draws would, including across block regenerations, for every n representable in its count type. n = 0 changes nothing.",
         ["inputs", "histories", "configurations"], "all counts, all states and read positions; every generator; both modes",
         "advance is not called by any test; block boundaries and counts near the type's limit need specific inputs.",
         ["mersenne_twister/mt.py", "mersenne_twister/sfmt.py", "mersenne_twister/tinymt.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py", "lcrng/lcrng32.py", "lcrng/lcrng64.py"],
         [("advance", "mersenne_twister/mt.py")]),
    prop("C09", "Re-seeding makes a generator indistinguishable from a new one",
         "After re-initialisation with a seed, any generator is in the same state as one newly constructed from that seed, whatever was done with it before. No read position, cached block or default carries over.",
         ["histories", "inputs"], "all histories before re-seeding, all seeds; every generator; both modes",
         "No test re-seeds a used generator; a stale field only shows after a particular history.",
         ["lcrng/lcrng32.py", "lcrng/lcrng64.py", "mersenne_twister/mt.py", "mersenne_twister/sfmt.py", "mersenne_twister/tinymt.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py"],
         [("re_init", "mersenne_twister/mt.py")]),
    prop("C10", "Bounded draws of the non-LCRNG generators have the documented form",
         "A bounded draw of each Mersenne Twister, xorshift and xoroshiro generator is the documented function of its successive outputs (modulo, multiply-shift, offset range, or bit-mask rejection that draws until the value is below the maximum) and therefore always lies in the requested range. It consumes exactly as many outputs as that definition says.",
         ["inputs", "histories", "configurations"], "all states and all maxima/bounds; both modes",
         UNIT + " Rejection loops of more than a few rounds and power-of-two limits are not sampled.",
         ["mersenne_twister/mt.py", "mersenne_twister/sfmt.py", "mersenne_twister/tinymt.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py"],
         [("next_rand, next_randrange, next_alternate_rand", "xorshift/xorshift128.py"), ("rejection loop and bit mask", "xorshift/xoroshiro128plus.py")]),
    prop("C11", "Xorshift and xoroshiro generators follow their reference recurrences",
         "The 128-bit xorshift generator and both xoroshiro128+ generators step and output as their reference definitions for every state, including seeding through splitmix and the default second seed word.",
         ["inputs", "configurations"], "all states and seeds; both modes", UNIT,
         ["xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py"],
         [("next", "xorshift/xorshift128.py"), ("next, splitmix seeding", "xorshift/xoroshiro128plus.py")]),
    prop("C12", "Stepping back undoes stepping forward",
         "For every generator that can step backwards, stepping back after a step forward restores the exact previous state and returns the documented output, and stepping forward after a step back does too.",
         ["inputs", "histories", "configurations"], "all states; every reversible generator; both modes",
         "The tests step back along sampled sequences only.",
         ["xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py"], [("previous", "xorshift/xorshift128.py")]),
    prop("C13", "Compiled and uncompiled modes compute the same results",
         "Every public generator, helper and hash operation returns the same values and leaves the same state whether compilation is enabled or disabled, for all in-range arguments.",
         ["inputs", "configurations"], "all in-range arguments and states; both settings of the compilation option",
         "Integer promotion differs between the two modes only for particular values; tests compare sampled values per mode.",
         ["compilation.py", "options.py", "lcrng/lcrng32.py", "lcrng/lcrng64.py", "mersenne_twister/mt.py", "mersenne_twister/sfmt.py", "mersenne_twister/tinymt.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py", "rng_list.py", "sha1.py", "fnv.py", "util.py"],
         [("optional decorators", "compilation.py"), ("explicit fixed-width casts", "lcrng/lcrng32.py")]),
    prop("C14", "Generators are isolated and deterministic",
         "Operating one generator, hash or list never changes another instance, a module-level table or the caller's arguments, and equal seeds and call sequences give equal results. No operation depends on ambient state such as time, environment or a global random source.",
         ["histories", "inputs"], "all interleavings of operations on several instances; every public operation; both modes",
         "Shared state shows only when particular operations on two instances interleave.",
         ["lcrng/__init__.py", "lcrng/lcrng32.py", "lcrng/lcrng64.py", "mersenne_twister/mt.py", "mersenne_twister/sfmt.py", "mersenne_twister/tinymt.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py", "rng_list.py", "sha1.py"],
         [("per-instance state arrays", "mersenne_twister/mt.py")]),
    prop("C15", "The optional decorators are transparent and pass every declaration on",
         "With compilation disabled, decorating a function or class leaves its behaviour as written in every form the decorators accept: bare, called without arguments, with a signature, local types or compiler options, and for classes with or without a field specification. With it enabled the same declarations - signature, local types, options, and every specified, annotated or inherited field - reach the compiler. Compilation is on exactly when the option is TRUE (its default) and the compiler is installed.",
         ["programs", "configurations"], "every decorator form; all argument values, positional and by keyword; every setting of the option",
         "Tests reach the decorators only through a few generators; bare decoration, specifications by keyword, tuple results and keyword calls are never exercised.",
         ["compilation.py", "options.py"], [("optional_njit, optional_jitclass, return_type, convert_spec", "compilation.py"), ("USE_NUMBA", "options.py")]),
    prop("C16", "The RNG list is a faithful sliding window over a generator's outputs",
         "A list built from any generator and output function always presents the next window of that generator's outputs: reading returns consecutive outputs from the current head, advancing the head by n exposes exactly the outputs n further on, and re-seeding restarts it. This holds across wrap-around of its buffer for every sequence of operations.",
         ["histories", "inputs", "configurations"], "all operation sequences and advance counts, all window sizes; every output function; both modes",
         "The list has no tests at all.",
         ["rng_list.py"], [("ring buffer head and pointer", "rng_list.py")],
         [("list, head, pointer", "window of outputs, its start and the read position", "rng_list.py")]),
    prop("C17", "The initial-seed hash is SHA-1 of the documented message",
         "For every version, language, console type, MAC address, frame and timer parameter, date, time and set of pressed buttons, the generation 5 seed is the documented fold of SHA-1 applied to the message block the games build, however the setters are ordered and whether or not partial results are reused.",
         ["inputs", "histories", "configurations"], "all parameter values; all orders of setting parameters; scalar and vector message schedules; both modes",
         "The tests use one MAC address, one date and time and one timer setting.",
         ["sha1.py"], [("message set-up, precomputation, rounds", "sha1.py")],
         [("data, alpha", "message schedule and cached partial state", "sha1.py")]),
    prop("C18", "Every supported game configuration has its own nazo values",
         "The console constants for the generation 5 message are defined for every combination of version, language and console type that the games were released in, and equal the documented values.",
         ["configurations"], "every version x language x console type",
         "Finite but only reached through one hash test.",
         ["sha1.py"], [("nazo tables and selection", "sha1.py")]),
    prop("C19", "Hash and integer helpers compute their documented functions",
         "FNV-1a, byte-order changes, rotations, stat computation and hexadecimal helpers compute their documented results for every argument of their width.",
         ["inputs", "configurations"], "all arguments; both modes", "None of these helpers has a test.",
         ["fnv.py", "util.py"], [("fnv1a_64, rotations, compute_stat", "util.py")]),
    prop("C20", "The generation 3 generator visits every requested frame in order",
         "Wild generation examines exactly the requested consecutive frames, starting after the delay and initial advances, moving its main generator exactly one step per frame whatever happens inside a frame. Each result carries the frame number it was generated from, and what it contains depends only on the seed at that frame.",
         ["inputs", "configurations"], "all seeds, ranges, delays, methods, encounter types, leads, games and encounter tables",
         "There are no tests for generation 3.",
         ["gen3/wild_generator_3.py"], [("generate", "gen3/wild_generator_3.py")]),
    prop("C21", "Generation 3 Pokemon are built by the documented call sequence",
         "For each method and lead ability, the slot, level, nature, personality value and individual values of a generated Pokemon come from the documented sequence of calls of the game's generator, including the extra calls of Synchronize, Cute Charm, pressure-like and slot-forcing abilities, the rock smash check and Unown forms.",
         ["inputs", "configurations"], "all seeds, methods, leads, games, encounter types and tables",
         "There are no tests for generation 3; most branches need a rare combination.",
         ["gen3/wild_generator_3.py", "gen3/encounter_area_3.py", "gen3/util.py"],
         [("generate, cute_charm_check", "gen3/wild_generator_3.py")]),
    prop("C22", "Encounter slots and levels follow the games' slot tables",
         "The slot chosen from a 0-99 roll has the documented percentage for its encounter type, rod and lead, every roll selects an existing slot, and levels lie between the slot's minimum and maximum, with the lead's level effect applied. Slots an ability may force are exactly those with the matching type.",
         ["inputs", "configurations"], "all rolls, encounter types, leads, games and encounter tables",
         "There are no tests for generation 3; a boundary roll off by one shows for 1% of the inputs.",
         ["gen3/encounter_area_3.py"], [("calculate_hslot, calculate_level, get_modified_slots", "gen3/encounter_area_3.py")]),
    prop("C23", "Derived Pokemon attributes follow from personality value and stats",
         "Shininess, gender, ability, nature, hidden power type and strength, characteristic stats and displayed statistics of a generated Pokemon are the documented functions of its personality value, trainer ids, individual values, species record and level.",
         ["inputs", "configurations"], "all personality values, ids, individual values, species and levels; both modes",
         "There are no tests for generation 3.",
         ["gen3/state.py", "gen3/util.py", "util.py", "data/__init__.py"],
         [("update_stats, csv", "gen3/state.py"), ("get_gender, get_shiny", "gen3/util.py"), ("compute_stat and nature table", "util.py")]),
    prop("C24", "Species records are read from the right file at the right offsets",
         "For every game and species the personal-data lookup returns the record of that species from that game's own table, with each field taken from its documented position and width. Enumerations that select a game, lead, method or area have distinct members, and those used as an index into game data (natures, areas, times, weathers) carry that data's number. Name lists are the bundled lines, in order.",
         ["inputs", "configurations"], "every game, species and form; every field",
         "No test loads personal data; two games sharing a value or one shifted field gives plausible wrong data.",
         ["data/personal/__init__.py", "data/personal/personal_info.py", "data/util.py", "enums/game.py", "enums/lead.py", "enums/method.py"],
         [("record layouts", "data/personal/personal_info.py"), ("game to table map", "data/personal/__init__.py")]),
    prop("C25", "Generation 3 encounter data is loaded without loss or mix-up",
         "Loading the generation 3 encounter data of a game yields, for every location and encounter type present in the source, the same slots in order, with the same species, minimum and maximum level and rate, and nothing for types that are absent. Each location carries its readable place name at the same position, and each game only gets its own locations.",
         ["inputs", "configurations"], "every game; every encounter table in the source data",
         "No test loads encounter data.",
         ["data/encounter/__init__.py", "data/encounter/encounter_area_3.py"], [("load_encounter_3", "data/encounter/__init__.py")]),
    prop("C26", "Legends: Arceus encounter tables are loaded, packed and looked up faithfully",
         "Loading an area of Legends: Arceus gives each source table its own identifier and exactly its slots in order, with their fields; a slot's own level bounds count when they lie in 1..100 and the table's otherwise, alphas get the boost of their species, and a multiplier below zero is replaced by the species' one and, if that is below zero, by one. Packing tables yields plain data that pickles, leaves the tables alone, and unpacking it returns every slot in order with all of its fields under the table it belongs to.",
         ["inputs", "programs"], "every table, slot count and field value",
         "No test loads this data.",
         ["data/encounter/__init__.py", "data/encounter/encounter_area_la.py", "data/fbs/encounter_la.py"],
         [("encode/decode pair", "data/encounter/__init__.py")]),
    prop("C27", "Legends: Arceus slot selection follows cumulative weights",
         "Selecting a slot of a table with a positive total weight with a roll in [0, 1) returns the slot in whose cumulative interval the roll falls, with weights adjusted for the given time and weather, and never a slot of weight zero. Selecting leaves the table unchanged.",
         ["inputs", "configurations"], "all tables, rolls, times and weathers; both modes",
         "No test calls slot selection.",
         ["data/encounter/encounter_area_la.py"], [("calc_slot", "data/encounter/encounter_area_la.py")]),
    prop("C28", "The data cache never serves a partial or foreign entry",
         "A process interrupted at any point while writing a cache entry leaves either no entry or a complete one, so later loads never fail on or return truncated data. An entry is keyed so that a different library version or data set is never returned.",
         ["crash_points", "schedules", "fault_sequences"], "every interruption point of a cache write; every concurrent reader",
         "A crash between opening and finishing the write cannot be scheduled by a unit test; nothing tests the cache.",
         ["data/encounter/__init__.py"], [("pickle_cached", "data/encounter/__init__.py")]),
    prop("C29", "Serialized tables are read by the schema they were written with",
         "Every field of a serialized table is read from its own vtable slot with its own width and default, absent scalar fields and vectors yield the default, and reading one field never shifts another. The tables loaded from the bundled data carry those values.",
         ["inputs", "programs"], "every field of every table class; buffers with any subset of fields present",
         "No test reads a serialized table; absent fields need particular buffers.",
         ["data/fbs/flatbuffer_object.py", "data/fbs/encounter_la.py"], [("field readers advancing a slot cursor", "data/fbs/flatbuffer_object.py")]),
    prop("C30", "Everything the library opens or imports is shipped with it",
         "Each resource path the library opens for some game or area is present in the package, every module of the package can be imported in both modes and without the compiler installed, and every third-party module it imports is a declared dependency, so that no public operation fails for a supported configuration because something is missing.",
         ["configurations"], "every path constructed for every game and area",
         "Tests never import the data modules.",
         ["data/encounter/__init__.py", "data/personal/__init__.py", "data/__init__.py"], [("resource paths", "data/encounter/__init__.py")]),
    prop("C31", "No seed or state lies on a short cycle",
         "Every linear congruential generator, forwards and backwards, steps through all seeds of its word size before it repeats one, and every xorshift, xoroshiro and tiny Mersenne Twister generator through all states but the empty one. No seed gives a xoroshiro generator the empty state.",
         ["inputs", "histories", "configurations"], "all seeds and states; both modes",
         "A period of 2**32 and more cannot be observed by a test, and a short cycle concerns a few seeds only.",
         ["lcrng/__init__.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py", "mersenne_twister/tinymt.py"], [("multipliers and increments", "lcrng/__init__.py")]),
    prop("C32", "Draws are as evenly distributed as those of the modelled generators",
         "Bounded draws and floating point draws of every generator inherit the equidistribution of the generator they model.",
         ["inputs"], "all seeds, long histories", "A distribution is a statement about the whole period.",
         ["lcrng/lcrng32.py", "xorshift/xorshift128.py"], [("next_rand", "xorshift/xorshift128.py")]),
]

VALUE = "gated-SSA value graphs by abstract interpretation + value-numbering equivalence"
VNOTE = ("Abstract interpretation of the source builds the value graph of the operation on symbolic inputs (joins gated, loops as mu-nodes; no execution, no solver, no path enumeration) and compares it by "
         "canonical value numbering with the reference graph; obligations that do not become canonically equal are only searched for disagreement by evaluating both graphs and counted as unproven. "
         "Trusts the modelled numba/NumPy typing rules and the reference definitions.")


def chk(pid, technique=VALUE, level="other", note=VNOTE):
    return {"property": pid, "quick_cmd": "python3 run.py " + pid, "thorough_cmd": "python3 run.py " + pid,
            "technique": technique, "level": level, "level_note": note}


CHECKS = {}
NA = {}
try:
    exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
except FileNotFoundError:
    pass


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in PROPS]
    na = [{"property": i, "reason": NA.get(i, "no sound check for it has been built yet")} for i in ids if i not in CHECKS]
    man = {"version": 1, "setup_cmd": "true", "checks": [CHECKS[i] for i in ids if i in CHECKS], "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
