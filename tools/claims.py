TV = "translation_validation"
NA["C32"] = "a statement about frequencies over whole periods; no static argument in reach bounds them, and the structural parts (the reference recurrence, the documented form of a draw, the full period) are decided by C01, C05-C07, C10, C11 and C31"
for _p in PROPS:
    if _p["id"] not in NA:
        CHECKS[_p["id"]] = chk(_p["id"], level=TV)


def claim(pid, technique, note, level=TV):
    CHECKS[pid] = chk(pid, technique, level, note + " " + BASE)


BASE = ("Nothing of the repository is executed and no solver is used; obligations that are neither proved nor refuted are counted as unproven in the evidence. "
        "Trusts the modelled numba/NumPy typing rules and the reference definitions under /verif/spec.")
G = "value graphs (gated SSA) by abstract interpretation, equivalence by value numbering"
claim("C03", G + "; square-and-multiply loop against the power tables", "Decides both jump forms for every seed and count: the loop's value graph is equal to the table form, and the tables are the powers of the generator's affine map (constant propagation).")
claim("C08", G + "; loop counts decided separately", "Decides advance(n) against n discarded draws for every n through the loops' value graphs; block generators by their position arithmetic.")
claim("C12", G + " with bitwise-linear inverses", "Decides previous after next and next after previous as identities of terms, normalising xor/shift regions as GF(2)-linear maps.")
claim("C13", G + " between the two modes", "Builds the value graph of each operation under the compiled and the uncompiled typing rules and decides their equality.")
claim("C14", "effects and ownership analysis, dependence analysis, two-instance interleaving over value graphs", "Every object an operation may write must be owned by its receiver; results may depend only on arguments and receiver state; where an object is shared, the interleaving of two instances must equal each alone.", "other")
claim("C15", "typing dataflow of the decorators over witness programs in both modes; constant propagation of the option", "Applies the decorators' value graphs to witness declarations of every accepted form and decides that function, signature, locals, options and fields arrive unchanged.")
claim("C16", G + "; operation histories composed symbolically", "Decides the ring buffer against the reference window for symbolic head, count and contents, one operation at a time, and for compositions of operations.")
claim("C18", "constant propagation over the enumerations and tables", "Every version, language and console combination is propagated through the table code and compared with the documented values.")
claim("C20", G + " with a symbolic list position", "Decides the generated list by its k-th examined frame for symbolic k, so every number of frames is covered; the jump and the statistics are taken as decided by C03 and C19.")
claim("C21", G + " with uninterpreted slot tables", "Decides the whole of generate per game, method, encounter type and lead ability, for every seed, trainer id and area contents.")
claim("C22", G + "; finite-domain constant propagation of slot rolls", "Rolls 0-99 are enumerated in the abstract; level formulas are decided for every slot.")
claim("C24", "constant propagation through the table loaders and record layouts", "Decides per game which file is read and, from the loader's own layout, which bytes each field of a record covers; enumerations by constant propagation.")
claim("C25", "constant propagation of the bundled data files through the loader's value graph", "The bundled sources are the only inputs this code has: every location and encounter type is propagated through the loader and compared with an independent reading of the same files.")
claim("C26", G + " over table shapes", "Decides packing and lookup for symbolic field contents over table shapes of up to nine slots and four tables.")
claim("C27", G + "; finite enumeration of comparison outcomes", "Decides the returned index for tables of up to twelve slots by every outcome of the comparisons between roll and weights.")
claim("C28", "typestate of the cache file over every prefix of the write protocol; provenance of the file name", "Enumerates every point at which the sequence of file operations may stop and decides what a later load finds; decides what the name depends on by data dependence.", "fault_enumeration")
claim("C29", "layout and effect analysis of the field readers against the schema", "Decides, reader by reader, the vtable slot, width and default against the schema for buffers with any subset of fields, with vectors of up to five elements.")
claim("C30", "import and resource reachability over the module graph", "Decides that each name opened and each module imported from any module of the package exists in the tree or the declared dependencies, in both modes and without the compiler.", "other")
claim("C31", "linear-map extraction from value graphs; Hull-Dobell and the order of GF(2) matrices", "Interprets each step in the domain of affine (congruential) or bitwise-linear maps and decides the period algebraically from the extracted constants or matrix.", "other")
