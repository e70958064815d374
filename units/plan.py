"""Which functions of which unit serve which property (patterns on the name of the function)."""

ALL = [r".*"]
# the lemmas, and the definitions that have obligations of their own (termination)
LEMMAS = [r"lemma_.*", r".*_same", "skip", "off", "all_present", "rest", "rest_present"]

UNITS = {
    "table": {"props": {
        "C10": LEMMAS + ["new", "new_rows", "next", "next_row", "next_value", "next_value_main_[^PQ]", "seek_to_next_col", "num_b.*_field", "get_xtension", "get_.*", "row_iter", "table_data", "read_the_heap"],
        "C11": LEMMAS + ["seek_to_row", "select_fields", "find_field_by_ttype", "seek_to_next_col", "next", "next_value.*", "jump_to_main_table", "num_b.*_field"],
        "C12": LEMMAS + ["jump_to_.*", "next_value", "next_value_heap_.*", "next_value_main_[PQ]", "next", "next_row", "seek_to_next_col"],
        "C19": ALL}},
    "it": {"props": {"C07": ALL, "C08": ALL, "C19": ALL}},
    "sizes": {"props": {"C06": ALL, "C13": ["check_for_.*", "parse", "get_.*"], "C19": ALL}},
    "card": {"props": {"C01": ALL, "C02": ALL, "C19": ALL}},
    "header": {"props": {"C03": ALL, "C04": ALL, "C19": ALL}},
    "typed": {"props": {"C02": ALL, "C19": ALL}},
    "aform": {"props": {"C13": ALL, "C19": ALL}},
    "rice": {"props": {"C14": ALL, "C19": ALL}},
    "tiles": {"props": {"C15": [r"(?!unquantize|lemma_steps|steps|f_).*"], "C16": [r"unquantize", "lemma_steps", "steps", "next_f.*", "new", "first_value_idx", "lemma_cells", "kinds_of", "or32"], "C19": ALL}},
    "zimage": {"props": {"C15": ALL, "C16": ALL, "C19": ALL}},
    "walk": {"props": {"C05": ALL, "C19": ALL}},
    "awalk": {"props": {"C17": ALL, "C19": ALL}},
    "gz": {"props": {"C18": ALL, "C19": ALL}},
    "img": {"props": {"C20": ALL, "C19": ALL}},
    "raw": {"props": {"C09": ALL, "C19": ALL}},
}

# the level of each check: `proof` where the statement of the property follows from contracts that the verifier discharges, up to the
# trusted contracts of libraries listed in the evidence and to what NOT_PROVED says; `exploration` where a part of the statement that
# matters rests on the bounded stand-in
LEVEL = {p: "proof" for p in ["C%02d" % i for i in range(1, 19)] + ["C20"]}
LEVEL["C19"] = "exploration"

# what the contracts of a property leave to the bounded stand-in, or assume
NOT_PROVED = {
    "C01": "bounded stand-in only: which bytes are UTF-8, how the words of a HIERARCH keyword are joined, trim_ascii on bytes",
    "C02": "bounded stand-in only: which texts are integers and which double is nearest (str::parse), the visitors of serde",
    "C03": "nothing beyond the trusted contracts on texts and on indexmap",
    "C04": "nothing beyond the trusted contracts on texts and on indexmap",
    "C05": "assumed and shown by other units: a record is a function of its 80 bytes (card), the acceptance of a header of its records (header, sizes); bounded stand-in only: the skipping of the data unit after reads through other data types than those of the library",
    "C06": "bounded stand-in only: the conversion of a header value by serde is shown by unit typed for the integer types, that of BITPIX by serde_repr is trusted",
    "C07": "the value of a float is that of its bytes (byteorder, uninterpreted)",
    "C08": "restricted to images whose bytes are all present, as the statement says",
    "C09": "bounded stand-in only: the raw bytes of a tile-compressed table after tiles were read",
    "C10": "bounded stand-in only: TUNIT, TSCAL and other optional descriptions given through the header",
    "C11": "nothing beyond the trusted contracts of sort_unstable and dedup",
    "C12": "the reader is reliable: reads within the file succeed",
    "C13": "which texts are numbers (str::parse)",
    "C14": "block size at least 1; one full read from the start (how the library reads tiles), read_exact of the standard library; a little endian machine",
    "C15": "trusted: inflating by flate2; shown by unit rice under C14: the contract of the Rice decoder, by unit table under C10: the rows of the table (the same text is proved there and used here)",
    "C16": "the content of the random sequence (bounded stand-in), float operations are those of the machine",
    "C17": "every poll of the reader is ready (finding async-pending); no claim on truncated data",
    "C18": "trusted: inflating by flate2 (finding gzip-members); bounded stand-in only: opening of files by path",
    "C19": "proved: overflow, indices, slices, unwraps, unreachable code and termination in the functions under contract; bounded stand-in only: the other functions, and the memory used",
    "C20": "trusted: BSCALE and BZERO through serde, the conversions of floats of the machine; bounded stand-in only: the registration with the image crate",
}

CLAIMED = ["C%02d" % i for i in range(1, 21)]
NOT_APPLICABLE = {
    "C21": "world coordinates are computed by the external crate `wcs` (a git dependency), which is absent from this offline sandbox: "
           "neither its source nor its contract is available, and the module that calls it cannot be compiled here",
}


def note(p):
    units = [u for u in UNITS if p in UNITS[u]["props"]]
    kind = "every contract discharged by Verus for all inputs" if LEVEL[p] == "proof" else "safety obligations discharged by Verus for the functions under contract, the whole explored by a bounded differential driver"
    return "%s (unit%s %s), on text extracted from /repo on each run; left to trust or to the bounded stand-in: %s. The full list of trusted contracts is in the evidence." % (
        kind, "" if len(units) == 1 else "s", ", ".join(units), NOT_PROVED[p])


def backends(units):
    kinds = sorted({UNITS[u].get("kind", "verus") for u in units})
    return " and ".join({"verus": "Verus (Z3)", "kani": "Kani (CBMC)"}[k] for k in kinds)
