"""What each property's proof consists of: the modules of the extracted crate whose
obligations Verus has to accept, and the level the check claims."""
T = "contracts on the real functions (Verus, deductive, function by function)"
GEO = ["vec3", "area", "inv"]
DB = ["map_database"]
BLOCK = ["node_data", "node_timer", "static_object", "metadata", "name_id_map", "map_block", "view"]
CMD = GEO + DB + BLOCK + ["utils", "shown", "instance", "session", "stored"]
CODECS = ["format", "codec", "codec_base", "codec_names", "codec_nodes", "codec_timers", "codec_objects", "codec_meta", "roundtrip", "codec_block"]
CODEC = "MapBlock::deserialize/serialize and is_valid_generated enter by their contracts, which the checks of C05 and C06 prove from the same source"
ZIP = "zlib (flate2) and zstd: decompressing what was compressed gives it back and stops at its end, however it is chunked (07_codec.rs: ax_zl, ax_zip, ax_zs, ax_zzip); writing to memory does not fail"
IO = "std::io::Read/Write/Cursor and byteorder on memory behave as the contracts of 07_codec.rs say; the unsafe Vec::set_len within the room set aside (proved) gives elements of any value"
SQL = "SQLite: prepare/bind/step/reset behave as the contracts of 02_sqlite.rs say; operations other than COMMIT do not fail"

CLAP = "clap: a command line is accepted only if it fits the declared arguments, and values are delivered under the declared names (08_clap.rs: get_matches); str::parse reads decimal numbers of its type's range; std's char classes, str::find and slicing behave as 05_text.rs says"
FILES = "files: is_file tells what is there, a file that is there can be opened; PRAGMA table_info lists a table's columns in order (none: no such table), and preparing it fails only on what is no map (06_files.rs, 02_sqlite.rs)"
THREAD = "std::thread runs the closure it is given (v_thread of 72_cmdline.vc); mpsc channels deliver in order"
FLOAT = "single-precision operations are the exact ones rounded to nearest (IEEE 754; 09_float.rs: rnd_near, rnd_mono, rnd_int); formatting writes the nearest decimal (v_fixed, v_whole); nothing runs longer than 10^12 seconds"
LINE = ["arg_kinds", "cmd_table", "cmd_line"]
CONSOLE = ["thread", "console_said", "progress", "console"]
COPY = ["block_utils", "name_id_map", "copy"]
ARGS = ["commands_mod", "args", "args_clone", "args_overlay", "args_delete_meta", "args_delete_objects", "args_replace_in_inv", "args_replace_nodes", "args_set_meta_var", "args_set_param2"]
ALLCMD = ["fill", "replace_nodes", "set_param2", "delete_blocks", "vacuum", "delete_meta", "delete_timers", "set_meta_var", "replace_in_inv", "delete_objects", "clone", "overlay"] + COPY


def cmd(mods, note):
    return {"modules": mods + CMD, "level": "proof", "note": note, "assumptions": [CODEC, SQL]}


INFO = {
    "C01": {"modules": ["vec3"], "level": "proof", "note": "key packing/unpacking and in-block index of spatial/{mod,vec3}.rs proved for all inputs"},
    "C02": {"modules": ["vec3", "area"], "level": "proof", "note": "every method of Area proved against the set of integer positions, for all areas on which i32 arithmetic does not overflow"},
    "C03": {"modules": GEO, "level": "proof", "note": "AreaIterator and InverseBlockIterator proved: order, exactness, termination, any prefix"},
    "C04": {"modules": GEO + DB + ["utils", "instance"], "level": "proof", "note": "query_keys and its helpers proved for every database, area, flag and name list", "assumptions": [SQL]},
    "C05": {"modules": BLOCK + CODECS, "level": "proof", "note": "every reader and writer of map_block/ proved against a front-to-back specification of versions 25 to 29, and lemma rt_block: decoding what serialize wrote gives the block back", "assumptions": [ZIP, IO]},
    "C06": {"modules": ["instance"] + GEO + DB + BLOCK + CODECS + ALLCMD, "level": "proof", "note": "MapBlock::deserialize proved total: a well-formed block or an error for every byte string, no allocation beyond the data; each command's contract says what happens to undecodable blocks", "assumptions": [ZIP, IO, SQL]},
    "C07": cmd(["fill"], "fill() proved end to end over the abstract codec"),
    "C08": cmd(["select", "replace_nodes", "count"], "replace_nodes() proved end to end over the abstract codec"),
    "C09": cmd(["set_param2", "count"] + LINE, "set_param2() proved end to end over the abstract codec, and its value from the command line on (parse_cmd_line_args)"),
    "C10": cmd(COPY + ["clone"], "clone() proved end to end over the abstract codec: every area and offset, overlapping or not, every cache history"),
    "C11": cmd(COPY + ["overlay", "run", "compute"] + ARGS, "overlay() (both forms) proved end to end over the abstract codec; the source connection stays read-only and uncommitted through compute_thread()"),
    "C12": {"modules": ["name_id_map", "block_utils"], "level": "proof", "note": "NameIdMap and the renumbering of block_utils.rs proved for all blocks"},
    "C13": cmd(["delete_meta"], "delete_metadata() proved end to end over the abstract codec"),
    "C14": cmd(["delete_timers"], "delete_timers() proved end to end over the abstract codec"),
    "C15": cmd(["delete_objects", "static_object_data", "split", "set_meta_var"], "delete_objects(), can_delete() and the item name extraction proved end to end over the abstract codec"),
    "C16": cmd(["set_meta_var", "replace_in_inv", "split", "count"], "replace_in_inv() proved end to end over the abstract codec; do_replace() and its string splitting proved for every inventory text"),
    "C17": cmd(["set_meta_var", "count"], "set_meta_var() proved end to end over the abstract codec"),
    "C18": cmd(["delete_blocks"], "delete_blocks() proved end to end"),
    "C19": {"modules": ["instance"] + GEO + DB + ALLCMD + ARGS + ["run", "compute"] + LINE + CONSOLE, "level": "proof", "note": "compute_thread(), its thread, the command table and the console loop (confirmations are what the user typed) proved over the contracts of the commands and of MapDatabase", "assumptions": [CODEC, SQL, CLAP, THREAD]},
    "C20": {"modules": ["instance"] + GEO + ARGS + ["run", "compute"] + LINE + CONSOLE, "level": "proof", "note": "from the declared command line (parse_cmd_line_args: the arguments are the ones typed, each command takes those the manual lists) over the common and per-command argument rules to their place in compute_thread() and the error shown, proved for all arguments", "assumptions": [SQL, CLAP, THREAD]},
    "C21": {"modules": DB + ["vacuum"], "level": "proof", "note": "every method of MapDatabase proved over the contracts of the SQLite calls", "assumptions": [SQL]},
    "C22": {"modules": ["utils"] + COPY + ["clone", "overlay"], "level": "proof", "note": "CacheMap proved for every history and capacity, and its use in clone and overlay: a lookup is what the block held before the command"},
    "C23": {"modules": ["instance"] + GEO + DB + ARGS + ["run", "compute"] + CONSOLE, "level": "proof", "note": "open_map(), verify_database() and MapDatabase::new() proved to accept exactly the maps, and compute_thread() to reach a command exactly when the arguments are acceptable and both paths name maps", "assumptions": [SQL, FILES, THREAD]},
    "C24": {"modules": ["instance", "shown"] + GEO + DB + ALLCMD + ["run", "compute"] + CONSOLE, "level": "proof", "note": "fmt_big_num(), fmt_duration(), print_editing_status(), print_log() and the console loop proved over real arithmetic with rounding; every command proved to count no more blocks done than announced (inc_done's precondition)", "assumptions": [CODEC, SQL, FLOAT, THREAD]},
}
# lemmas about the assumed contracts themselves
BASE = ["prelude", "std_shims", "sqlite", "status", "text", "files", "clap", "console_base", "float", "events"]
for i in INFO.values():
    i["modules"] = BASE + i["modules"]
    i.setdefault("technique", T)
