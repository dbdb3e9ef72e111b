"""What the proofs rest on."""
TRUSTED = [
    "pyvc: the symbolic interpreter of the repository's source text and its models of Python built-ins, struct, io.BytesIO, zlib, uuid and json (cross-checked natively by replay)",
    "z3",
    "CPython 3.12 semantics of the code outside the interpreted functions",
    "contracts/: the specifications themselves",
]
_TREE = [
    "property trees: names within one list are distinct, sizes of nested data below 2^40, reserved fields (first word of a map, the id byte of arrays of structs) are zero in data that is read",
    "an unregistered path is represented by one generic path; dispatch on a path is membership in the table (dispatch.read/write)",
]
_BLOB = [
    "flags stored as u32 are 0 or 1; strings are in the form the writer stores (C04)",
    "property lists inside a blob obey the contract of properties_until_end/properties (established by tree.*); property names there do not spell a registered custom path",
]
_CLI = [
    "argparse: the real parser is run on each shape of command line; file names are symbolic strings with a non-empty base name",
    "file system: os.path.exists/isdir answer arbitrarily but consistently between effects; open of a missing path for reading fails; any step may raise; concurrent modification of the files by other processes is not considered",
    "os.path.splitext/basename and input() by their documented meaning",
]
_ZLIB = [
    "zlib is uninterpreted: decompress(compress(x)) == x, any call may raise; compressed sizes fit 32 bits (payloads to 3*2^30 bytes)",
]
ASSUME = {
    "*": [
        "integers are mathematical (as in Python); lengths are below 2^40; memory is sufficient",
        "json.loads(json.dumps(v)) preserves dicts with string keys, lists, strings, ints, bools, None and the value of every float (NaN to a NaN)",
        "struct packs and unpacks little-endian fixed-width fields exactly; a NaN is stored canonically (payload bits of a NaN are not preserved by Python floats)",
        "io.BytesIO: read returns min(asked, left) bytes; tell/seek/write/getvalue as documented",
        "printed text and warnings are not part of the behaviour compared",
    ],
    "C01": _ZLIB,
    "C02": _ZLIB,
    "C04": ["codecs: ascii and utf-16-le encode and decode are inverse on the strings they accept; surrogates as CPython handles them"],
    "C05": ["uuid.UUID and recordclass: construction and attribute access as documented; both variants of the class are verified"],
    "C06": ["float arithmetic on the packed forms is exact where the operands are integers below 2^53 (checked by range) and IEEE otherwise"],
    "C07": _TREE,
    "C08": _TREE,
    "C09": ["header texts are in the form the writer stores (C04)"] + _TREE,
    "C10": _BLOB,
    "C11": _BLOB,
    "C12": _BLOB,
    "C13": _BLOB,
    "C15": _TREE + _BLOB + _CLI,
    "C16": _BLOB + _CLI,
    "C17": _CLI,
    "C18": _CLI,
    "C19": _CLI,
    "C20": _TREE + _BLOB,
    "C21": _CLI + _ZLIB,
    "C23": ["edits of decoded blobs: decode(encode(decode(b))) = decode(b) is proved for every b, and that no two places of a decoded value (list lengths included) show the same stored field; that an edit within range is then the decoding of some blob is the argument of DESIGN.md 2, checked natively on edited blobs"] + _TREE + _BLOB,
    "C22": ["type names are compared as whole strings; a name differing from every supported one is one arbitrary string"],
}
LEVEL = {}
