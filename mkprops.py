# Generates properties.jsonl (kept so that the statements are edited in one place).
import json
A="palworld_save_tools/archive.py"; G="palworld_save_tools/gvas.py"; P="palworld_save_tools/palsav.py"; T="palworld_save_tools/paltypes.py"; V="palworld_save_tools/commands/convert.py"; J="palworld_save_tools/json_tools.py"; RD="palworld_save_tools/rawdata/"
props=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

add("C01","SAV container round-trip",
"For every payload (also the empty one) and both supported compression types (0x31 single zlib, 0x32 double zlib), compressing the payload into a SAV container and decompressing that container returns exactly that payload and that type. The container starts with the payload length, then the length of the once-compressed payload (4-byte little-endian each), then the bytes 'PlZ' and the type byte.",
["inputs"],"all byte strings shorter than 4 GiB, both types",
"The tests decompress a dozen real files and look at the property data; they never decompress a container for an arbitrary payload or check the header written, and quantify over no payload.",
[P],[("compress_gvas_to_sav","palsav.py"),("decompress_sav_to_gvas","palsav.py")],["decompress_sav_to_gvas(compress_gvas_to_sav(d, t))","first 12 bytes of the container"])
add("C02","Corrupt SAV containers are refused, intact ones accepted",
"Decompression returns a payload only if the container, plain or CNK-wrapped, carries the magic 'PlZ', the type byte 0x31 or 0x32, a declared compressed length equal to the real one (bytes after the header for 0x31, bytes after the first inflate for 0x32) and a declared uncompressed length equal to the length of the returned payload. Every other container raises an error. A container that carries all of these, plain or CNK-wrapped, is accepted.",
["inputs","fault_sequences"],"all byte strings offered as a container, in particular every corruption or truncation of a valid one",
"No test feeds a malformed container; the space of corruptions cannot be sampled to a guarantee.",
[P],[("length, magic and type checks","palsav.py:decompress_sav_to_gvas")],["return value or exception of decompress_sav_to_gvas"])
add("C03","Fixed-width fields are encoded exactly",
"Every fixed-width field (signed/unsigned 16-, 32-, 64-bit integers, bytes, flags, 32- and 64-bit floats, vectors, quaternions, transforms) is written as the little-endian fixed-width encoding of its value(s) in their documented order, and reading that encoding returns the same value(s) and consumes exactly those bytes. An integer outside the field's range is refused with an error and never wrapped or truncated.",
["inputs"],"all values of every scalar type; all byte contents of a field",
"The tests contain no boundary values for most widths; widths and signedness are only sampled through the few saves in testdata.",
[A],[("FArchiveReader.i16..double/byte/bool/vector*/quat*/ftransform","archive.py"),("FArchiveWriter counterparts","archive.py")],["bytes written, value read, reader position"])
add("C04","Text strings survive exactly",
"Writing any string (empty, ASCII, non-ASCII, unpaired surrogates, embedded NULs) and reading it back returns the same string and consumes exactly the bytes written, and the byte count the writer reports is the number of bytes written. The empty string is stored as length 0, ASCII text as a positive length with one byte per character plus terminator, other text as a negative count of UTF-16LE units plus terminator.",
["inputs"],"all strings without an adjacent high-low pair of separate surrogates",
"Tests only see the strings in the sample saves.",
[A],[("FArchiveReader.fstring","archive.py"),("FArchiveWriter.fstring","archive.py")],["bytes written, string read, reported size"])
add("C05","GUIDs keep their identity",
"A 16-byte GUID that is read, shown as text and written back - given as the GUID object, as its text or as a standard-library UUID - yields the same 16 bytes, with and without the optional recordclass package. Its text and its standard-library UUID form both read the 16 bytes as four little-endian 32-bit words. Two GUID objects are equal exactly when their bytes are equal, and equal GUID objects have equal hashes, whatever was done with them before.",
["inputs","histories","configurations"],"all 16-byte values, all orders of text/UUID/hash/equality calls, both implementations of the class",
"Tests check one GUID value.",
[A,J],[("UUID class (two variants)","archive.py"),("uuid_writer, uuid_reader, guid, optional_guid","archive.py"),("CustomEncoder","json_tools.py")],["str(), UUID(), ==, hash(), bytes written"],
[dict(name="parsed_str / parsed_uuid",meaning="lazily cached text and UUID forms",where="archive.py UUID (stdlib variant)")])
add("C06","Compact rotators and packed vectors round-trip",
"For any three 16-bit angle codes, the stored rotator is read to angles that write back to the same bytes. For any three whole-number coordinates of magnitude below 2^62 that a double represents exactly, and for coordinates too large for packing, writing a packed vector (scale 1) and reading it returns the same coordinates and consumes exactly the bytes written, so that re-writing what was read reproduces the bytes.",
["inputs"],"65536^3 angle triples; all whole-number double triples",
"Tests use 16 vectors and five foliage blobs; bit-width boundaries and sign combinations are not covered.",
[A],[("compressed_short_rotator, packed_vector, serializeint","archive.py"),("unreal_get_bits_needed, count_leading_zeroes","archive.py")],["bytes written, values read"])
add("C07","Property trees round-trip bit for bit",
"Any well-formed property list, nested to any depth and mixing any of the supported property, struct, array and map element types, yields the same bytes when it is read and written back, directly or through JSON. Well-formed: property names in one list are distinct, flags are 0 or 1, strings are in their stored form of C04, size fields are right and reserved fields are zero.",
["inputs","programs"],"all well-formed property lists, by induction on nesting",
"The sample saves contain only some types in a few shapes; element counts, ids and nesting are unbounded.",
[A],[("properties_until_end, property, struct, struct_value, prop_value, array_property, array_value","archive.py FArchiveReader"),("properties, property, property_inner, struct, struct_value, prop_value, array_property, array_value","archive.py FArchiveWriter")],["writer bytes after reading the bytes"])
add("C08","Written sizes and counts match the data",
"Whatever property tree is written, including one edited by the user, each property's size field equals the number of bytes of its payload (the part after its type header and optional id; 0 for a bool), each struct-array data size equals its element bytes, and each count equals the number of elements written. A reader that skips a property by its declared size therefore always lands on the next one.",
["inputs","histories"],"all property trees a user can hand to the writer",
"Round-trip tests of unedited saves never change a length, and the reader ignores most size fields, so a wrong size is invisible to them on types the samples lack.",
[A],[("property / property_inner return the size","archive.py FArchiveWriter"),("array_property, MapProperty counts","archive.py FArchiveWriter")],["size and count fields in the written bytes"])
add("C09","GVAS files and headers round-trip; foreign files are refused",
"Reading a GVAS file, dumping it to JSON, loading that and writing it gives identical bytes: all header fields, the custom version list of any length, the property data and trailing bytes of any content and length. A file whose magic is not GVAS, whose save game version is not 3 or whose custom version format is not 3 is refused.",
["inputs"],"all header values, custom version lists, trailers; all files",
"Tests use one header and the usual 4-byte zero trailer.",
[G,A,J],[("GvasHeader.read/load/dump/write","gvas.py"),("GvasFile.read/load/dump/write","gvas.py")],["GvasFile.write() of the loaded dump"])
add("C10","Character, item and group blobs round-trip",
"Every character, character-container, item-container, item-slot, dynamic-item and group blob in a layout the tool knows (flags 0 or 1, strings in the stored form of C04) is decoded without error and re-encoded to the same bytes, also after the decoded fields went through JSON. This holds for the blob codecs and for the properties that carry them, whatever the field values, list lengths and group or item kind.",
["inputs"],"all blobs accepted by the decoders with flags 0/1 and stored-form strings",
"Tests cover two group blobs and what occurs in the sample saves.",
[RD+f for f in("character.py","character_container.py","item_container.py","item_container_slots.py","dynamic_item.py","group.py","common.py")]+[T],[("decode_bytes/encode_bytes pairs","rawdata/*.py"),("decode/encode property wrappers","rawdata/*.py")],["encode(json(decode(b))) == b"])
add("C11","Map-object blobs round-trip",
"Every map object (model, connector, build process, concrete model, concrete model modules) in a layout the tool knows (flags 0 or 1, strings in the stored form of C04) is decoded without error and re-encoded to the same bytes, also after the decoded fields went through JSON, for every concrete model class and module type and for any number of map objects and modules. Empty blobs stay empty.",
["inputs"],"all map-object arrays accepted by the decoders with flags 0/1 and stored-form strings",
"Sample saves hold a fraction of the concrete model classes and none of several module types.",
[RD+f for f in("map_object.py","map_model.py","map_concrete_model.py","map_concrete_model_module.py","connector.py","build_process.py","common.py")]+[T],[("decode/encode","rawdata/map_object.py"),("decode_bytes/encode_bytes","rawdata/map_*.py, connector.py, build_process.py")],["encode(json(decode(b))) == b"])
add("C12","Base-camp, work and foliage blobs round-trip",
"Every base-camp, base-camp-module, worker-director, work-collection, work, work-assignment, foliage-model and foliage-instance blob in a layout the tool knows (flags 0 or 1, strings in the stored form of C04, rotators and vectors in the form of C06) is decoded without error and re-encoded to the same bytes, also after the decoded fields went through JSON, for every module, work and transform type and any list lengths.",
["inputs"],"all blobs accepted by the decoders with flags 0/1 and stored-form strings",
"Tests cover five foliage instances and what occurs in the sample saves.",
[RD+f for f in("base_camp.py","base_camp_module.py","worker_director.py","work_collection.py","work.py","foliage_model.py","foliage_model_instance.py","common.py")]+[T],[("decode_bytes/encode_bytes pairs","rawdata/*.py"),("decode/encode property wrappers","rawdata/*.py")],["encode(json(decode(b))) == b"])
add("C13","Content the tool cannot interpret is never lost",
"World data the tool does not understand - unknown map objects, work types, work transforms, base-camp modules, unparsable dynamic items, transport or passive-effect data - is kept as raw bytes and written back byte for byte. Bytes left over after the last known field of a blob are either kept and written back, or decoding fails with an error; they are never dropped silently.",
["inputs"],"all byte contents of every blob type, known or unknown kind",
"Sample saves contain no unknown content; each fallback branch is untested.",
[RD+f for f in("work.py","base_camp_module.py","map_concrete_model.py","map_concrete_model_module.py","dynamic_item.py","connector.py","group.py")],[("fallback to {'values': ...}","rawdata/*.py"),("eof checks","rawdata/*.py")],["encode(json(decode(b))) == b, or decode raises"])
add("C14","Truncated data is never accepted",
"If the input ends in the middle of a field, reading that field raises an error; no read operation returns a value built from fewer bytes than the field's encoding, or reports success having consumed less. This covers integers, floats, flags, strings, GUIDs, byte lists, skips, rotators, packed vectors and arrays.",
["inputs","crash_points"],"every truncation point of every input",
"No test truncates an input.",
[A],[("read and unpack length checks","archive.py FArchiveReader")],["exception versus value of each read operation"])
add("C15","Choosing which data to decode does not change the save",
"For any subset of the known custom property paths chosen for decoding, converting to JSON and back yields the same save bytes: a chosen path is decoded and re-encoded by its matching pair, an unchosen one is carried generically. The command-line selection decodes exactly the known paths that were named, or all of them for 'all' and by default.",
["inputs","configurations"],"all subsets of custom property paths, all saves",
"Tests only use the full set.",
[T,A,V],[("PALWORLD_CUSTOM_PROPERTIES","paltypes.py"),("custom dispatch","archive.py property / property_inner"),("selection filter","convert.py convert_sav_to_json")],["save bytes after the round trip; which paths are decoded"])
add("C16","NaN and infinity handling is faithful",
"With NaN conversion off, every 32/64-bit float is returned unchanged. With it on, NaN and both infinities read as null and every finite value is returned unchanged, at every depth of nested data, and the setting reaches nested blob readers. A null float or double is written as NaN.",
["inputs","configurations"],"all float bit patterns, both settings, all nesting depths",
"No test uses the option or a non-finite float.",
[A,G,V],[("float/double","archive.py"),("internal_copy","archive.py"),("allow_nan plumbing","gvas.py, convert.py")],["values read, bytes written"])
add("C17","Command-line direction and output path",
"A conversion request runs exactly one conversion: --to-json and --from-json override the file extension, otherwise .sav files go to JSON and .json files to SAV; giving both flags, a missing file or a directory is refused with a non-zero exit and nothing is written. Without --output, SAV to JSON writes <filename>.json, and JSON to SAV writes the file name with its final .json removed, or with .sav added when it does not end in .json.",
["inputs","configurations"],"all argument combinations and file names",
"Tests run the command with a plain .sav or .json name in one directory and no options.",
[V],[("main","convert.py")],["which files are written, exit status"])
add("C18","No output file is overwritten or destroyed by accident",
"An existing output file is opened for writing only if --force was given or the user answered y; any other answer than y or n is asked again, and n exits non-zero leaving the file as it was. If the input cannot be read, decompressed, parsed or (JSON to SAV) encoded, the output path is not touched, and the input file is only ever opened for reading.",
["inputs","histories","fault_sequences"],"all answers to the prompt, all failure points before the output is opened, all files",
"Tests never have an existing output file or a failing conversion.",
[V],[("exists/force/confirm_prompt","convert.py"),("open(output) after decoding","convert.py")],["file system effects in order"])
add("C19","JSON is saved with the compression type of its save class",
"Converting JSON to SAV writes a double-zlib container (0x32) when the save class is Pal.PalWorldSaveGame or Pal.PalLocalWorldSaveGame, and a single-zlib one (0x31) for every other class. The file written is exactly the container of the re-encoded save, and the JSON written from a SAV is exactly the dump of the decoded save.",
["inputs"],"all save class names and saves",
"Tests compare second- and third-generation saves made by the same code, so a wrong type would go unnoticed.",
[V,P],[("save_type choice","convert.py convert_json_to_sav"),("write of the container","convert.py")],["bytes of the output file"])
add("C20","Conversions are repeatable and independent of history",
"Writing the same loaded save twice gives identical bytes both times. Reading and writing never change the shared tables (type hints, custom properties, type lists, defaults) or any other state outside the objects being converted, so the result of a conversion does not depend on earlier ones in the process.",
["histories"],"all sequences of reads and writes in one process",
"Tests convert each save once per object.",
[A,G,T,RD+"*"],[("encode replaces decoded values by raw ones","rawdata/*.py encode"),("mutable default arguments","archive.py, gvas.py")],["bytes of a second write; module state after conversions"])
add("C21","The resave check tells the truth",
"The resave check converts a SAV to JSON and back and succeeds (exit status 0) exactly when the SAV made from that JSON has the same payload and the same container type as the input. When they differ, when any step fails, when the user does not allow an existing file to be replaced or when it is given other than one file name it ends with a non-zero status or an error. It writes only <input>.resave.json and <input>.resave.sav and opens the input only for reading.",
["inputs","fault_sequences"],"all saves, all failure points, any existing files and answers",
"Tests only run it on saves that come back the same.",
["palworld_save_tools/commands/resave_test.py",V],[("comparison of the payloads","resave_test.py main")],["exit status; files written"])
add("C22","Data of unsupported types is refused, never guessed",
"Reading a property list that contains, at any depth, a property of an unsupported type, a non-empty array of an unsupported element type, a non-empty map with an unsupported key or value type, or a byte array whose size field does not fit its count ends with an error: nothing is guessed, skipped or left out (a dynamic item holding such a list is kept raw instead). Writing such a property, array or map, or a property marked with a custom type that is not in the table in use, ends with an error as well. Supported are the properties Struct, Int, Int64, FixedPoint64, Float, Str, Name, Enum, Bool, Array and Map, the array elements Struct, Enum, Name, Guid and Byte (and, for writing, Int, Int64, Float, Str and Bool) and the map keys and values Struct, Enum, Name, Int and Bool.",
["inputs"],"all type names outside the supported ones, all positions and depths, all data that follows",
"Tests contain supported types only.",
[A],[("fall-through cases of the type dispatch","archive.py FArchiveReader.property/prop_value/array_value, FArchiveWriter.property_inner/prop_value/array_value")],["error or not; value returned; bytes written"])
add("C23","What is stored is what is shown, and edits survive",
"Reading a stored property list gives every property under its name, in the stored order, with exactly the stored type, id and value of each field (struct components x, y, z; x, y, z, w; r, g, b, a in stored order; every list element and map entry), and the JSON form of a file shows every header field under its name and the trailing bytes. Writing any property tree of types the reader supports whose values fit their fields exactly (GUIDs as object, as text or as standard-library UUID), or any header, and reading that back under the same type hints gives an equal tree or header. A decoded blob, or property carrying blobs, whose values or list elements were changed, added, removed or reordered without changing its kind is encoded so that reading it back gives the edited value: no count, size or copy held elsewhere in the JSON form contradicts or undoes an edit.",
["inputs","histories"],"all values of all supported types, all header fields, all edits of decoded blobs",
"Round-trip tests never look at the values shown and never edit them, so a swap made alike in reader and writer, or a count taken from elsewhere in the JSON, passes them.",
[A,G,J,RD+"*"],[("read and write of each type","archive.py"),("dump and load","gvas.py"),("decode and encode pairs","rawdata/*.py")],["values read; values read back after an edit"])
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
