#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "DeviceSQL strings survive encoding and decoding unchanged",
  "Every text accepted by the DeviceSQL string constructors is written in the documented on-disk form (one-byte-header ASCII for up to 126 ASCII bytes, long ASCII above that, UTF-16LE for non-ASCII text, the 0x03-prefixed NUL-terminated form for ISRCs) and reading those bytes back yields an equal value whose text, by conversion or display, is exactly the original. "
  "Text too long for the format and ISRCs that are neither empty nor 12 ASCII characters are refused with an error, never truncated or misencoded. "
  "Invalid stored encodings are reported as an error by conversion to a Rust string.",
  ["inputs"], "All strings: every length around the 126/127 and 32767 limits, every scalar value as first and later character, all ISRCs, all raw stored strings.",
  "The unit tests encode seven fixed strings; they never vary the first character, the boundary lengths or the encodings.",
  ["src/pdb/string.rs"],
  [("encoding choice in the constructor", "src/pdb/string.rs DeviceSQLString::new / new_isrc"), ("binary layout", "src/pdb/string.rs DeviceSQLStringImpl / LongBody")],
  ["DeviceSQLString::{new,new_isrc,read,write,into_string,Display}"])

p("C02", "Arbitrary PDB bytes never crash, hang or exhaust memory",
  "For any byte string presented as a plain or extended PDB file, opening it, walking and printing every table, page and row, listing its playlists and writing the loaded content back ends with a result or an error. "
  "It never panics, aborts, overflows the stack or loops without end, and memory use stays bounded by a modest multiple of the input size.",
  ["inputs"], "All byte strings, in particular every corruption, truncation and field mutation of well-formed databases of both types.",
  "The tests parse a handful of intact exports; no test feeds damaged bytes.",
  ["src/pdb/io.rs", "src/pdb/mod.rs", "src/pdb/string.rs", "src/pdb/offset_array.rs", "src/pdb/ext.rs", "src/device.rs"],
  [("checked parsing", "src/pdb/mod.rs binrw parsers with assert"), ("page list guard", "src/pdb/io.rs PageIterator::next")],
  ["Database::{open,open_non_persistent,load_page,iter_pages,iter_pages_for_table,iter_rows,flush}, get_playlists, Debug output"])

p("C03", "Arbitrary analysis-file bytes never crash, hang or exhaust memory",
  "For any byte string presented as an ANLZ analysis file, parsing it, printing the result and writing the parsed value back ends with a result or an error. "
  "It never panics, aborts or loops without end, and memory use stays bounded by a modest multiple of the input size.",
  ["inputs"], "All byte strings, in particular every corruption, truncation and length-field mutation of files with all known section kinds.",
  "The tests parse only intact sample files and one extended cue.",
  ["src/anlz.rs", "src/xor.rs"],
  [("section length accounting", "src/anlz.rs Header / ANLZ::parse_sections"), ("content assertions", "src/anlz.rs Content variants")],
  ["ANLZ::read, ANLZ::write, Debug output"])

p("C04", "Arbitrary settings and XML bytes never crash, hang or exhaust memory",
  "For any byte string presented as a settings file of any of the four types or as a rekordbox XML document, parsing, printing and writing back ends with a result or an error. "
  "It never panics, aborts or loops without end, and memory use stays bounded by a modest multiple of the input size.",
  ["inputs"], "All byte strings, in particular mutations of well-formed settings files and XML documents.",
  "The tests parse only intact samples.",
  ["src/setting.rs", "src/xml.rs"],
  [("field assertions", "src/setting.rs Setting and the data structs"), ("serde visitor", "src/xml.rs PlaylistGenericNode")],
  ["Setting::read_args, Setting::write, quick_xml deserialization of xml::Document"])

p("C05", "Well-formed analysis files are rewritten byte for byte",
  "Reading any well-formed ANLZ file, whatever sections it holds in whatever order and number, and writing it back reproduces the input exactly, and a second read yields an equal value. "
  "This includes sections of unknown kind, extra file-header bytes, empty lists, cue comments of any length with any trailing bytes, and song structures stored encrypted or in the clear.",
  ["inputs"], "All well-formed files composed of any mix of the known section kinds and unknown ones, with arbitrary field values.",
  "The round-trip tests cover the sample files in the repository: a fixed set of section combinations and one extended cue.",
  ["src/anlz.rs", "src/xor.rs"],
  [("symmetric binrw read/write definitions", "src/anlz.rs"), ("song-structure encryption", "src/anlz.rs SongStructureData::write_encrypted, src/xor.rs")],
  ["ANLZ::read and ANLZ::write"])

p("C06", "Analysis content is decoded to the stored values",
  "Every documented value of a well-formed ANLZ file (beats, cues and their loops, comments and colours, paths, every kind of waveform column, song-structure mood, bank and phrases, unknown sections) is reported as an independent decoder of the published format reads it, in stored order. "
  "Encrypted song structures decode to the same values as their plain counterparts, and the result does not depend on how many bytes the underlying reader returns per call.",
  ["inputs", "schedules"], "All well-formed files and all ways a reader may split its input into short reads.",
  "The tests compare against the library's own types on a few sections and always read from an in-memory cursor that never returns short reads.",
  ["src/anlz.rs", "src/xor.rs"],
  [("field layout", "src/anlz.rs section structs"), ("key derivation and stream cipher", "src/anlz.rs SongStructureData::get_key, src/xor.rs XorStream")],
  ["public fields and Debug output of ANLZ values"])

p("C07", "Settings files keep every value, layout and checksum correct",
  "Every settings value that can be constructed is written with the documented layout, stored byte value and CRC (over the data section, or over everything before it for DJMMYSETTING.DAT), and reading it back yields an equal value; a well-formed file with a correct checksum is rewritten byte for byte. "
  "Each stored option byte selects the documented option, shows its documented label, and bytes that no option uses are refused. "
  "The defaults of the four file types equal the defaults rekordbox 6.6.1 writes, and a string too long for its field is refused with an error.",
  ["inputs"], "All option values of all fields of all four file types, all brand, software and version strings, all 256 stored bytes per field.",
  "The tests read one file per changed option from a sample directory; many option values, combinations and all invalid bytes are never seen.",
  ["src/setting.rs"],
  [("checksum", "src/setting.rs Setting::calculate_checksum"), ("enum magic values and labels", "src/setting.rs option enums"), ("file-type selection", "src/setting.rs SettingType")],
  ["Setting::read_args, Setting::write, Display of option values, default constructors, SettingType::from_filename"])

p("C08", "Database rows are decoded exactly as stored",
  "For every well-formed plain or extended PDB file, iterating a table yields exactly the rows marked present, once each, in page order and by increasing heap offset within a page, and every field and string of every row type equals what an independent decoder of the published format reads. "
  "Rows not marked present are never reported, and pages of unknown type are passed through without inventing rows.",
  ["inputs"], "All well-formed databases: all row types, field values, string encodings, 8- and 16-bit string offsets, any number of row groups and any pattern of deleted rows.",
  "The tests compare a few hand-written pages and row counts of two exports; deleted-row patterns, 16-bit offsets and most field values never vary.",
  ["src/pdb/mod.rs", "src/pdb/ext.rs", "src/pdb/offset_array.rs", "src/pdb/string.rs", "src/pdb/io.rs", "src/util.rs"],
  [("row groups and presence flags", "src/pdb/mod.rs RowGroup::present_rows_offsets"), ("row lookup by page type", "src/pdb/mod.rs Row / PlainRow / ExtRow"), ("string offsets", "src/pdb/offset_array.rs")],
  ["Database::iter_rows, Database::iter_pages, Debug output of rows"])

p("C09", "Saving an unmodified database changes no byte",
  "Opening any well-formed PDB file for writing, loading any set of its pages in any order or way and saving leaves every byte and the length of the file unchanged, also when repeated. "
  "A database opened non-persistently never writes to its file, whatever is read or modified in memory.",
  ["inputs", "histories"], "All well-formed databases of both types times all sequences of page loads, iterations and saves.",
  "Tests round-trip single pages in memory; no test saves a whole database with only some pages loaded.",
  ["src/pdb/io.rs", "src/pdb/mod.rs"],
  [("lazy pages are skipped, loaded pages rewritten in place", "src/pdb/io.rs LazyPage::write_options"), ("row offsets of absent rows are left alone", "src/pdb/mod.rs RowGroup::write_row_offsets")],
  ["Database::{open,load_page,iter_pages,iter_rows,flush,close}"],
  [("lazy page table", "which pages were loaded and will be rewritten", "src/pdb/io.rs LazyDatabase::pages")])

p("C10", "Database edits are saved exactly and touch nothing else",
  "Any sequence of edits to row, page or file-header fields made through an opened database and then saved or closed is seen exactly when the file is reopened. "
  "The saved file differs from the original only in the bytes of the edited fields, and unsaved edits leave the file untouched.",
  ["inputs", "histories"], "All sequences of loads, edits to any mutable field in any row or page, saves and reopens on any well-formed database.",
  "Two tests edit one or a few values in one sample file and compare with a fixed result.",
  ["src/pdb/io.rs", "src/pdb/mod.rs"],
  [("mutable row and page iteration", "src/pdb/io.rs iter_rows / PageIterator"), ("in-place save", "src/pdb/io.rs flush")],
  ["Database::{iter_rows,load_page,get_header_mut,flush,close} and the resulting bytes"])

p("C11", "Allocating rows in a page never overlaps, leaks or loses rows",
  "However many rows are allocated and inserted in a data page, each gets its own 4-byte-aligned heap space that overlaps no other row and no row index entry, the page's free, used and row counts change by exactly what was consumed, and after saving and reopening all old rows are unchanged and all inserted rows are read back equal. "
  "When the remaining free space cannot hold a request of any size, the allocation is refused and the page is left exactly as it was.",
  ["inputs", "histories"], "All starting pages (any fill level, row count and deletion pattern), all sequences of requested sizes up to the 16-bit maximum.",
  "Five tests allocate at chosen fill levels; sequences across several row groups up to exhaustion and extreme sizes are never run.",
  ["src/pdb/mod.rs", "src/pdb/bitfields.rs"],
  [("page allocator", "src/pdb/mod.rs Page::allocate_row"), ("packed row counters", "src/pdb/bitfields.rs PackedRowCounts"), ("row group growth", "src/pdb/mod.rs RowGroup::insert_offset / mark_offset_present")],
  ["Page::allocate_row, page header fields, bytes written"],
  [("free_size/used_size/row counts", "heap accounting of a data page", "src/pdb/mod.rs PageHeader")])

p("C12", "Page iteration follows exactly the linked pages, and ends",
  "Iterating a table visits exactly the pages linked from its first to its last page, in link order and each once, whichever of them were already loaded, and loading a page by index returns the page stored at that index. "
  "If links go backwards, form a cycle or leave the file, iteration ends with an error after at most as many steps as the file has pages; unknown tables, page types and page numbers are reported as errors.",
  ["inputs", "histories"], "All page link structures, table definitions and prior load histories.",
  "One test takes two pages of an intact export; broken link structures are never built.",
  ["src/pdb/io.rs"],
  [("strictly increasing page order", "src/pdb/io.rs PageIterator::next"), ("table lookup", "src/pdb/mod.rs Header::find_table")],
  ["Database::{iter_pages,iter_pages_for_table,load_page}"])

p("C13", "The playlist tree mirrors the stored nodes and is always finite",
  "The reported playlist tree contains every stored node reachable from the root exactly once, under its stored parent, in stored order, with its name, identifier and kind. "
  "Node tables with cycles, duplicate identifiers, orphans or deep nesting always produce a finite tree or an error, never a crash or an endless expansion.",
  ["inputs"], "All sets of playlist-tree rows, including cyclic and duplicated ones.",
  "The integration tests read two fixed trees.",
  ["src/device.rs", "src/main.rs"],
  [("tree construction", "src/device.rs get_playlists"), ("tree listing", "src/main.rs list_playlists")],
  ["device::get_playlists, rekordcrate list-playlists"])

p("C14", "Playlist export writes every playlist, and only inside the output folder",
  "Exporting playlists writes one M3U file per playlist at the folder path given by its ancestors' names, listing the absolute file paths of its known tracks in entry order, one per line. "
  "No playlist's file overwrites another's, and whatever the names in the database nothing is created or changed outside the output directory.",
  ["inputs"], "All databases: any names (including path separators, dots and absolute paths), any tree shape, any entry order, missing tracks.",
  "No test runs the export command.",
  ["src/main.rs", "src/device.rs"],
  [("export walk", "src/main.rs export_playlists")],
  ["rekordcrate export-playlists: files created"])

p("C15", "Export settings load independently and completely",
  "Loading the settings of a device export reports every option of each readable settings file with exactly the stored value, and reports every option of a missing or damaged file as absent without affecting the others. "
  "The printed listing shows each option on its own line under its own label with that value, or as missing.",
  ["inputs", "fault_sequences"], "All combinations of present, missing, truncated, damaged and swapped settings files with any option values.",
  "The tests load two fixed exports.",
  ["src/device.rs", "src/setting.rs"],
  [("per-file loading", "src/device.rs DeviceExportLoader::load_settings"), ("field transfer and listing", "src/device.rs Settings")],
  ["DeviceExportLoader::load_settings, Display of Settings, rekordcrate list-settings"])

p("C16", "XML documents survive serialization and deserialization unchanged",
  "Serializing any rekordbox XML document value and reading it back yields an equal document, including empty collections, empty playlists and folders, nested folders, absent optional attributes and any text that XML can represent. "
  "The attributes of the output carry the documented names, entry counts equal the actual number of entries, and the attributes and elements of a well-formed file are decoded to the stored values wherever unrelated attribute order differs.",
  ["inputs"], "All document values and all well-formed documents with permuted attributes.",
  "One fixed document is round-tripped.",
  ["src/xml.rs"],
  [("serde derive and custom node (de)serializers", "src/xml.rs")],
  ["quick_xml serialization and deserialization of xml::Document"])

p("C17", "Offset-indexed strings are laid out validly and read back equal",
  "Writing any value with automatically calculated string offsets produces, for 8- and 16-bit offsets alike, a layout in which every offset points at its own item, items do not overlap, UTF-16 strings start 4-byte aligned, and reading yields the original items. "
  "Explicitly given offsets are written and honoured verbatim, and offsets that do not fit or whose width disagrees with the row are refused with an error.",
  ["inputs"], "All item sequences, starting positions, offset widths and explicit offset tables.",
  "Unit tests use a few fixed arrays with small items.",
  ["src/pdb/offset_array.rs", "src/pdb/string.rs"],
  [("offset calculation and alignment", "src/pdb/offset_array.rs OffsetArrayContainer::write_options"), ("offset width check", "src/pdb/offset_array.rs OffsetArray")],
  ["OffsetArrayContainer::{read,write}"])

p("C18", "I/O failures surface as errors and never corrupt silently",
  "If any single read, write or seek of the underlying file fails or ends early, or it returns short or interrupted transfers, the operation either completes with the same result as on a perfect file or returns an error, and never panics or reports success with wrong data. "
  "After a failed load a retry on a healthy file gives the correct page, and after a failed save the in-memory database is unchanged and a later successful save produces the correct file.",
  ["fault_sequences", "inputs"], "Every I/O operation of every read and write entry point as the point of failure, with errors, short transfers, interruptions and early end of file.",
  "All tests use in-memory cursors or healthy files that never fail.",
  ["src/pdb/io.rs", "src/anlz.rs", "src/setting.rs", "src/xor.rs", "src/pdb/mod.rs"],
  [("error propagation", "src/util.rs RekordcrateError"), ("lazy load caches only parsed pages", "src/pdb/io.rs load_page / PageIterator")],
  ["Database, ANLZ and Setting read and write entry points over a fault-injecting file"])

p("C19", "Index pages, page numbers and packed header fields keep exact values",
  "Index pages of any fill level are decoded to the stored entries (page number in the upper 29 bits, flags in the lower 3, the reserved value meaning empty) and written back with the remaining slots marked empty and the final 20 bytes zero. "
  "Page numbers and index entries accept exactly the valid ranges and refuse others with an error, page file offsets are page number times page size, and the packed row counters (13 and 11 bits) and page flags keep every representable value.",
  ["inputs"], "All 32-bit entries, all page numbers, all flags bytes, all 24-bit packed counters, all index fill levels and page sizes.",
  "The tests check two flag bytes and a few sample index pages.",
  ["src/pdb/mod.rs", "src/pdb/bitfields.rs"],
  [("index page codec", "src/pdb/mod.rs IndexPageContent / IndexEntry"), ("page number validation", "src/pdb/mod.rs PageIndex"), ("bit fields", "src/pdb/bitfields.rs")],
  ["Page::{read,write}, IndexEntry, PageIndex, PackedRowCounts, PageFlags"])

p("C20", "Command-line dumps show the file, fail cleanly and change nothing",
  "For well-formed input each dump and list command exits successfully and prints the tables, rows, sections, options or playlists stored in the file, choosing the file type from the explicit option first and the file name otherwise. "
  "For malformed or unreadable input it ends by reporting an error, never by a panic, a signal or an endless run, and no command modifies its input files.",
  ["inputs"], "All commands and option combinations over well-formed, damaged, truncated, misnamed and missing files.",
  "No test runs the command-line tool.",
  ["src/main.rs"],
  [("command dispatch and type guessing", "src/main.rs main / guess_db_type / guess_setting_type")],
  ["exit status, stdout and stderr of the rekordcrate binary, input file bytes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
