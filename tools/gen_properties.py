#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Address lookup is longest-prefix match",
 "Looking up an address in any database returns the most specific network of that database which contains the address, together with that network's country, AS number and flags, no matter how the networks nest or where they sit in the address space. If no network of the database contains the address, the lookup succeeds and returns nothing. An answer never depends on earlier lookups or enumerations on the same handle.",
 ["inputs", "histories"], "every database that can be written (any set of IPv4 and IPv6 networks, /0 to host length, nested or not), every IPv4/IPv6 address, every order of queries on one handle",
 "The tests look up two or three addresses in flat databases; nested networks, host routes, sibling branches and misses inside a covering network are never asked for.",
 ["src/database.c", "src/network.c", "src/libloc/address.h"],
 [("recursive descent through the on-disk tree, most specific leaf first", "src/database.c:__loc_database_lookup"), ("leaf check and network reconstruction", "src/database.c:__loc_database_lookup_handle_leaf, src/network.c:loc_network_new_from_database_v1")],
 ["loc_database_lookup", "loc_database_lookup_from_string"])

prop("C02", "Writing a database preserves every address's attribution",
 "After any set of networks has been added in any order and the database written and opened again, every address has exactly the country, AS number and flags that the most specific added network containing it had, and every address no added network contains has none. The writer may drop a network or join two neighbours only where this changes no address's attribution. Adding a network twice is refused without disturbing the first, and a writer may be written several times, with further additions in between, each file reflecting what had been added by then.",
 ["inputs", "histories"], "every multiset of networks with attributes, every insertion order, every interleaving of additions and writes",
 "Deduplication and merging are tested on four fixed lists; the interplay of nesting, equal attributes, sibling merges and repeated writes is combinatorial.",
 ["src/writer.c", "src/network-tree.c", "src/network-list.c", "src/network.c", "src/database.c"],
 [("tree cleanup: dedup, merge, pruning", "src/network-tree.c:loc_network_tree_cleanup"), ("tree and network data serialisation", "src/writer.c:loc_database_write_networks")],
 ["loc_writer_add_network", "loc_writer_write", "loc_database_lookup"])

prop("C03", "Network enumeration is complete, ordered, duplicate-free and filtered",
 "Enumerating the networks of a database yields every stored network exactly once with its attributes, in ascending order of address and then prefix length, and nothing else. With filters set, it yields exactly those networks that are of the requested family and match at least one of the requested countries, AS numbers or flags. Every network the enumeration yields is also what a lookup of an address covered by no more specific network returns.",
 ["inputs", "configurations"], "every database, every combination of family, country, AS and flag filters",
 "Tests enumerate one fixed database without checking the set, its order, or combined filters.",
 ["src/database.c", "src/country-list.c", "src/as-list.c"],
 [("depth-first walk over the on-disk tree", "src/database.c:__loc_database_enumerator_next_network"), ("filter", "src/database.c:loc_database_enumerator_match_network")],
 ["loc_database_enumerator_next_network", "loc_database_enumerator_set_countries", "loc_database_enumerator_set_asns", "loc_database_enumerator_set_flag", "loc_database_enumerator_set_family"])

prop("C04", "Flattened enumeration is a disjoint exact partition",
 "A flattened enumeration yields, in ascending order, networks that never overlap, whose union is exactly the set of addresses a lookup would attribute to a network matching the filters. Every yielded network carries the same country, AS number and flags that a lookup of any of its addresses returns.",
 ["inputs", "configurations"], "every database with arbitrarily deep nesting, every filter combination",
 "Only the number of results on a real-world database is ever compared; exactness for all nestings needs an independent model.",
 ["src/database.c", "src/network.c", "src/network-list.c"],
 [("splitting a network around its subnets", "src/database.c:__loc_database_enumerator_next_network_flattened, src/network.c:loc_network_exclude_list")],
 ["loc_database_enumerator_next_network with LOC_DB_ENUMERATOR_FLAGS_FLATTEN"])

prop("C05", "Bogon listing is the exact complement of attributed space",
 "For each address family in which a database holds at least one network with a country, listing bogons terminates and yields, in ascending order and without overlap, networks that cover exactly those addresses of the family that lie in no network with a country code. A family filter restricts the list to that family and changes nothing else.",
 ["inputs", "configurations"], "every database, including host-sized gaps, networks touching either end of the address space or the IPv4-mapped block, nested and adjacent networks, networks without a country",
 "The existing test prints bogons of one database and compares nothing; gap arithmetic has many boundary cases.",
 ["src/database.c", "src/network-list.c", "src/libloc/address.h"],
 [("gap tracking", "src/database.c:__loc_database_enumerator_next_bogon"), ("range to CIDR conversion", "src/network-list.c:loc_network_list_summarize")],
 ["loc_database_enumerator_next_network with LOC_DB_ENUMERATE_BOGONS"])

prop("C06", "AS, country and metadata records survive a write/read round trip",
 "Every AS and country added to a writer in any order is found again after writing: fetching it by number or code returns the name and continent it was given (a continent or name that was never given does not appear), fetching anything that was not added finds nothing, and enumerating yields all of them once, sorted. Searching ASes by text yields exactly those whose name contains the text ignoring case. Vendor, description, license and creation time read back as written, for strings of any length.",
 ["inputs", "histories"], "every set and insertion order of ASes (0 to 2^32-1), countries, continents and strings",
 "Tests add a handful of records in sorted order with short strings; search correctness depends on table order and on string pool offsets.",
 ["src/writer.c", "src/database.c", "src/as.c", "src/country.c", "src/stringpool.c", "src/as-list.c", "src/country-list.c"],
 [("binary search over record tables", "src/database.c:loc_database_get_as, loc_database_get_country"), ("record serialisation", "src/writer.c:loc_database_write_as_section, loc_database_write_countries"), ("string pool", "src/stringpool.c")],
 ["loc_database_get_as", "loc_database_get_country", "loc_database_enumerator_next_as", "loc_database_enumerator_next_country", "loc_database_get_vendor"])

prop("C07", "Signature verification accepts exactly what was signed",
 "A database verifies with a public key if and only if it was written with the matching private key in either of the two key slots, whatever type the other key has and however the stream it was opened from is used meanwhile. Changing any byte outside the stored signatures, truncating the file or appending to it makes verification fail, as does an unsigned database, a wrong key or a file that is not a key.",
 ["inputs", "fault_sequences"], "every database content and size, every key-slot combination, every single- or multi-byte modification, truncation or extension",
 "One database, two keys and no tampering are tested.",
 ["src/database.c", "src/writer.c"],
 [("signature creation", "src/writer.c:loc_writer_create_signature"), ("verification", "src/database.c:loc_database_verify")],
 ["loc_database_verify", "loc_writer_new"])

prop("C08", "Corrupt or truncated databases never crash, hang or leak the process",
 "Opening any file whatsoever as a database, and running every read operation on what could be opened, never reads or writes outside the file's contents, crashes, loops forever or recurses without bound; it either fails cleanly or returns objects whose fields can be read safely. This includes files cut short, files with arbitrary offsets and lengths, and network trees that are cyclic or deeper than an address is long.",
 ["inputs", "fault_sequences"], "every byte string used as a database file, every read operation",
 "The tests open three malformed files; the space of corruptions is unbounded.",
 ["src/database.c", "src/stringpool.c", "src/network.c", "src/as.c", "src/country.c"],
 [("boundary checks", "src/database.c:__loc_database_check_boundaries, loc_database_object, loc_database_map_objects"), ("string pool access", "src/stringpool.c:loc_stringpool_get"), ("node stack", "src/database.c:loc_database_enumerator_stack_push_node")],
 ["loc_database_new", "loc_database_lookup", "loc_database_enumerator_*", "loc_database_verify"])

prop("C09", "A database write either completes or reports failure",
 "If writing a database reports success, the file on disk is complete and can be opened and read back in full. If the output cannot take all the data at any point (disk full, I/O error, file size limit), writing terminates and reports failure.",
 ["fault_sequences", "inputs"], "every database, every byte position and kind at which the output stream fails",
 "No test injects an output failure.",
 ["src/writer.c", "src/stringpool.c"],
 [("section writers and page alignment", "src/writer.c:loc_writer_write, align_page_boundary")],
 ["loc_writer_write"])

prop("C10", "Network arithmetic agrees with CIDR semantics",
 "For all networks, the first and last address, prefix and family are those CIDR defines; containment of an address, overlap, is-subnet-of, and the split into two halves agree with the sets of addresses the networks denote, and the halves inherit country, AS number and flags. Comparison is a total order by first address, then prefix length, with equality exactly for the same address block.",
 ["inputs"], "every IPv4 and IPv6 address, prefix, and pair of networks",
 "Tests sample about ten fixed networks.",
 ["src/network.c", "src/libloc/address.h", "src/address.c"],
 [("masking", "src/libloc/address.h:loc_prefix_to_bitmask, loc_address_and, loc_address_or"), ("relations", "src/network.c:loc_network_overlaps, loc_network_is_subnet, loc_network_subnets, loc_network_cmp")],
 ["loc_network_new", "loc_network_matches_address", "loc_network_overlaps", "loc_network_is_subnet", "loc_network_subnets", "loc_network_cmp"])

prop("C11", "Excluding networks from a network is exact set difference",
 "Excluding from a network one or several networks that lie inside it yields an ordered list of non-overlapping networks covering exactly the addresses of the network that are in none of the excluded ones. The pieces keep the country, AS number and flags of the original network. Excluding a network from itself leaves nothing.",
 ["inputs"], "every network and every list of excluded networks (nested, duplicate, adjacent, host-sized)",
 "Two fixed examples are tested.",
 ["src/network.c", "src/network-list.c"],
 [("recursive halving", "src/network.c:__loc_network_exclude"), ("list exclusion work list", "src/network.c:loc_network_exclude_list")],
 ["loc_network_exclude", "loc_network_exclude_list"])

prop("C12", "Network, AS and country lists behave as (sorted) sets",
 "Under any sequence of additions, removals from either end, merges and clears, a network list holds each distinct network once in ascending order, membership and size agree with that, and indexing, popping the first and popping the last return the elements the order implies. AS and country lists hold each AS number or country code once, keep insertion order until sorted, and are in ascending order after sorting. Any element taken from a list stays usable after the list is gone.",
 ["histories", "inputs"], "every operation sequence, list sizes beyond the growth thresholds",
 "Tests push six networks in one order; list growth and mid-list insertion or removal are not explored.",
 ["src/network-list.c", "src/as-list.c", "src/country-list.c"],
 [("binary search insertion", "src/network-list.c:loc_network_list_find, loc_network_list_push"), ("duplicate check", "src/as-list.c:loc_as_list_append, src/country-list.c:loc_country_list_append")],
 ["loc_network_list_*", "loc_as_list_*", "loc_country_list_*"])

prop("C13", "Reverse pointer names follow RFC 1035 / RFC 3596",
 "For every network whose prefix falls on an octet (IPv4) or nibble (IPv6) boundary, the reverse pointer is the reversed sequence of exactly the prefix's octets or nibbles followed by the given or default suffix, with a leading wildcard label unless the network is a single host. Every other network is refused.",
 ["inputs"], "every network and suffix",
 "Seven fixed examples are tested.",
 ["src/network.c", "src/libloc/address.h"],
 [("name construction", "src/network.c:loc_network_reverse_pointer4, loc_network_reverse_pointer6")],
 ["loc_network_reverse_pointer"])

prop("C14", "Address and network text is parsed strictly and printed canonically",
 "Every textual IPv4 or IPv6 address, with or without a prefix length in range, is accepted and denotes the network or address it spells, with host bits cleared and the family's maximum prefix as default; printing a network and parsing it again gives the same network. Text that is not an address, or whose prefix is empty, non-numeric, negative, out of range or followed by anything else, is rejected with an error instead of being read as a different network.",
 ["inputs"], "every string",
 "Tests parse about a dozen literals and three malformed ones.",
 ["src/address.c", "src/network.c"],
 [("parser", "src/address.c:loc_address_parse"), ("formatter", "src/address.c:loc_address_str, src/network.c:loc_network_str")],
 ["loc_network_new_from_string", "loc_database_lookup_from_string", "loc_network_str"])

prop("C15", "Objects are memory-safe and leak-free under any sequence of API calls",
 "Under any sequence of library calls that takes and drops references correctly, including calls that fail, no object is freed while a reference is held, nothing is accessed after it was freed, and when the last reference has been dropped all memory has been released. Setting a name, code or filter again and again, and clearing a name or code, has the effect of the last call only.",
 ["histories", "inputs"], "every sequence of creating, modifying, sharing and dropping contexts, writers, databases, enumerators, networks, lists, ASes and countries, with failing calls mixed in",
 "Tests run one straight-line history each and check neither leaks nor invalid accesses.",
 ["src/network.c", "src/network-tree.c", "src/network-list.c", "src/writer.c", "src/database.c", "src/as.c", "src/country.c", "src/libloc.c"],
 [("reference counting", "src/*.c: *_ref, *_unref, *_free"), ("setter replacement", "src/as.c:loc_as_set_name, src/country.c:loc_country_set_name, src/database.c:loc_database_enumerator_set_string")],
 ["the public C API"])

prop("C16", "The Python binding gives the library's answers or a proper exception",
 "For every database and argument, the Python module's lookups, searches, enumerations, network and record operations return the same values as a model of the data that was written, with absent names, AS numbers and records as None and AS numbers of the full 32-bit range. Invalid arguments raise an exception of the documented kind; no call crashes the interpreter, returns an error without an exception, or leaves an object unusable.",
 ["inputs", "histories"], "every database content, every argument (valid, out of range, malformed, wrong type), every interleaving of iterators",
 "The Python tests that use a database cannot run without one; the others cover five literals.",
 ["src/python/database.c", "src/python/network.c", "src/python/as.c", "src/python/country.c", "src/python/writer.c", "src/python/locationmodule.c"],
 [("argument conversion and error mapping", "src/python/*.c")],
 ["the location Python module"])

prop("C17", "The Lua and Perl bindings give the library's answers",
 "For every database and argument, lookups, AS and country queries, network attributes and enumerations through the Lua and Perl modules return the same values as a model of the data that was written. Addresses, AS numbers or codes that are not in the database yield nil/undef or an ordinary error of the language, never a crash of the interpreter. A log callback receives the messages up to the level that was set, regardless of the coroutine it was set in and of errors that it raises.",
 ["inputs", "histories"], "every database content and argument",
 "Seven literal assertions in Lua and five in Perl on one database.",
 ["src/lua/database.c", "src/lua/network.c", "src/lua/as.c", "src/lua/country.c", "src/lua/location.c", "src/perl/Location.xs"],
 [("argument conversion and nil mapping", "src/lua/*.c, src/perl/Location.xs")],
 ["require('location') in Lua", "use Location in Perl"])

prop("C18", "Exported files denote exactly the selected addresses",
 "For every database and selection of countries, special codes (A1, A2, A3, XD) and AS numbers, each exported set, in every output format and family, contains exactly the addresses of that family which a lookup attributes to that country, flag or AS, each address once, and is well-formed for its format (a set for ipset has a hash size for the number of its networks, of which it uses at most three quarters unless they are few). An object's set does not depend on which other objects are exported with it.",
 ["inputs", "configurations"], "every database, every selection, every format and family, to files and to standard output",
 "The export test needs a database that is not available and compares nothing but absence of errors.",
 ["src/python/location/export.py", "src/scripts/location.in", "src/database.c"],
 [("network selection and dispatch", "src/python/location/export.py:Exporter.export"), ("format writers", "src/python/location/export.py:*OutputWriter")],
 ["location export", "location.export.Exporter"])

prop("C19", "Updates install only a verified, recent database, and try all mirrors",
 "Whatever the mirrors answer (HTTP errors, nothing at all, garbage, truncated or corrupt compression, outdated, unsigned or wrongly signed databases), in any order, a download returns a world-readable file with exactly the content of a mirror's database that opens, is not older than requested and verifies with the given key, and it succeeds whenever at least one mirror offers one. Otherwise it reports that nothing was found, leaves no temporary file behind, and an update leaves the installed database untouched. Mirrors are asked for nothing but the compressed database of this version of the format (1/location.db.xz). An update downloads nothing if the installed database is already the latest, or younger than the interval given with --cron.",
 ["fault_sequences", "inputs", "configurations"], "every list of mirrors and every sequence of mirror responses",
 "There is no test of the downloader.",
 ["src/python/location/downloader.py", "src/scripts/location.in"],
 [("mirror loop", "src/python/location/downloader.py:Downloader.download"), ("acceptance check", "src/python/location/downloader.py:Downloader._check_database"), ("installation", "src/scripts/location.in:handle_update")],
 ["location.downloader.Downloader.download", "location update"])

prop("C20", "The command line reports what the database says, with honest exit codes",
 "For every database and arguments, the location tool's version, lookup, get-as, search-as, list-*, dump and export commands print or write exactly the data of the database that answers the question, whether standard output is a pipe, a file, or appended to one. lookup and get-as exit with status 0 if everything asked for was found and non-zero if something was not found or was invalid; searches and lists exit with 0 and print all matches, and non-zero for invalid arguments; verify exits with 0 exactly if the signature verifies; a database that cannot be opened gives an error message and a non-zero status. No command ends in a traceback; data missing from a record (name, continent, AS entry) does not make a command fail.",
 ["inputs", "configurations"], "every database and argument list of every read-only subcommand",
 "The command line tool is not tested at all.",
 ["src/scripts/location.in", "src/python/location/export.py"],
 [("command handlers", "src/scripts/location.in:CLI.handle_*")],
 ["location lookup|dump|get-as|search-as|list-*|version|verify"])

prop("C21", "DNS version discovery parses any reply safely and exactly",
 "For a well-formed TXT reply carrying an HTTP-style date, with or without preceding CNAMEs, discovering the latest version yields exactly that point in time; every other reply, of any bytes and length, yields an error. No reply makes the library read or write outside the reply.",
 ["inputs", "fault_sequences"], "every byte string as DNS reply, every timestamp",
 "There is no test; the function needs a name server.",
 ["src/resolv.c"],
 [("reply parser", "src/resolv.c:loc_discover_latest_version")],
 ["loc_discover_latest_version"])

prop("C22", "The importer records exactly the plausible networks and ASes of the registries",
 "From the dumps and extended statistics of the regional registries, in any layout, the importer records exactly the address blocks they name, split into CIDR networks, each with the country given for it, and exactly the public AS numbers with the name of their organisation or handle. Networks and AS numbers that are private, reserved, too large or malformed are left out, and no malformed block or line aborts the import or is recorded under another block's attributes. A source that cannot be fetched or read completely keeps the data of its previous import, does not keep the other sources from being imported, and makes the command exit with a non-zero status (which of two registries counts when both name the same addresses is left open).",
 ["inputs", "histories", "fault_sequences"], "every sequence of registry blocks and lines, every history of imports with failing sources",
 "The importer needs a PostgreSQL server and live registries, and has no tests.",
 ["src/scripts/location-importer.in", "src/python/location/database.py"],
 [("block parsers", "src/scripts/location-importer.in:_parse_inetnum_block, _parse_autnum_block, _parse_org_block, _parse_line"), ("plausibility checks", "src/scripts/location-importer.in:_check_parsed_network, _check_parsed_asn"), ("sources and transactions", "src/scripts/location-importer.in:handle_update_whois, src/python/location/database.py")],
 ["location-importer update-whois"])

prop("C23", "Database files depend only on what was put into them",
 "Two databases built from the same records in the same order are byte for byte identical apart from their creation time and signatures, whatever happened in the process before. Copying a database record by record through the C library yields a database with the same answers to every query.",
 ["inputs", "histories"], "every database content, every prior process history",
 "No test compares two files.",
 ["src/writer.c", "src/country.c", "src/network.c"],
 [("record initialisation", "src/writer.c, src/network.c:loc_network_to_database_v1, src/country.c:loc_country_to_database_v1")],
 ["loc_writer_write"])

prop("C24", "Country codes and network flags are validated and matched consistently",
 "A country code is accepted wherever codes are accepted exactly if it consists of two letters A to Z of which the first is not X, and anything else is refused and leaves the object unchanged. A network matches a code exactly if its country is that code or, for the special codes A1, A2, A3 and XD, if the corresponding flag is set; setting attributes on one object never affects another.",
 ["inputs", "histories"], "every string as a code, every combination of flags, every sequence of set operations",
 "Tests check five literal codes.",
 ["src/country.c", "src/network.c", "src/libloc/country.h", "src/country-list.c"],
 [("validation", "src/country.c:loc_country_code_is_valid, loc_country_special_code_to_flag"), ("matching", "src/network.c:loc_network_matches_country_code")],
 ["loc_country_new", "loc_network_set_country_code", "loc_network_matches_country_code", "loc_country_code_is_valid"])

prop("C25", "Written databases combine the imported sources by precedence",
 "The database that the importer writes attributes every address as its sources say: the registries are overruled by geofeeds (only within the networks that published them), these by the feeds of networks and of ASes, and these by the overrides for networks and for ASes; within a source the most specific record counts, and an attribute that a record leaves open is taken from the source below. The AS number of an address is the one of its most specific announcement. ASes carry their name with overrides applied, countries their name and continent, and the file carries the given vendor, description and license and a signature that verifies with the given key.",
 ["inputs"], "every content of the importer's tables",
 "The importer needs a PostgreSQL server and has no tests.",
 ["src/scripts/location-importer.in", "src/python/writer.c"],
 [("query of all networks", "src/scripts/location-importer.in:handle_write")],
 ["location-importer write"])

prop("C26", "Updates of a source replace its data exactly or not at all",
 "Importing countries, announcements, overrides, network and AS feeds or geofeeds leaves exactly the valid records of the source in the database: what the source no longer has disappears and what it has is there with its attributes. If the source cannot be fetched, is broken or the database fails, the data imported before stays as it was, other sources are updated all the same, and the command does not hang. A malformed record does not affect any other record.",
 ["inputs", "histories", "fault_sequences"], "every history of updates, every content of the sources, faults of the sources and of the database at any statement",
 "The importer needs a PostgreSQL server, a routing daemon and live sources, and has no tests.",
 ["src/scripts/location-importer.in", "src/python/location/database.py"],
 [("announcements", "src/scripts/location-importer.in:handle_update_announcements"), ("feeds", "src/scripts/location-importer.in:handle_update_feeds, handle_update_geofeeds"), ("overrides", "src/scripts/location-importer.in:handle_update_overrides"), ("transactions", "src/python/location/database.py:Transaction")],
 ["location-importer update-*", "location-importer import-countries"])

prop("C27", "The copy tool preserves everything that is in a database",
 "For every database, copying it with tools/copy.py yields a database with the same vendor, description and license, the same ASes and countries with their names and continents, and the same country, AS number and flags for every address, whatever is missing from the records. The original is not modified, a file that is there before is replaced, and something that is not a database is not copied and gives a non-zero exit status.",
 ["inputs"], "every database",
 "The tool has no tests.",
 ["tools/copy.py", "src/python/writer.c", "src/python/database.c"],
 [("copying", "tools/copy.py:copy_all")],
 ["tools/copy.py"])

prop("C28", "The bindings give back what they take",
 "Under any sequence of calls of the Python, Lua and Perl modules, including calls that fail and arbitrary arguments, the memory and the files that the module and the library have taken are released when the objects are gone: repeating the same calls any number of times does not make the memory in use or the number of open files grow.",
 ["inputs", "histories"], "every sequence of calls, valid or not, repeated any number of times",
 "Tests call each function once and never look at memory.",
 ["src/python/*.c", "src/lua/*.c", "src/perl/Location.xs", "src/perl/typemap"],
 [("deallocation", "src/python/*.c:*_dealloc, src/lua/*.c:*_gc, src/perl/Location.xs:DESTROY"), ("references of results", "src/python/database.c, src/python/network.c, src/lua/database.c, src/perl/Location.xs")],
 ["import location", "require('location')", "use Location"])

prop("C29", "Running out of memory is reported and does no harm",
 "When memory cannot be allocated at any point of a call into the library (reading, searching, enumerating, writing, splitting and excluding networks, lists), the call either succeeds with the right result or fails; it never crashes, never returns a wrong or incomplete result as a success, and loses neither memory nor files. What the objects held before is unchanged: the same call succeeds when it is repeated with enough memory, and the answers and the database written at the end are the same as if memory had never been short.",
 ["faults", "histories"], "every request for memory of every call failing, once or from then on, in every sequence of calls",
 "Tests never run out of memory, so that no error path of an allocation is ever executed.",
 ["src/*.c"],
 [("growing tables", "src/network-list.c:loc_network_list_grow, src/as-list.c, src/country-list.c, src/stringpool.c, src/writer.c"), ("network tree", "src/network-tree.c"), ("reading", "src/database.c"), ("writing", "src/writer.c:loc_writer_write")],
 ["every function of libloc"])

prop("C30", "Sources are retrieved completely, or not at all",
 "What the downloader retrieves for the importer is, byte for byte, what the server has: files that are compressed with gzip are unpacked, other files are left alone, whatever the type or length of the content, the encoding of the transfer and redirects. If the server fails, is not there, does not speak HTTP, or the connection breaks or stalls before everything was transferred, this is reported (within the given time, or a minute or so) as an error, and a part of a file is never passed on as if it was all of it. Every attempt stands for itself, and no temporary files are left behind.",
 ["inputs", "fault_sequences"], "every file, every split into transfers, every point at which a transfer breaks",
 "Tests never talk to a server.",
 ["src/python/location/downloader.py"],
 [("retrieving", "src/python/location/downloader.py:Downloader.retrieve")],
 ["Downloader.retrieve", "location-importer update-*"])

prop("C31", "Files follow format version 1, and every file of that format is read",
 "What the writer produces is, read by the published definition of format version 1 alone, a file whose header, sections, records in network byte order, strings and tree of networks say what was put in, with signatures over exactly the bytes that are defined to be signed. Vice versa, every file that follows the definition is opened, and answers according to its content, even if this library would have arranged it in another way (order of sections and strings, tree nodes in any order, padding, unused bytes). So files can be exchanged between releases.",
 ["inputs"], "every database, every arrangement of a file that the definition allows",
 "Tests only read what the same code has written, so a change that is made to both sides goes unnoticed.",
 ["src/libloc/format.h", "src/writer.c", "src/database.c", "src/stringpool.c", "src/as.c", "src/country.c", "src/network.c"],
 [("writing", "src/writer.c:loc_writer_write"), ("reading", "src/database.c:loc_database_open"), ("records", "src/network.c, src/as.c, src/country.c: *_to_database_v1, *_new_from_database_v1")],
 ["loc_writer_write", "loc_database_new"])

prop("C32", "Contexts are independent of each other",
 "Threads that share no objects do not disturb each other: with a context of its own, each thread can write databases, open them (even the same file), look addresses up, enumerate, and parse, print, split and exclude networks, and sees exactly what it would see if it was alone. There are no data races in the library under any interleaving of such threads.",
 ["inputs", "schedules"], "every mix of operations in any number of threads, every interleaving",
 "Tests have one thread only.",
 ["src/*.c"],
 [("addresses as text", "src/address.c:loc_address_str"), ("contexts", "src/libloc.c")],
 ["every function of libloc"])

prop("C33", "Files that cannot be read are never taken for read",
 "When a file or key cannot be read (or sought, duplicated or mapped) at any point while a database is opened, verified, or read back to be signed, the call terminates and either reports failure or its result is the right one: no signature is ever accepted or made for anything but the whole content of the file. Nothing is lost by the failure: the same call succeeds afterwards, and memory and files are given back.",
 ["inputs", "fault_sequences"], "every reading function failing at every point, once or for good, entirely or after a part",
 "Tests never have a file that cannot be read.",
 ["src/database.c", "src/writer.c"],
 [("verification", "src/database.c:loc_database_verify"), ("signing", "src/writer.c:loc_writer_create_signature"), ("opening", "src/database.c:loc_database_open, loc_database_mmap"), ("keys", "src/writer.c:parse_private_key")],
 ["loc_database_new", "loc_database_verify", "loc_writer_new", "loc_writer_write"])

prop("C34", "Log messages go where they are told to, and change nothing",
 "The log level of a context is that of errors, what the environment variable LOC_LOG says, or what was set last; exactly the messages up to that level are passed, once each, to the callback or function that was set last, and otherwise printed to standard error, and nothing else is ever printed. No operation gives another result at another level, also in a library that was built with debugging.",
 ["inputs", "histories"], "every sequence of operations, levels and destinations",
 "Tests write to standard error at one level, and nobody looks at it.",
 ["src/libloc.c", "src/libloc/private.h", "every DEBUG, INFO and ERROR in src/*.c"],
 [("contexts", "src/libloc.c:loc_log, loc_set_log_callback, loc_set_log_fn, loc_set_log_priority"), ("dumps", "src/libloc/private.h:hexdump")],
 ["loc_set_log_callback", "loc_set_log_fn", "loc_set_log_priority", "LOC_LOG"])

prop("C35", "Downloads go through the proxies that are set for them",
 "Everything that is downloaded (databases from mirrors, sources of the importer, and what they are redirected to) is asked for, exactly once, from the proxy that http_proxy or https_proxy names for the scheme of its URL, with the credentials given there, and from the server itself if there is none or if no_proxy exempts the host; no other proxy or server is contacted. What is downloaded by https is encrypted all the way to the server: no proxy sees more than its name, and the server never sees the credentials of the proxy. A proxy that does not work makes the next mirror be tried.",
 ["configurations", "inputs", "fault_sequences"], "every setting of the proxy variables, URL, redirection and list of mirrors",
 "There is no test of the downloader, and none of it uses proxies.",
 ["src/python/location/downloader.py"],
 [("requests", "src/python/location/downloader.py:Downloader.__init__, _make_request, _send_request")],
 ["location.downloader.Downloader.download", "location.downloader.Downloader.retrieve"])

prop("C36", "Full disks and crashes never damage what is installed, nor go unnoticed",
 "Wherever an update is killed, and whichever change to the file system fails (no space, I/O errors, missing permissions; once or from then on), the installed database is, byte by byte, either the previous one or the complete, verified new one, and programs which have the previous one open keep seeing it unchanged. An update that fails exits with a non-zero status and a message, and leaves no temporary file behind (if it may remove it); one that exits with 0 has installed the new database, readable for everyone; once the trouble is over, the next update works. Likewise, every command that prints, dumps or exports exits with 0 only if all of its output was written, and otherwise with a message and without a traceback.",
 ["crash_points", "fault_sequences", "inputs"], "every point at which the tool is killed or a change to the file system fails, for every database, list of mirrors and command",
 "No test runs the tool, and none makes the file system fail.",
 ["src/scripts/location.in", "src/python/location/downloader.py", "src/python/location/export.py"],
 [("installation", "src/scripts/location.in:handle_update"), ("temporary file", "src/python/location/downloader.py:Downloader.download"), ("output", "src/scripts/location.in:run, handle_dump; src/python/location/export.py:OutputWriter")],
 ["location update", "location dump", "location export", "location list-*"])

prop("C37", "Python is never given a wrong answer when memory runs out",
 "When memory cannot be allocated at any point of a call through the Python module (opening, looking up, fetching, enumerating, searching, verifying, operations on networks, ASes and countries, writing), the call either returns exactly what it would return otherwise, or raises an exception. It never says that something does not exist which exists, never returns part of a result or too many, never leaves the interpreter with an error that is not raised, and never crashes it (a verification may also end with False). The same call gives the same result as ever once there is enough memory again.",
 ["faults", "inputs"], "every request for memory that the library and the module make in every call, failing alone or with all that follow",
 "Tests never run out of memory, so that none of the module's error paths is ever executed.",
 ["src/python/*.c", "src/database.c", "src/network.c"],
 [("results of the library turned into objects or exceptions", "src/python/database.c, src/python/network.c, src/python/writer.c, src/python/as.c, src/python/country.c"), ("nothing found or failed", "src/database.c:loc_database_get_as, loc_database_get_country")],
 ["location.Database", "location.Network", "location.AS", "location.Country", "location.Writer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
