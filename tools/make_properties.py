import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=state,meaning='state the property depends on',where=files[0])]
    if observe: a['observe_at']=[observe]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))
DEC='src/decryptors/default/src/mlle_cr_decrypt.c'; ENC='src/decryptors/default/src/mlle_cr_encrypt.c'
p('C01','Encrypted library files are served back byte for byte',
 'For every library tree whose files were encrypted in the documented order (package.mo of a directory before the other files of that directory and below), every FILE request of a trusted tool returns exactly the bytes that were encrypted, and files that are not .moc are returned unchanged. This holds for every file content and length (from empty to several gigabytes; less than 2 GB for encrypted ones), every directory depth, directories with and without package.mo, and whatever the order of the requests in one session or over several sessions; while a file is replaced (by renaming a new version to its name) each request returns one version or the other.',
 ['inputs','histories','schedules'],'all library trees (names, depth, package.mo presence), all file contents, all encryption orders that respect the rule, all request sequences over one or more LVE sessions',
 'the tests encrypt two fixed files and read each of them in one fixed order; key masks depend on the tree and on what was requested before',
 ['src/lve/mlle_lve_file.c','src/common/mlle_io.c',DEC,ENC,'src/encrypt_decrypt/encrypt_file.c'],
 [('mlle_mask_key','directory masks when encrypting, '+ENC),('mlle_demask_key/mlle_store_keymask','mask lookup and cache when decrypting, '+DEC),('mlle_lve_file','reads, decrypts and sends a file, src/lve/mlle_lve_file.c')],
 'mlle_cr_context.keymask_map','FILECONT reply of the LVE')
p('C02','A damaged or misplaced encrypted file never yields contents',
 'If an encrypted file is not exactly what the encryptor wrote for that place in the library (any bit flipped, bytes removed, inserted, swapped or appended, truncated to any length, empty, exchanged with a file that was encrypted under another mask, or - unless the session has read its mask before - its package.moc altered or missing), the LVE answers a FILE request for it with an ERROR and never with FILECONT, and decrypt_file fails without leaving an output file. The LVE keeps serving the intact files of the library afterwards, and serves the file correctly once it has been restored.',
 ['inputs','histories','fault_sequences'],'all alterations of encrypted files (bit flips at every position, every truncation length, block swaps, splices, relocations) and all request orders around them',
 'tests never alter an encrypted file; the guarantee is about every one of the possible alterations',
 [DEC,'src/lve/mlle_lve_file.c','src/encrypt_decrypt/decrypt_file.c'],
 [('mlle_cr_decrypt','length checks, CBC padding and HMAC comparison, '+DEC),('mlle_demask_key','key depends on the directory, '+DEC)],
 'mlle_cr_context.keymask_map','ERROR reply of the LVE; exit status and output of decrypt_file')
p('C03','File contents go only to tools with a trusted public key',
 'The LVE answers FILE with contents only if the key of the TLS client certificate is, as a whole, one of the public keys built into the LVE (in any position of the list, PEM with LF or CRLF line ends); for any other client (unknown key, look-alike key sharing modulus or part of it with a trusted key, other key size or type, trusted certificate merely appended to the chain, no certificate) every FILE is answered with ERROR, whatever else was sent before. A client that cannot prove possession of the trusted private key gets no session at all, and every trusted key is accepted.',
 ['inputs','histories','configurations'],'all client keys and certificates, TLS versions, and all command histories before the FILE request',
 'the tests connect with one trusted key only; no test tries an untrusted one',
 ['src/lve/mlle_lve_pubkey.c','src/lve/mlle_ssl_lve.c','src/common/mlle_ssl.c','src/lve/mlle_lve_file.c','src/GenPublicKeyToolH.cmake'],
 [('cert_verify_callback','takes the key from the client certificate, src/lve/mlle_ssl_lve.c'),('validate','compares with the built-in keys, src/lve/mlle_lve_pubkey.c'),('mlle_lve_file','refuses when tool_approved is 0')],
 'lve_ctx.tool_approved, global_tool_pub_key','replies of the LVE')
p('C04','The LVE follows its protocol state machine',
 'For every sequence of well-formed messages the LVE sends exactly one reply to each, in order: VERSION, then TOOLS (optional) and LIB, then any number of FEATURE, RETURNFEATURE, LICENSE, RETURNLICENSE and FILE are answered as documented (VERSION, VERSION, YES, YES/NO, YES, NOTSIMPLE, NOTSIMPLE, FILECONT/ERROR). Every command that is not valid in the current state (including commands only an LVE may send, repeated VERSION or LIB, and an empty LIB path) is answered with an ERROR and changes nothing: neither the state nor the library path nor what later requests return. This holds however the bytes of the messages are spread over time, and a FILE request for which there is no memory gets an ERROR as its reply.',
 ['histories'],'all finite sequences of protocol messages, including invalid commands in every state',
 'tests walk one happy path; order-dependent behaviour needs all sequences',
 ['src/lve/mlle_lve.c','src/lve/mlle_protocol_lve_state.c','src/lve/mlle_lve_libpath.c','src/lve/mlle_lve_feature.c','src/lve/mlle_lve_license.c','src/lve/mlle_lve_tools.c'],
 [('mlle_lve_valid_command_for_state','transition table, src/lve/mlle_protocol_lve_state.c'),('mlle_lve_handle_command','dispatch, src/lve/mlle_lve.c')],
 'enum mlle_lve_state','replies of the LVE')
p('C05','Messages are accepted exactly when they match the grammar',
 'A message is understood if and only if its first line, ended by a line feed and free of NUL bytes, is a known command (case-sensitive, complete word) with exactly the arguments of its form - none, one integer, one non-negative length, or integer and non-negative length (decimal numbers; what follows the digits within an argument is ignored) - and, for forms with data, the data after the line feed has exactly the announced length; arguments and data (any bytes) then reach the command unchanged. Anything else is answered by the LVE with ERROR 1 and does not affect the session, and rejected by the tool library with an error.',
 ['inputs'],'all message texts: command words, argument counts and values, data bytes and lengths, in both directions',
 'unit tests parse a handful of strings; the grammar has to hold for every word, count, number and data length',
 ['src/common/mlle_parse_command.c','src/common/mlle_protocol.c','src/common/mlle_utils.c','src/lve/mlle_lve.c'],
 [('mlle_tokenize/mlle_parse_command','src/common/mlle_parse_command.c'),('extract_data','data part, src/common/mlle_utils.c'),('mlle_command_info','command table, src/common/mlle_protocol.c')],
 None,'reply of the LVE; result of the tool API')
p('C06','No bytes from the tool can crash or wedge the LVE',
 'Whatever bytes a connected tool sends (random bytes, mutated or truncated messages, wrong or huge lengths, missing line feeds, NULs, records of any size up to the TLS maximum), the LVE neither crashes nor corrupts memory nor stops answering: every record gets exactly one well-formed reply, and a session that is still in a known state goes on to serve correctly. Bytes that are not TLS, or a connection cut at any point, make the LVE end by itself.',
 ['inputs','histories','fault_sequences'],'all byte strings in all records at all states, and all cut points of the connection',
 'tests send only valid messages; memory errors show only for particular lengths and bytes',
 ['src/lve/mlle_lve.c','src/common/mlle_utils.c','src/common/mlle_ssl.c','src/common/mlle_parse_command.c','src/lve/mlle_lve_file.c','src/lve/mlle_lve_libpath.c'],
 [('ssl_read_message','src/common/mlle_ssl.c'),('extract_data','src/common/mlle_utils.c'),('mlle_lve_receive','src/lve/mlle_lve.c')],
 None,'LVE process under AddressSanitizer: exit status, replies')
p('C07','No LVE behaviour can crash or hang the tool library',
 'Whatever an LVE executable sends or does (malformed replies, wrong, short or huge lengths, unexpected commands, data split over any records, closing the connection or dying at any byte of handshake or replies, not being an LVE at all), every call of the tool API (made, as is usual for programs talking to pipes, with SIGPIPE ignored) returns: with success only if the complete reply the call expects was received, otherwise with a failure value and an error object whose message is set. It never corrupts memory and never waits for an LVE that has ended.',
 ['inputs','fault_sequences','histories'],'all reply byte streams, record boundaries, and death points of the LVE, for each API call',
 'tests run against the one well-behaved LVE',
 ['src/tool/mlle_licensing.c','src/common/mlle_utils.c','src/common/mlle_ssl.c','src/tool/mlle_spawn_posix.c','src/tool/mlle_ssl_tool.c'],
 [('mlle_read_command','src/common/mlle_utils.c'),('mlle_expect_command(s)','src/tool/mlle_licensing.c'),('mlle_spawn','pipe set-up, src/tool/mlle_spawn_posix.c')],
 None,'return value and mlle_error of each API call')
p('C08','The tool API hands over exactly what the LVE replied',
 'mlle_tool_file returns contents whose size and bytes equal the data of FILECONT however it is cut into TLS records, and mlle_tool_read_bytes with any sequence of buffer sizes delivers them once, in order and never past the buffer, then reports the end. The commands sent carry the strings given by the caller unchanged (one that does not fit in a TLS record with its command is refused and nothing is sent); YES gives success, NO gives MLLE_TOOL_ERROR_NO_LICENSE with the text of the LVE, NOTSIMPLE gives MLLE_TOOL_ERROR_NOT_SIMPLIFIED, ERROR gives a failure that quotes the text, and any other command gives a failure naming it.',
 ['inputs','histories'],'all reply contents, record splits, buffer-size sequences, argument strings and API call sequences',
 'tests read one small file with one buffer size',
 ['src/tool/mlle_licensing.c','src/tool/mlle_licensing.h','src/common/mlle_utils.c','src/common/mlle_io.c'],
 [('mlle_tool_file/mlle_tool_read_bytes','src/tool/mlle_licensing.c'),('mlle_send_string','src/common/mlle_io.c'),('mlle_read_command','reassembly, src/common/mlle_utils.c')],
 'struct mlle_file_contents','API results; messages received by the (played) LVE')
p('C09','FILE reaches only files inside the library directory',
 'No FILE path makes the LVE return the contents of a file outside the directory given with LIB: paths with dot or dot-dot elements in any position, absolute-looking paths and any combination of separators are answered with an ERROR or with a file of the library. Paths of the library without such elements keep working, with names that merely contain dots included, and a directory or missing file is answered with an ERROR.',
 ['inputs'],'all path strings over names, dots, slashes and backslashes, relative to libraries with neighbours on every side',
 'tests request two existing files; containment is about all other path strings',
 ['src/lve/mlle_lve_file.c','src/lve/mlle_lve_libpath.c','src/common/mlle_io.c'],
 [('mlle_lve_file','path check and concatenation, src/lve/mlle_lve_file.c')],
 None,'replies of the LVE')
p('C10','Licences are granted exactly as the licence manager decides',
 'FEATURE is answered YES exactly for the features the licence manager licenses and otherwise NO with its message, for every name, any number of times and in any order with RETURNFEATURE and other commands; the manager sees each request exactly once, with the name and its length unchanged, is set up once per session with the library path and released at the end (however the tool ends), and if it cannot be set up the request is answered ERROR 7 with its message. LICENSE and RETURNLICENSE are answered NOTSIMPLE. In an LVE built with a global licence feature, a session without that licence gets ERROR 7 for LIB and no file contents whatsoever, and with it everything works as without a global licence.',
 ['inputs','histories','configurations'],'all feature names (prefixes, extensions, case variants of licensed ones), all command histories, builds without global feature, with a licensed one and with an unlicensed one',
 'tests ask for one licensed and one unlicensed name; the global feature is a build option no test builds',
 ['src/lve/mlle_lve_feature.c','src/lve/mlle_lve_license.c','src/lve/mlle_lve_libpath.c','src/license_managers/testingdummy/src/mlle_license_manager.c'],
 [('mlle_lve_feature/mlle_lve_returnfeature','src/lve/mlle_lve_feature.c'),('mlle_lve_libpath','global licence, src/lve/mlle_lve_libpath.c'),('mlle_license_checkout_feature','src/license_managers/testingdummy/src/mlle_license_manager.c')],
 'lve_ctx.lic_mgr, tool_approved','replies of the LVE')
p('C11','Embedded keys are exactly the keys they were made from',
 'A C program that includes the header written by obfuscate gets, after INITIALIZE, exactly the bytes of the key file without carriage returns, NUL-terminated, with _LEN their number, and after CLEAR only zeros; this holds for every non-empty file content, variable name and key type. randomize_key gives a 32-byte key that differs from run to run, may contain every byte value, and is embedded the same way; unreadable input, wrong arguments or a header that cannot be written completely give a non-zero exit status.',
 ['inputs'],'all key file contents (any bytes, CR/LF mixtures, lengths from 1), variable names, key types',
 'the build embeds a few PEM keys only and no test looks at the headers',
 ['src/embedfile/obfuscate.c','src/embedfile/obfuscate_utils.c','src/embedfile/randomize_key.c','src/obfuscators/dummy/src/obfuscator.c'],
 [('create_header_file','src/embedfile/obfuscate_utils.c'),('write_initialize_key_macro_body','src/obfuscators/dummy/src/obfuscator.c')],
 None,'bytes seen by a compiled program including the header')
p('C12','A packaged archive holds the library, complete and only as allowed',
 'When packagetool succeeds, the .mol archive contains for every regular file of the library (symbolic links and what is called .library are left out) exactly one entry <library>/<relative path> with identical bytes and the permissions of the file, except that with encryption every .mo is replaced by a .moc which the LVE serves back as the original and no cleartext .mo is present; besides, .library holds the manifest, with encryption every LVE found next to the tool, and the extra files (with contents and permissions, too). If any file cannot be read, encrypted or written (disk full included) the exit status is non-zero and no incomplete archive is left. Either way the source library is not changed and nothing is left of the staging directory.',
 ['inputs','configurations','fault_sequences'],'all library trees (names, depth, contents, file modes), encryption on and off, sets of LVEs and extra files, unreadable files',
 'packagetool has no tests at all',
 ['src/packagetool/packagetool.c','src/packagetool/utils.c'],
 [('copyDirectoryLinux/copyFile','staging, src/packagetool/utils.c'),('encryptDirectoryLinux/encryptFile','src/packagetool/utils.c'),('zipDirectoryLinux','src/packagetool/utils.c')],
 'staging directory','archive contents, exit status, source tree')
p('C13','The manifest is well-formed and says what was asked for',
 'manifest.xml is well-formed XML for all argument values (markup characters, tabs and line ends included), and parsing it gives back exactly the values given for id, enabled, title, description, version, build, date, language, copyright and license, with optional elements present if and only if their argument was given. It lists exactly the LVEs contained in the archive with their platforms, gives the icon as path, relative to the library, of the given file in the archive (when several files in the library have its name, too), and contains the contents of the tools and dependencies files after their first line, whatever their line lengths.',
 ['inputs','configurations'],'all argument values (text with quotes, ampersands, angle brackets, non-ASCII), all subsets of optional arguments, all tools/dependencies files',
 'packagetool has no tests at all',
 ['src/packagetool/manifest.c','src/packagetool/arguments.c','src/packagetool/utils.c','doc/SEMLA.md'],
 [('createManifestFile/print_escaped_text','src/packagetool/manifest.c'),('copyFileInformation','src/packagetool/manifest.c'),('locateIconFile/cleanUpIconPath','src/packagetool/utils.c')],
 None,'.library/manifest.xml in the archive')
p('C14','packagetool accepts exactly the valid command lines',
 'packagetool exits with 0 and an archive exactly when every option is known, starts with a minus sign and is given once with a non-empty value, the three mandatory options are there, the library path is a directory, the files named by -tools and -dependencies can be read, the one named by -icon exists and lies in the library and, with encryption, at least one LVE is available; in every other case it exits non-zero, leaves an existing archive untouched and creates none. The order of options does not matter, and -h/--help anywhere prints the help and packages nothing.',
 ['inputs'],'all argument vectors: subsets, permutations, duplicates, unknown and empty arguments, missing values and files',
 'packagetool has no tests at all',
 ['src/packagetool/arguments.c','src/packagetool/packagetool.c'],
 [('validateArguments','src/packagetool/arguments.c'),('doWork','src/packagetool/packagetool.c')],
 'manifestData','exit status, presence of the archive')
p('C15','Encrypted files reveal nothing and follow the file format',
 'Every encrypted file is a fresh random IV, the AES-256-CBC encryption of the contents (followed, for package.mo, by a fresh random 32-byte mask) and an HMAC-SHA256 over IV and plaintext, under the product key XORed with the mask of its directory (the one in its own package.mo, or for package.mo and directories without one the parent\'s), so that any LVE with the same key can read it. No part of the plaintext appears in it, encrypting the same file again gives different bytes throughout, and no two directories share a mask. A package.mo that comes after other files of its directory or below is refused, so that what was encrypted stays readable. If there is no randomness to be had, encryption fails.',
 ['inputs','histories'],'all contents (repetitive ones included), trees and encryption orders',
 'tests only look whether decryption undoes encryption, which would hold for no encryption at all',
 [ENC,'src/encrypt_decrypt/mlle_cr_crypt.h','src/encrypt_decrypt/encrypt_file.c'],
 [('mlle_cr_encrypt','src/decryptors/default/src/mlle_cr_encrypt.c'),('mlle_mask_key','src/decryptors/default/src/mlle_cr_encrypt.c')],
 'mlle_cr_context.keymask_map','bytes of the encrypted files, decrypted by an independent implementation')
p('C16','Library contents cross the pipe only inside TLS',
 'In no session does any part of the file contents, file names or licence feature names appear in clear in the bytes exchanged between tool and LVE, in either direction; nothing but TLS records is exchanged, and the cipher is never an anonymous, null or export one. The log file of the LVE, when enabled, contains no contents or keys and does not change any reply.',
 ['inputs','histories','configurations'],'all contents, names and command sequences, TLS 1.2 and 1.3, cipher lists offered by the peer, logging on and off',
 'tests look at the decrypted side only',
 ['src/common/mlle_ssl.c','src/common/mlle_io.c','src/lve/mlle_ssl_lve.c','src/tool/mlle_ssl_tool.c','src/lve/lve.c'],
 [('create_CTX','cipher list, src/common/mlle_ssl.c'),('ssl_write_message','src/common/mlle_ssl.c'),('mlle_log','src/common/mlle_io.c')],
 None,'raw bytes on the pipes; SEMLA_LVE_LOG_FILE')
p('C17','Error objects keep what was reported',
 'For every sequence of calls of the mlle_error functions on empty slots, an error keeps the domain, code and message it was created with (the first 2047 characters of a formatted message, a literal one in full) until it is freed, whatever happens to other errors and to the buffers of the caller; setting or propagating into a NULL destination discards it without a crash, propagation moves an error unchanged, and freeing (of an empty slot too) releases its memory and resets the pointer so that it can be used again. Messages are data: a literal containing format directives is stored as it is.',
 ['inputs','histories'],'all sequences of new, set, set_literal, propagate, get and free over several error slots that respect the rule that only an empty slot is set, all messages',
 'tests never set an error twice or look at long messages',
 ['src/common/mlle_error.c','src/common/mlle_error.h'],
 [('mlle_error_new/set/propagate/free','src/common/mlle_error.c')],
 'struct mlle_error','mlle_error_get_* results')
p('C18','encrypt_file and decrypt_file succeed completely or not at all',
 'encrypt_file followed by decrypt_file on any file (not larger than the 10 MB buffer of decrypt_file), whatever the encrypted one is called, gives back the same bytes with exit status 0, the input is never modified, and a file encrypted into a tree uses the masks of the package.moc files already there. If arguments are missing, a file name is empty or too long, an input does not exist, a parent package.moc is damaged or cannot be read, the output is the input (by the same or another name), or the output cannot be written completely (no directory, disk full at any byte), the exit status is non-zero and no partial output file remains.',
 ['inputs','fault_sequences','configurations'],'all contents and sizes up to the documented buffer, two and three argument forms, directory layouts, write limits at every byte',
 'tests run the tools on two fixed files without faults',
 ['src/encrypt_decrypt/encrypt_file.c','src/encrypt_decrypt/decrypt_file.c',ENC,DEC],
 [('main','src/encrypt_decrypt/encrypt_file.c'),('main','src/encrypt_decrypt/decrypt_file.c')],
 None,'exit status and files left')
p('C19','Sessions are independent and leave nothing behind',
 'For any history of opening, using, failing and closing LVE connections through the tool API, each connection behaves as if it were alone (own library, own state, own licence; whichever standard streams the tool has open, whatever signals it handles meanwhile, and while other threads of the tool open, use and close other connections), closing one ends its LVE process and does not disturb the others, and after all are closed the tool has the file descriptors it had before and no child process to wait for. An LVE ends by itself when its tool disconnects, orderly or not, at any moment.',
 ['histories','schedules','fault_sequences'],'all interleavings of operations on several connections, failed starts included, and all disconnect points',
 'tests open one connection at a time',
 ['src/tool/mlle_licensing.c','src/tool/mlle_spawn_posix.c','src/tool/mlle_ssl_tool.c','src/lve/mlle_lve.c'],
 [('mlle_spawn','src/tool/mlle_spawn_posix.c'),('mlle_connections_free','src/tool/mlle_licensing.c'),('mlle_lve_receive','end of session, src/lve/mlle_lve.c')],
 'open file descriptors, child processes','API results, /proc/self/fd, child exit')
p('C20','The LVE command line does what its usage says',
 'The LVE run with --checkout-feature F --libpath P (in either order) exits 0 exactly if P is an existing directory and the licence manager licenses F; --version alone prints valid JSON with name, version and the configured list of tools and exits 0; --help alone prints the usage and exits 0. The licence manager is asked once, for F as given. Without --checkout-feature (with or without --libpath) it serves a tool over its standard streams. Every other argument vector (unknown, duplicate, value missing, empty value, --checkout-feature without --libpath, --version or --help combined with others) exits non-zero without crashing.',
 ['inputs'],'all argument vectors and all kinds of library paths',
 'tests try a few vectors',
 ['src/lve/lve.c','src/lve/mlle_lve_libpath.c','src/lve/mlle_lve_feature.c'],
 [('main/_checkout_feature','src/lve/lve.c'),('validate_directory','src/lve/mlle_lve_libpath.c')],
 None,'exit status and output')
p('C21','Version negotiation accepts exactly the common versions',
 'mlle_tool_version sends the maximum version of the tool and succeeds if and only if the version the LVE answers lies between the minimum and maximum of the tool, otherwise it fails with an error saying too low or too high. The LVE answers VERSION n with its own version for every n that is at least its minimum, and with ERROR 2 for any smaller n, after which the negotiation can be repeated.',
 ['inputs','histories'],'all integers for minimum, maximum and offered version, all retry sequences',
 'tests use version 1 on both sides',
 ['src/tool/mlle_licensing.c','src/lve/mlle_lve.c','src/lve/mlle_lve.h'],
 [('mlle_tool_version','src/tool/mlle_licensing.c'),('mlle_lve_handle_command','case MLLE_LVE_STATE_VERSION, src/lve/mlle_lve.c')],
 None,'API result; reply of the LVE')
p('C22','Memory and descriptors do not grow with use',
 'Repeating the same round of work - any requests to an LVE in one session (served, refused, malformed, from a trusted or untrusted tool), any tool API calls on one connection with any replies, connections opened (or failing to open), used and closed, or encryption contexts created, used on intact or damaged files and freed - does not make the memory in use or the number of open descriptors of the process grow round after round; what is kept once (for instance the key mask of a directory) does not count. A long-lived tool or LVE therefore does not run out of either.',
 ['histories','inputs'],'all rounds of operations, success and failure paths, repeated without end',
 'tests end after a few operations and their leaks are not looked at',
 ['src/tool/mlle_licensing.c','src/tool/mlle_ssl_tool.c','src/tool/mlle_spawn_posix.c','src/common/mlle_ssl.c','src/common/mlle_utils.c','src/lve/mlle_lve.c','src/lve/mlle_lve_file.c','src/decryptors/default/src/mlle_cr_decrypt.c'],
 [('mlle_connections_free','src/tool/mlle_licensing.c'),('mlle_read_command','src/common/mlle_utils.c'),('mlle_lve_file','src/lve/mlle_lve_file.c'),('mlle_cr_free','src/decryptors/default/src/mlle_cr_decrypt.c')],
 'allocated memory, file descriptors','bytes allocated and /proc/<pid>/fd after each round')
import re
for x in P:
    assert len(x['title'])<=80,x['id']
    # sentences
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    print(x['id'],len(x['title']),n)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
