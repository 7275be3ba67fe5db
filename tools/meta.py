#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that the two stay in step. Run after editing."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PW, ST, CR, RC, FI = "pfp/src/passwords.rs", "pfp/src/storage.rs", "pfp/src/crypto.rs", "pfp/src/recovery_codes.rs", "pfp/src/storage_io/file.rs"
SP, SS = "pfp/src/storage_types/password.rs", "pfp/src/storage_types/site.rs"
P = "cli/src/processor/"
MAIN, ARGS, UT = "cli/src/main.rs", "cli/src/args.rs", P + "utils.rs"
ALLP = [P + f for f in ("add.rs", "add_stored.rs", "remove.rs", "show.rs", "notes.rs", "list.rs", "alias.rs", "set_primary.rs", "shell.rs", "utils.rs")]


def p(id, title, statement, over, q, tests, files, mech, observe, technique, note, level="exploration", state=None):
    return dict(id=id, title=title, statement=statement, over=over, q=q, tests=tests, files=files, mech=mech, observe=observe,
                technique=technique, note=note, level=level, state=state)


PROPS = [
    p("C01", "The storage is a faithful map of passwords and notes",
      "After any sequence of add, add-stored, overwrite, notes and remove, every password last set for a (site, name, revision) and not removed since is returned with exactly its value, parameters and notes, nothing else is, and no operation changes any other entry; revision 1, an empty revision and a left-out one are the same. "
      "This holds equally within one session, after locking and unlocking and in a new process, for names, passwords and notes of any NUL-free text (passwords are trimmed when typed, overwriting a password discards its notes).",
      ["histories", "inputs"], "every sequence of storage commands over any set of keys, including keys that are prefixes, case variants or separator-laden variants of each other",
      "the tests run one fixed sequence over three fixed keys with ordinary names", [PW, ST, SP, P + "add.rs", P + "add_stored.rs", P + "remove.rs", P + "notes.rs", P + "show.rs"],
      [("storage keys are HMACs over site NUL name NUL revision", ST + " get_password_key"), ("every mutation is flushed", PW), ("revision normalization", SP + " PasswordId::new")],
      ["output of show/notes/list", "decrypted storage file after every command"],
      "history monitor: executable model of the store + independent decryption of the file after every command",
      "Every command of random histories over colliding and hostile keys is compared with a reference model, on the output and on the decrypted file; trusts Python's hashlib/OpenSSL and the model."),
    p("C02", "www. spellings and aliases address one set of passwords and lose none",
      "A site, the site with one www. prefix and every alias of it always address the same passwords, whatever sequence of alias definitions, redefinitions and removals produced the aliases, and an alias always leads to its final target even if that target is made an alias later. "
      "A site with passwords cannot become an alias, a site cannot become its own alias, and removing an alias or listing never makes any password unreachable or changes one.",
      ["histories", "inputs"], "every sequence of alias and password commands over related site names",
      "the tests define a few fixed aliases, never chains or cycles in different orders", [PW, ST, P + "alias.rs", P + "list.rs"],
      [("resolution of site names", ST + " resolve_site"), ("aliases resolved when defined, dependents re-pointed", PW + " set_alias"), ("refusal for sites with passwords", PW + " set_alias"), ("clean-up of empty sites", P + "list.rs")],
      ["output of alias/show/list -v", "decrypted storage file after every command"],
      "history monitor: alias model + independent decryption after every command",
      "Random alias histories against a flat-alias model; final sweep shows every password through every spelling. Chains written by old versions before the fix are not claimed."),
    p("C03", "Listings are complete, sound, ordered and filtered as asked",
      "list prints every password whose site matches the domain pattern and whose name matches the name pattern, each once, under its site, sites and entries in order (by site name; by name and then revision), and nothing else; * stands for any text and ? for one character, a pattern without wildcards is matched exactly, against the site's name as stored (without its www. prefix) and its aliases. "
      "With -s, -r, -v each listed entry carries exactly its own value, its own recovery code, its own notes and parameters and its site's own aliases, and listing changes no password, note or alias in use.",
      ["inputs", "histories"], "every storage content, every pair of patterns, every combination of options",
      "the tests list one storage of three entries with a handful of patterns", [P + "list.rs", PW, ST],
      [("pattern matching and order", PW + " list, list_sites"), ("grouping and printing", P + "list.rs")],
      ["complete text printed by list"],
      "output oracle: the complete listing text computed from the independent reader's view",
      "Byte-exact comparison of whole listings over generated storages and patterns. One known finding (wildmatch crate misses overlapping partial matches) is listed; patterns on which that crate is wrong are otherwise avoided."),
    p("C04", "An operation changes exactly the storage it was pointed at, on success only",
      "A command changes nothing in the file system but the storage file it was pointed at (through -c, a symbolic link, a relative path or the default location; missing parent directories are created when it is first written) and, for the shell, the history file; queries, refused, declined, aborted and failing commands change nothing at all (except that list may drop records of sites holding neither passwords nor an alias). "
      "A storage that existed keeps its permissions, symbolic links stay links, and no temporary files are left behind.",
      ["inputs", "configurations", "histories"], "every command and outcome, every way of naming the storage, every file layout",
      "the tests use one temporary file and never look beside it", [FI, MAIN] + ALLP[:8],
      [("storage path selection", MAIN + " get_default_storage_path"), ("flush replaces the file", FI + " flush, replace_file"), ("checks before mutation", PW)],
      ["snapshots of a whole directory tree (content, mode, type, link target) before and after every command"],
      "frame monitor: whole-tree snapshots around every command",
      "Every effect inside a scratch tree of storage, home, temp and working directory is observed; effects elsewhere on the system are not."),
    p("C05", "Saving is all-or-nothing under crashes and I/O errors",
      "If a command that saves the storage is killed at any moment, loses power or meets an I/O error (no space, no permission, short or interrupted writes), the storage file afterwards holds completely either the state before or the state after that command, and a concurrent reader sees one of the two as well. "
      "A command that could not save reports a failure and leaves the old state, also for the rest of its shell session: later commands neither show nor save its change. A command that reported success has left the new state.",
      ["crash_points", "fault_sequences"], "every file-changing call of every mutating command, every fault kind, every storage layout",
      "the tests never inject faults; they only look at results of undisturbed runs", [FI, PW],
      [("temporary file, fsync, rename", FI + " replace_file"), ("errors are propagated", FI + " flush")],
      ["storage file after an injected kill or error, decrypted independently", "exit status and messages", "a concurrent reader"],
      "fault injection at every file-changing libc call (LD_PRELOAD) + before/after oracle on the decrypted file",
      "Enumerates all file-changing calls × fault kinds of each command (SIGKILL before/in/after, ENOSPC, EIO, EACCES, EDQUOT, EINTR, short writes), plus power loss modelled as losing every unsynced write. Directory fsync is not demanded.", level="fault_enumeration"),
    p("C06", "Generated passwords are the documented deterministic function",
      "A generated password depends on nothing but primary password, resolved site, name, revision, length and allowed character classes, and is always the value every PfP implementation derives from these (scrypt-based, documented alphabet), in every storage, session and after removal and re-adding. "
      "It has exactly the requested length (4 to 24), only characters of the allowed classes and at least one character of each allowed class.",
      ["inputs"], "every primary password, site, name, revision, every length from 4 to 24, every non-empty set of classes",
      "the tests check a dozen fixed tuples", [CR, PW, SP, P + "add.rs"],
      [("derivation", CR + " derive_password, to_password"), ("salt of site, name and revision", SP + " GeneratedPassword::salt")],
      ["output of show and list -s"],
      "differential oracle: independent implementation of the derivation (OpenSSL scrypt)",
      "Thousands of random tuples in the thorough tier; trusts OpenSSL's scrypt and the reimplemented character mapping, itself anchored to golden values of the original program."),
    p("C07", "The storage file is the documented format, readable across implementations",
      "Whatever the program writes is the documented format (application pfp, format 3, base64 salt, AES-256-GCM values with 12 byte nonces under HMAC-SHA-256 keys, documented JSON records) and every such file, whoever wrote it and with whatever salt, HMAC secret, key order or JSON style, is read completely and correctly. "
      "Changing something in such a file keeps all the rest of its contents.",
      ["inputs", "programs", "histories"], "every file of the documented format, every sequence of commands on it",
      "the tests only read back what the same code wrote, or one fixed sample", [FI, ST, CR, SP, SS, "pfp/src/json/macros.rs"],
      [("serialization", SP + ", " + SS), ("envelope", FI + " FileIO"), ("value encoding", CR + " encrypt_data, decrypt_data")],
      ["files written, read by a strict independent reader", "output for files written independently or by the original release"],
      "differential oracle: independent reader and writer of the format, plus golden files",
      "Strict reader rejects any deviation; golden files pin compatibility with the originally released program."),
    p("C08", "Nothing on disk is intelligible without the primary password",
      "At no time, also not in temporary files or after a crash, does anything the program writes to disk next to or as the storage contain the primary password, a site, user name, revision, notes, password or key in clear or in any trivially reversible form. "
      "Every encryption (also in recovery codes) uses a fresh random nonce, every reset a fresh random salt and HMAC secret, and re-saving leaves unchanged entries as they are.",
      ["histories", "crash_points"], "every history of commands, every moment of it",
      "the tests replace the random generator by a fixed sequence and only look at decrypted contents", [CR, ST, FI, PW, RC],
      [("encryption of every value", CR + " encrypt_data"), ("keyed digests instead of names", ST + " get_password_key, get_site_key"), ("random salt and HMAC secret", PW + " reset")],
      ["every file in the storage's directory after every operation and injected kill", "all nonces, salts, secrets seen"],
      "marker scanning of all files + nonce/salt repetition monitor over histories",
      "Unique markers are searched raw, UTF-16, hex, base64, URL and JSON escaped; repetition is checked over all nonces of a run (gross bias only). Sizes and number of entries are visible by design. The shell history holds typed command lines by design."),
    p("C09", "Without the primary password nothing is read, told or changed",
      "Every command that needs it asks for the primary password until exactly the right one is given, and until then shows nothing from the storage and changes nothing; too short, wrong or similar passwords and end of input never unlock. "
      "lock in a shell restores that state completely, the right password unlocks again, and a shell asks only once per unlocked period.",
      ["inputs", "histories"], "every command, every sequence of wrong attempts, every position of lock in a session",
      "the tests try one wrong password", [UT, PW, ST, CR, P + "shell.rs"],
      [("authenticated decryption of the HMAC secret", PW + " unlock"), ("prompt loop", UT + " ensure_unlocked_passwords"), ("forgetting keys", PW + " lock")],
      ["prompts and output until the right password", "storage tree"],
      "marker monitor over dialogues with near-miss primary passwords",
      "Near misses include prefixes, case, normalization forms and passwords of other storages. Primary passwords extended by NULs (equivalent under PBKDF2-HMAC) are excluded."),
    p("C10", "Damaged or foreign files are reported; intact entries stay right",
      "On a storage file damaged in any way no command crashes, and none ever shows a wrong value: an entry that was tampered with is reported as unreadable or left out of listings, intact entries keep their values, and files of other applications or formats are rejected. "
      "Queries leave a damaged file as it is, and changing another entry keeps every intact one.",
      ["inputs", "fault_sequences"], "every damage to the file's text, to single values and to authentically encrypted records",
      "the tests try a few hand-made damaged files", [FI, ST, CR, UT, SP, "pfp/src/json/macros.rs"],
      [("authenticated encryption", CR + " decrypt_data"), ("strict envelope", FI + " FileIO, load"), ("error reporting", UT + " format_error")],
      ["output, status and file after commands on damaged files"],
      "mutation workload on files + truth oracle on every value shown",
      "Mutations of text, encoding, nonce, ciphertext, tag and plaintext shape. Swapping authentic values between keys is outside the claim (the format does not bind values to keys)."),
    p("C11", "Recovery codes bring stored passwords back anywhere",
      "The recovery code list -r prints for a stored password, typed in any equivalent way (any letter case, punctuation, spaces or line division, with characters outside its alphabet ignored), restores exactly that password on any storage with the same primary password, also after a reset and across program versions. "
      "A code reveals only the password's length in 14 byte steps and is useless with another primary password.",
      ["inputs", "histories"], "every stored password (non-empty after trimming, not ending in NUL), every equivalent way of typing the code",
      "the tests decode two fixed codes", [RC, PW, CR, UT, P + "list.rs"],
      [("code generation", RC + " generate"), ("decoding", RC + " decode"), ("dialogue", UT + " prompt_recovery_code")],
      ["codes printed, decoded independently", "restored passwords in the decrypted file"],
      "round-trip monitor with an independent encoder/decoder of the code format",
      "All length residues and more than 256 lines; trusts the independent decoder, anchored to codes by the original release."),
    p("C12", "Mistakes in a recovery code are noticed and never store a wrong password",
      "While a recovery code is entered, each line with a mistake is rejected right away with the lines before it kept, so that correcting that line completes the code; swapped, doubled, missing or foreign lines, extra data, unknown versions and too little data are reported as such. "
      "Whatever is typed, the only password that can ever be stored is the one the code was made for; aborting, declining or the end of input stores nothing.",
      ["inputs", "histories"], "every sequence of lines typed, every kind and position of mistake that the per-line check byte can notice",
      "the tests make a handful of fixed mistakes", [RC, UT, CR, P + "add_stored.rs"],
      [("checksum per line, bound to the line's position", CR + " pearson_hash; " + RC + " decode"), ("dialogue keeps accepted lines", UT + " prompt_recovery_code"), ("authenticated encryption of the password", RC)],
      ["the dialogue's messages line by line", "the decrypted file"],
      "dialogue monitor: reference state machine of the recovery dialogue",
      "Line by line comparison of messages and outcome with the reference; mistakes which collide with the one byte checksum are simulated the same way and end in a decryption failure."),
    p("C13", "Nothing existing is overwritten without the user's consent",
      "add, add-stored and set-primary ask before replacing anything that exists, however the target is spelled (www., aliases, revision forms) and whether or not it is readable, ask before any secret is requested, and do not ask when nothing would be replaced or --assume-yes is given. "
      "Only an answer of y or yes replaces anything; no, an empty answer, an invalid one (asked again) and end of input leave every byte as it was, and consent replaces exactly the target.",
      ["inputs", "histories", "configurations"], "every target spelling, every kind of existing file, every sequence of answers",
      "the tests answer yes or no to one existing password", [P + "add.rs", P + "add_stored.rs", UT, MAIN, PW],
      [("existence check and question", P + "add.rs, " + P + "add_stored.rs, " + MAIN), ("confirmation", UT + " confirm")],
      ["questions asked", "tree before and after"],
      "consent monitor: question/answer oracle + tree comparison",
      "notes -s and alias replace without asking by design."),
    p("C14", "Every command ends by itself, never crashes and tells honestly how it went",
      "Whatever arguments, input and storage file a command is given, it neither crashes nor hangs once its input has ended; it exits with status 0 only when it did what it was asked to (or the user declined) and says so, and otherwise with a failure status and a message. "
      "The storage file changes exactly when success is reported, and a shell survives every line it is fed.",
      ["inputs", "configurations"], "every argument vector, every byte sequence on stdin, every state of the storage file",
      "the tests use well-formed arguments and input only", [ARGS, MAIN] + ALLP,
      [("errors as values", MAIN + " main"), ("input errors end prompts", UT + " prompt_secret_text, confirm"), ("argument validation", ARGS)],
      ["exit status, output, file, running time"],
      "hostile-input workload + exit/honesty oracle",
      "One known finding is listed (clap 3.2.11 panics on certain non-UTF-8 arguments). Output is assumed to be writable and input finite."),
    p("C15", "A shell does what the same commands do one by one",
      "A command typed into a shell, in any Bourne quoting, produces the same output, messages and storage changes as the same command run by itself, after any preceding commands, failures and locks in that session. "
      "A shell refuses set-primary, shell and the choice of another storage, survives failing and malformed commands, and its history file keeps the command lines from session to session but never anything typed at a prompt or shown.",
      ["histories", "inputs"], "every command sequence, every quoting of every argument",
      "the tests run a few fixed lines in a shell", [P + "shell.rs", P + "mod.rs", UT, ARGS],
      [("word splitting and parsing", P + "shell.rs"), ("shared command processing", P + "mod.rs process_command")],
      ["output and decrypted storage of twin runs", "history file"],
      "differential twin monitor: shell session versus one process per command",
      "Outputs are compared byte by byte, recovery codes by their content; usage errors only by being reported."),
    p("C16", "Secrets are wiped from the heap when no longer needed",
      "Memory that held the primary password, a key, a stored or generated password or notes is overwritten before it is given back to the allocator, also when a buffer grows or a command fails. "
      "Nothing of these remains in the heap when the program ends, when a shell has been locked, or, apart from the key material in use, while a shell waits for its next command.",
      ["histories", "inputs"], "every command, outcome and way of input; secrets of every length as text, as JSON text and in Base64",
      "the tests only see results; what is left in freed memory is invisible to them", [CR, PW, ST, SP, RC, UT, P + "shell.rs", "pfp/src/json/macros.rs", FI],
      [("secrets kept in SecretString/SecretVec", "pfp/src, secrecy"), ("buffers sized in advance so they never grow", UT + " read_stdin, " + ST + " set"), ("keys dropped", PW + " lock")],
      ["every heap block when freed, moved or live at exit or while a shell waits"],
      "heap sanitizer of our own (LD_PRELOAD): every block searched for known secrets when freed, moved, or live at a checkpoint",
      "Two known findings in dependencies are listed (serde_json's scratch buffer, rpassword's terminal buffer). Stack, registers and encodings other than text, JSON and Base64 are out of scope; secrets shorter than 10 bytes are not searched."),
    p("C17", "A QR code holds exactly the password it stands for",
      "Whatever show -q prints is a valid QR code (of the documented version sizes, with a quiet zone, correct format and version information and intact error correction) which decodes to exactly the password that show prints as text. "
      "A password that does not fit is reported as such and nothing is printed in its place.",
      ["inputs"], "every password, of every character set, length and mixture of characters, up to and beyond the capacity limit",
      "the tests compare one printed code with a fixed text", [P + "show.rs", PW, "cli/Cargo.toml"],
      [("encoding and drawing", P + "show.rs")],
      ["output of show -q, decoded independently"],
      "output oracle: independent QR decoder (ISO 18004) run on everything show -q prints",
      "Decoder demands zero errors in all codewords, so any wrong module except remainder bits is noticed. Sampled lengths plus all capacity limits."),
    p("C18", "Only secrets asked for are shown",
      "Nothing the program prints, on success or failure and in any mode, contains a primary password, key, password, recovery code or notes text other than those the command is there to show, in clear or trivially encoded. "
      "On a terminal, passwords are never echoed while they are typed, and echoing works again afterwards.",
      ["histories", "inputs"], "every command, right or wrong, on every storage, also damaged ones, with every kind of input",
      "the tests look for expected text and never for text that must not be there", ALLP + [MAIN, "pfp/src/error.rs", PW],
      [("what each command prints", P), ("hidden prompts", UT + " prompt_secret_text"), ("error texts", UT + " format_error")],
      ["standard output, standard error, the terminal's screen and its echo flag"],
      "secret-flow monitor: all output and terminal state searched for every live secret not asked for",
      "Random right and wrong commands in processes, shells and on pseudo terminals. Reports about authentic but malformed entries may quote the misplaced value (assumption)."),
    p("C19", "set-primary starts over with an empty storage",
      "After set-primary succeeded exactly the new primary password opens the storage, it holds no passwords, aliases or other records of the old one and shares no salt, key or secret with any earlier state. "
      "A new primary password that is too short or not repeated exactly is refused, and a set-primary that was refused, declined or cut off leaves the old storage and its primary password working as they were.",
      ["histories", "inputs", "configurations"], "every sequence of set-primary and other commands, every pair of old and new primary passwords, every existing file",
      "the tests set one primary password twice on one storage", [PW, ST, FI, P + "set_primary.rs", MAIN],
      [("clear, new salt and secret, flush", PW + " reset"), ("length and repetition", P + "set_primary.rs")],
      ["the storage file, read independently", "what list, show and the old and new primary passwords give"],
      "history monitor: independent reading and probing of the file after every set-primary",
      "Pools of closely related passwords and hostile existing files. Copies of the old file elsewhere are out of scope."),
    p("C20", "The library's calls keep their documented contract with any backend",
      "Over any storage backend and after any sequence of calls, each call of pfp::passwords::Passwords returns the value or the error its documentation names: everything that needs the primary password gives PasswordsLocked until a successful unlock or reset and again after lock, a failed unlock changes nothing, missing things are KeyMissing or NoSuchAlias, conflicting aliases AliasToSelf or SiteHasPasswords. "
      "A call that changes something changes exactly that in the backend, saves it before it returns and reports when saving fails; failing calls and queries change and save nothing. "
      "FileIO holds exactly what it was given or loaded, loads nothing but intact PfP files, and touches the file system only in flush, which leaves exactly its content in the file, or reports a failure and goes back to what was last loaded or saved.",
      ["histories", "inputs", "configurations"], "every sequence of library calls with any texts, every backend content and key order, every failing save",
      "the tests make about one call of each kind on one fixed storage, and none with a failing save or damaged values", [PW, ST, FI, "pfp/src/storage_io/mod.rs", "pfp/src/error.rs", RC, SP],
      [("keys are present only while unlocked", PW + " unlock, lock, reset"), ("every mutation ends in flush", PW), ("error mapping", ST), ("data in memory until flush", FI)],
      ["results of calls made through the harness crate", "calls recorded at the StorageIO backend", "the backend's data and the file, decrypted independently"],
      "API trace monitor: recorded calls and backend events against a reference state machine",
      "The harness crate only executes calls; the reference model, decryption and verdicts are independent of the library. What an instance holds in memory after a failed save is only specified, and checked, for FileIO."),
    p("C21", "Programs running side by side do not spoil each other's work",
      "Any number of pfp-cli processes may work on the same storage file, or on files next to it, at the same time: whoever reads the file at any moment finds a complete storage that exactly one of them saved (as a whole: never a mixture, never an earlier state coming back), "
      "every command ends as it would alone, for the state it loaded, without errors caused by the others, a process killed half way does not disturb the rest, and files of other storages, histories and leftovers are not touched.",
      ["schedules", "histories", "crash_points"], "every interleaving of the file accesses of any number of shells and commands, also with processes killed in between",
      "the tests run one process at a time", [FI, ST, PW, MAIN, P + "shell.rs"],
      [("save by writing a temporary file and renaming it", FI + " flush"), ("loading at the start", MAIN)],
      ["contents of the file polled while programs run", "results of every command", "directory next to the storage"],
      "linearizability monitor (single register, recorded intervals) with injected delays and kills",
      "Saves overlap for real, with random delays before file calls; overlaps are counted in the evidence. That the last save wins (updates of the others are lost) is how the program works and is what the register model says."),
    p("C22", "Options and names mean the same however they are written",
      "Every documented option works in its long and short spelling, clustered, with its value attached or separate, anywhere before, between or after the names, as a command and in a shell, and defaults left out mean the same as spelled out; names may look like options behind --. Options are independent of each other. "
      "Anything else (unknown or abbreviated commands and options, missing, surplus or unacceptable values, such as lengths outside of 4 to 24) is refused with a message, before asking anything and without any effect.",
      ["inputs", "configurations"], "every spelling of every request, with every combination of options",
      "the tests use one spelling of each option, mostly alone", ["cli/src/args.rs", MAIN, P + "shell.rs", P + "add.rs", P + "list.rs", P + "notes.rs"],
      [("argument definitions", "cli/src/args.rs"), ("parsing again inside a shell", P + "shell.rs")],
      ["output, prompts and exit status", "the storage file decrypted independently"],
      "differential monitor: random spellings of one request against the model of what it means",
      "Random spellings over fixed names and options; -c/--storage inside a shell (accepted, without effect) and --wait are left out."),
    p("C23", "Nothing but storage, arguments and answers decides what a command does",
      "The same command with the same answers on the same storage ends with the same status, says the same and leaves the same contents, whatever the locale, terminal type and size, clock and time zone, home and current directory, environment variables, program name, path of the storage, shell history and limits, "
      "whether answers are typed at a terminal, slowly, or redirected, and wherever the output goes. Only fresh random numbers (salts, nonces, recovery codes) and the layout of usage texts may differ.",
      ["configurations", "inputs", "schedules"], "every command and shell session, in all surroundings a process can be started in",
      "the tests run everything in one surrounding, over pipes", ALLP + [MAIN, "cli/src/args.rs", FI],
      [("default locations", MAIN + " get_default_storage_path"), ("prompts", UT), ("shell input and history", P + "shell.rs")],
      ["exit status, standard output and error or terminal screen", "the storage file decrypted independently", "environment variables asked for"],
      "metamorphic monitor: runs in perturbed surroundings (shim, pty, redirection) compared with a plain run",
      "A shim answers every environment variable asked for and distorts clocks and the user database. Answers redirected together with --stdin-passwords secrets behind open questions are left out."),
]

CLAIMED = [x["id"] for x in PROPS]
NOT_APPLICABLE = []


def main():
    with open(ROOT + "/properties.jsonl", "w") as f:
        for x in PROPS:
            assert len(x["title"]) <= 80, x["title"]
            a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]], "observe_at": x["observe"], "hook_needed": None}
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["q"]}, "why_tests_cant": x["tests"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": x["id"], "quick_cmd": "python3 run.py " + x["id"],
                     "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + x["id"],
                     "technique": x["technique"], "level": x["level"], "level_note": x["note"]} for x in PROPS],
         "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks in /repo: the program is monitored from outside (pipes, files, LD_PRELOAD shims), the library through its public interface (harness/). See DESIGN.md."}
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
